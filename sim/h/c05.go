package h

import (
	"fmt"
	"sort"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// ---- linearizability of a single register with unique values -----------------

// lop is one operation on one key. Kind: 'w' write val, 'd' delete, 'r' read
// that saw val ("" = absent).
type lop struct {
	kind     byte
	val      string
	inv, ret time.Duration
	open     bool // outcome unknown: may take effect at any time after inv, or never
	who      string
}

// linearizable searches for a legal order. ok is true when one exists or the
// search budget ran out (decided = false).
func linearizable(ops []lop) (ok, decided bool) {
	n := len(ops)
	if n > 120 {
		return true, false
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	type st struct {
		a, b uint64
		val  string
	}
	seen := map[st]bool{}
	budget := 400000
	var must [2]uint64
	for i, o := range ops {
		if !o.open {
			must[i/64] |= 1 << uint(i%64)
		}
	}
	var rec func(s st) bool
	rec = func(s st) bool {
		if s.a&must[0] == must[0] && s.b&must[1] == must[1] {
			return true
		}
		if seen[s] || budget <= 0 {
			return budget <= 0
		}
		budget--
		seen[s] = true
		done := func(i int) bool {
			if i < 64 {
				return s.a>>uint(i)&1 == 1
			}
			return s.b>>uint(i-64)&1 == 1
		}
		// the earliest return among pending completed operations
		min := time.Duration(1<<62 - 1)
		for i := 0; i < n; i++ {
			if !done(i) && !ops[i].open && ops[i].ret < min {
				min = ops[i].ret
			}
		}
		for i := 0; i < n; i++ {
			o := &ops[i]
			if done(i) {
				continue
			}
			if o.inv > min {
				break
			}
			v := s.val
			switch o.kind {
			case 'w':
				v = o.val
			case 'd':
				v = ""
			case 'r':
				if o.val != s.val {
					continue
				}
			}
			t := s
			t.val = v
			if i < 64 {
				t.a |= 1 << uint(i)
			} else {
				t.b |= 1 << uint(i-64)
			}
			if rec(t) {
				return true
			}
		}
		return false
	}
	r := rec(st{})
	if budget <= 0 {
		return true, false
	}
	return r, true
}

type linState struct {
	by   map[string][]lop
	keys map[string]bool
}

func (st *linState) add(k string, o lop) { st.by[k] = append(st.by[k], o) }

// reads adds one read per known key from a complete listing.
func (e *Env) reads(st *linState, got map[string]string, inv, ret time.Duration, who string) {
	for k := range st.keys {
		st.add(k, lop{kind: 'r', val: got[k], inv: inv, ret: ret, who: who})
	}
	for k := range got {
		if !st.keys[k] {
			e.Fail("foreign-key", "%s returned key %s that nobody wrote", who, k)
		}
	}
}

func (e *Env) checkLin(st *linState) {
	for _, k := range SortedKeys(st.keys) {
		ops := st.by[k]
		writes := 0
		for _, o := range ops {
			if o.kind != 'r' {
				writes++
			}
		}
		ok, dec := linearizable(ops)
		if !dec {
			e.W.Counters["linearizability_undecided"]++
			continue
		}
		e.Checked("key-history")
		if !ok {
			s := ""
			for i, o := range ops {
				if i > 40 {
					s += " .."
					break
				}
				s += fmt.Sprintf(" %c(%s)[%v,%v,%s]", o.kind, o.val, o.inv, o.ret, o.who)
			}
			e.Fail("not-linearizable", "key %s: no sequential order explains%s", k, s)
			return
		}
	}
}

// ---- over gRPC -----------------------------------------------------------------------------

func genLin(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 2+r.Intn(4)
	p.Set("nds", 1)
	p.Set("dim", 3)
	setDS(p, 0, 100000, 400, r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.5))
	keys := 1 + r.Intn(6)
	p.Set("keys", int64(keys))
	p.Set("fill", int64(r.Pick(0, 5, 40, 150)))
	span := r.Range(100, 20000)
	// around the time the background pass rebuilds the index
	p.Set("start", int64(r.Pick(3, 10, 60, 65, 70))*1000+r.Range(-500, 500))
	n := r.Pick(20, 50, 90)
	for i := 0; i < n; i++ {
		kind := "ins"
		if r.Bool(0.45) {
			kind = pickStr(r, "stream", "stream", "search")
		}
		p.Ops = append(p.Ops, Op{At: r.Range(0, span), C: r.Intn(p.Clients), Kind: kind, Key: r.Intn(keys), Val: i + 1})
	}
	sortOps(p)
	if r.Bool(0.4) {
		GenFaults(r, p, 1+r.Intn(3), 0, span, "pause", "reset", "slow", "loss", "rstp")
		for i := range p.Faults {
			if p.Faults[i].Dur > 20000 {
				p.Faults[i].Dur = 20000
			}
		}
	}
}

func linListing(l []*pb.Datum) map[string]string {
	m := map[string]string{}
	for _, d := range l {
		m[KeyOf(d)] = ValOf(d)
	}
	return m
}

func doLin(e *Env, c *Client, op *Op) {
	st := e.X.(*linState)
	n := e.Nodes[0]
	who := fmt.Sprintf("%s/c%d", op.Kind, c.I)
	inv := simrt.Now()
	switch op.Kind {
	case "ins":
		d := mk(0, op.Key, op.Val, 3)
		k, v := KeyOf(d), ValOf(d)
		err := c.Insert(n, dsName(0), d, &pb.InsertConfig{}, Sec(60))
		st.add(k, lop{kind: 'w', val: v, inv: inv, ret: simrt.Now(), open: err != nil, who: who})
	case "stream":
		l, err := c.Stream(n, dsName(0), Sec(60), 0, 0)
		if err == nil {
			if dup := firstDup(l); dup != "" {
				e.W.Counters["dup_in_stream"]++
				return
			}
			e.reads(st, linListing(l), inv, simrt.Now(), who)
		}
	case "search":
		l, err := c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 3)}, Config: &pb.SearchConfig{DataName: dsName(0), Limit: 10000, Timeout: 60000, ScoreFuncName: "VectorDistance"}}, Sec(70))
		if err == nil && simrt.Now()-inv < Sec(40) {
			m := map[string]string{}
			for _, s := range l {
				m[KeyOf(s.Datum)] = ValOf(s.Datum)
			}
			e.reads(st, m, inv, simrt.Now(), who)
		}
	}
}

func firstDup(l []*pb.Datum) string {
	seen := map[string]bool{}
	for _, d := range l {
		if seen[KeyOf(d)] {
			return KeyOf(d)
		}
		seen[KeyOf(d)] = true
	}
	return ""
}

func mainLin(e *Env) {
	st := &linState{by: map[string][]lop{}, keys: map[string]bool{}}
	e.X = st
	for k := 0; k < int(e.K("keys")); k++ {
		st.keys[KeyOf(mk(0, k, 0, 3))] = true
	}
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(30))
		e.CreateAll(c, 1, 1)
		for i := 0; i < int(e.K("fill")); i++ {
			d := mk(0, 1000+i, 1000000+i, 3)
			st.keys[KeyOf(d)] = true
			inv := simrt.Now()
			err := c.Insert(e.Nodes[0], dsName(0), d, &pb.InsertConfig{}, Sec(60))
			st.add(KeyOf(d), lop{kind: 'w', val: ValOf(d), inv: inv, ret: simrt.Now(), open: err != nil, who: "fill"})
		}
	})
	e.WaitAll(Sec(300))
	base := Ms(e.K("start"))
	if base < simrt.Now() {
		base = simrt.Now()
	}
	e.InjectFaults(base)
	e.RunOps(base, Sec(3000))
	e.WaitFaults()
	simrt.Sleep(Sec(3))
	e.Go(c, func() {
		inv := simrt.Now()
		l, err := e.StreamRetry(c, e.Nodes[0], dsName(0), Sec(100))
		if err == nil {
			e.reads(st, linListing(l), inv, simrt.Now(), "final")
		}
	})
	e.WaitAll(Sec(300))
	e.checkLin(st)
}

func init() {
	Register(&Scenario{Name: "lin", Gen: genLin, Main: mainLin, Do: doLin})
	AddProp(&Prop{ID: "C05", Scenarios: []string{"lin", "lin", "storm"}, Bounds: "one node, up to 6 contended keys plus up to 150 others, up to 90 operations by 2-5 clients or threads; histories of more than 120 operations on one key are not decided"})
}

package h

import (
	"fmt"
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/sannoy"
	"verisim/simrt"
)

// C16: approximate searches against index rebuilds, inserts, expiry, dropped
// datasets and shutdown. The C++ index runs for real behind a guard that turns
// a use after free into a crash of the node.

type annIns struct {
	d        *pb.Datum
	key      string
	inv, ack time.Duration
	acked    bool
	ttl      int64
	next     *annIns // acknowledged overwrite
}

type annState struct {
	ins    [2][]*annIns
	last   map[string]*annIns
	mixed  bool
	term   bool
	files  int
	answer int
}

const (
	annRefresh = 100 // s until a new or overwritten entry is in the index
	annPeriod  = 720 // s until an expired entry is out of it
)

func genAnnoy(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 1, 1, 1, 2, 3)
	p.Clients = r.Pick(1, 2, 3, 4)
	dim := r.Pick(2, 2, 3, 8, 2, 2, 3, 8, 64)
	p.Set("dim", int64(dim))
	setDS(p, 0, 100000, 400, true, 0, false)
	setDS(p, 1, 100000, 400, true, 0, false)
	CalmSched(p, 20000)
	p.Set("annoy_us", int64(r.Pick(0, 300, 5000, 50000)))
	if r.Bool(0.25) {
		p.Set("mixed", 1)
	}
	nkeys := r.Pick(3, 10, 30, 60)
	if r.Bool(0.06) {
		nkeys = r.Pick(200, 500)
		p.Sched.StepNS = 100
		if p.Nodes > 2 {
			p.Nodes = 2
		}
	}
	at := int64(0)
	span := int64(r.Pick(100, 200, 400, 900, 2000)) * 1000
	n := r.Pick(10, 30, 60, 100)
	ins := func(at int64, k, ds int) {
		op := Op{At: at, C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "ins", Key: k, Val: len(p.Ops) + 1, DS: ds}
		if k%4 == 3 || ds == 1 {
			op.TTL = int64(r.Pick(5, 20, 40, 90, 200))
		}
		p.Ops = append(p.Ops, op)
	}
	used := 0
	bulk := r.Pick(0, nkeys/2, nkeys)
	for ; used < bulk; used++ {
		ins(at, used, 0)
	}
	for i := 0; i < n; i++ {
		at = r.Range(0, span)
		if r.Bool(0.3) { // close to the rebuild of the index
			at = at/60000*60000 + r.Range(-1500, 12000)
			if at < 0 {
				at = 0
			}
		}
		if r.Bool(0.35) {
			k := used
			if p.Nodes == 1 && r.Bool(0.4) && used > 0 {
				k = r.Intn(used)
				if k%4 == 3 { // lifetimes are not mixed
					k--
				}
			} else {
				used++
			}
			ds := r.Pick(0, 0, 0, 1)
			if ds == 1 {
				k = 10000 + i
			}
			ins(at, k, ds)
			continue
		}
		q := GenQuery(r, nkeys, dim, 1, 3, 10, 100, 1000)
		q.Func = pickStr(r, "AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance")
		q.Higher = q.Func != "AnnoyVectorDistance"
		q.Ctx, q.Prio, q.GroupLimit = nil, false, 0
		if r.Bool(0.4) { // everything
			q.Limit, q.ResultLimit = 100000, 0
		}
		if r.Bool(0.85) {
			q.Dim = dim
		}
		op := Op{At: at, C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "q", DS: r.Pick(0, 0, 0, 1)}
		q.pack(&op)
		p.Ops = append(p.Ops, op)
		if r.Bool(0.3) { // when the next index is being built
			op.Kind = "race"
			op.A = append([]int64{r.Range(1, 25)}, op.A...)
			p.Ops[len(p.Ops)-1] = op
		} else if r.Bool(0.3) { // a burst
			for j := 0; j < r.Intn(6); j++ {
				o := op
				o.C = r.Intn(p.Clients)
				o.At += r.Range(0, 30)
				p.Ops = append(p.Ops, o)
			}
		}
	}
	sortOps(p)
	if r.Bool(0.3) {
		p.Set("term", 1)
		p.Set("term_at", r.Range(span/2, span))
	}
	if r.Bool(0.2) {
		GenFaults(r, p, r.Pick(1, 3), 0, span, "diskfail", "diskfull", "diskslow")
	}
}

func annVec(e *Env, op *Op) *pb.Datum {
	dim := int(e.K("dim"))
	if e.K("mixed") == 1 && op.Key%5 == 2 {
		dim++
	}
	return mkL(op.DS, op.Key, op.Val, dim)
}

func doAnnoy(e *Env, c *Client, op *Op) {
	st := e.X.(*annState)
	n := e.node(op.N)
	if op.Kind == "ins" {
		x := &annIns{d: annVec(e, op), inv: simrt.Now(), ttl: op.TTL}
		x.key = KeyOf(x.d)
		st.ins[op.DS] = append(st.ins[op.DS], x)
		err := c.Insert(n, dsName(op.DS), x.d, &pb.InsertConfig{TTL: uint64(op.TTL), Count: 1}, Sec(30))
		if err == nil {
			x.acked, x.ack = true, simrt.Now()
			if y := st.last[x.key]; y != nil && y.ack < x.inv {
				y.next = x
			}
			st.last[x.key] = x
		}
		return
	}
	if op.Kind == "race" {
		o := *op
		o.Kind, o.A = "q", op.A[1:]
		old := n.annFiles()
		for t := 0; t < 3000; t++ {
			if l := n.annFiles(); len(l) > 0 && (len(old) == 0 || l[len(l)-1] != old[len(old)-1]) {
				e.Checked("during-rebuild")
				break
			}
			simrt.Sleep(Ms(5))
		}
		for k := int64(0); k < op.A[0] && len(e.Viol) == 0; k++ {
			doAnnoy(e, c, &o)
		}
		return
	}
	q := unpackQuery(op)
	inv := simrt.Now()
	got, err := c.Search(n, q.Request(dsName(op.DS), 20000), Sec(60))
	ret := simrt.Now()
	if err != nil {
		// a dataset may not exist (any more); a terminating node may refuse
		return
	}
	e.Checked("answered")
	who := fmt.Sprintf("search %v of %s at node%d at %v", q, dsName(op.DS), op.N, inv)
	if len(got) > q.m() {
		e.Fail("too-many", "%s: %d results", who, len(got))
		return
	}
	seen := map[string]bool{}
	for i, g := range got {
		k := KeyOf(g.Datum)
		if seen[k] {
			e.Fail("duplicate", "%s lists %s twice", who, DatumStr(g.Datum))
			return
		}
		seen[k] = true
		var x *annIns
		for _, y := range st.ins[op.DS] {
			if y.key == k && ValOf(y.d) == ValOf(g.Datum) {
				x = y
			}
		}
		if x == nil {
			e.Fail("foreign", "%s returned %s, which was never inserted there", who, DatumStr(g.Datum))
			return
		}
		if x.ttl > 0 && x.acked && inv > x.ack+Sec(float64(x.ttl)+annPeriod) {
			e.Fail("expired", "%s returned %s, which expired %v ago", who, DatumStr(g.Datum), inv-x.ack-Sec(float64(x.ttl)))
			return
		}
		if x.next != nil && inv > x.next.ack+Sec(annRefresh) && len(e.Nodes) == 1 {
			e.Fail("stale", "%s returned %s, which was overwritten %v ago", who, DatumStr(g.Datum), inv-x.next.ack)
			return
		}
		if !q.passes(g.Datum) {
			e.Fail("filter", "%s returned %s, which does not pass the filters", who, DatumStr(g.Datum))
			return
		}
		ok := false
		best := 0.0
		for j, v := range q.Vecs {
			s := refScore(q.Func, g.Datum.Key.Feature, qvec(v, q.Dim))
			ok = ok || abs(s-g.Score) <= scoreEps(q.Func, s)
			if j == 0 || better(s, best, 0, q.Higher) {
				best = s
			}
		}
		if !ok {
			e.Fail("score", "%s returned %s with score %v, expected %v", who, DatumStr(g.Datum), g.Score, best)
			return
		}
		if i > 0 && better(g.Score, got[i-1].Score, 1e-9, q.Higher) {
			e.Fail("order", "%s is not sorted", who)
			return
		}
	}
	st.answer++
	if st.term || q.Limit < 100000 || ret-inv > Sec(9) {
		return
	}
	fresh := Sec(annRefresh)
	if len(e.Nodes) > 1 {
		fresh = Sec(240) // datasets of peers are found out once a minute
	}
	total, miss := 0, 0
	for _, x := range st.ins[op.DS] {
		if !x.acked || inv < x.ack+fresh || !q.passes(x.d) {
			continue
		}
		if st.mixed && len(x.d.Key.Feature) != q.Dim {
			continue // an index has vectors of one length
		}
		if x.ttl > 0 && ret > x.ack+Sec(float64(x.ttl)-2) {
			continue
		}
		over := false // the value may not pass the filter any more
		for _, y := range st.ins[op.DS] {
			over = over || y != x && y.key == x.key
		}
		if over && (q.Filter > 0 || q.GFilter > 0) {
			continue
		}
		total++
		if !seen[x.key] {
			if miss == 0 {
				e.Fail("missing", "%s lacks %s, stored %v ago (%d results)", who, DatumStr(x.d), inv-x.ack, len(got))
			}
			miss++
		}
	}
	e.Checked("complete")
	e.Sample("%s: %d results, %d of them required", who, len(got), total)
}

// annFiles lists the index files of a node's host.
func (n *NodeH) annFiles() (l []string) {
	for _, f := range n.Host.FS.List("/tmp/") {
		if strings.Contains(f, "annoy") {
			l = append(l, f)
		}
	}
	return
}

func mainAnnoy(e *Env) {
	st := &annState{last: map[string]*annIns{}, mixed: e.K("mixed") == 1}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, 2, 1)
		for _, n := range e.Nodes { // the first dataset is never empty
			op := &Op{Key: 5000 + 5*n.I, Val: 1}
			x := &annIns{d: annVec(e, op), inv: simrt.Now()}
			x.key = KeyOf(x.d)
			if c.Insert(n, dsName(0), x.d, &pb.InsertConfig{Count: 1}, Sec(30)) == nil {
				x.acked, x.ack = true, simrt.Now()
			}
			st.ins[0] = append(st.ins[0], x)
		}
	})
	e.WaitAll(Sec(200))
	base := simrt.Now()
	e.InjectFaults(base)
	if e.K("term") == 1 {
		e.W.After(Ms(e.K("term_at")), func() {
			st.term = true
			e.Nodes[0].Term()
		})
	}
	e.RunOps(base, Sec(9000))
	e.WaitFaults()
	if len(e.P.Faults) > 0 {
		return
	}
	// files of replaced indexes and of dropped datasets are gone
	simrt.Sleep(Sec(900))
	worst := ""
	for try := 0; try < 12; try++ {
		worst = ""
		for _, n := range e.Nodes {
			if l := n.annFiles(); len(l) > 2 || n.Up() && !st.term && len(e.Nodes) == 1 && len(l) > 1 {
				worst = fmt.Sprintf("node%d has the index files %v for one dataset", n.I, l)
			}
			if k := sannoy.Live(n.Proc); n.Up() && k > 3 {
				worst = fmt.Sprintf("node%d has %d indexes in memory for two datasets", n.I, k)
			}
		}
		if worst == "" {
			break
		}
		simrt.Sleep(Sec(7.3))
	}
	e.Checked("files")
	if worst != "" {
		e.Fail("files", "%v after the last request %s", Sec(980), worst)
	}
}

func init() {
	Register(&Scenario{Name: "annoy", Gen: genAnnoy, Main: mainAnnoy, Do: doAnnoy})
	AddProp(&Prop{ID: "C16", Scenarios: []string{"annoy", "annoy", "annoy", "annchurn"}, Bounds: "1-3 nodes, 2 datasets (one of them expires and is dropped) or 3-12 that expire while their index is built, up to 500 entries of 2-65 dimensions, up to 100 inserts and approximate searches over 100-2000 s, disk faults, termination; new entries are in the index within 100 s, expired ones out within 720 s"})
}

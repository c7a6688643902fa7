package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C06: entries live exactly as long as their time-to-live.

type ttlIns struct {
	key, val string
	ttl      uint64
	inv, ret time.Duration
	ok       bool
}

type ttlState struct {
	by map[string][]*ttlIns // per key, in order; one client per key
}

func genTTL(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 3
	p.Set("dim", 3)
	setDS(p, 0, 100000, 400, r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.5))
	p.Set("skew0", r.Range(0, 999))
	CalmSched(p, int64(r.Pick(2000, 50000)))
	keys := 2 + r.Intn(12)
	span := r.Range(20, 150) * 1000
	n := r.Pick(8, 25, 60)
	for i := 0; i < n; i++ {
		k := r.Intn(keys)
		at := r.Range(0, span)
		var ttl int64
		switch r.Intn(10) {
		case 0:
			ttl = 0
		case 1:
			ttl = r.Range(60, 100000)
		case 2:
			if r.Bool(0.5) {
				ttl = -r.Range(1, 1000) // huge as unsigned
			} else {
				ttl = 1<<62 + r.Range(0, 1<<40)
			}
		default:
			ttl = r.Range(1, 25)
		}
		v := r.Intn(3) // the same value is inserted again quite often
		op := Op{At: at, C: k % 2, Kind: "ins", Key: k, Val: v, TTL: ttl}
		p.Ops = append(p.Ops, op)
		// reads around the expiry
		if ttl > 0 && ttl < 1000 {
			for j := 0; j < 2; j++ {
				p.Ops = append(p.Ops, Op{At: at + ttl*1000 + r.Range(-2500, 1500), C: 2, Kind: pickStr(r, "stream", "search")})
			}
			if r.Bool(0.4) { // again around the expiry
				p.Ops = append(p.Ops, Op{At: at + ttl*1000 + r.Range(-1500, 1500), C: k % 2, Kind: "ins", Key: k, Val: r.Intn(3), TTL: int64(r.Pick(0, 1, 5, 12, 30))})
			}
		}
		if r.Bool(0.3) {
			p.Ops = append(p.Ops, Op{At: r.Range(0, span+30000), C: 2, Kind: pickStr(r, "stream", "search")})
		}
	}
	sortOps(p)
	if r.Bool(0.25) {
		GenFaults(r, p, 1+r.Intn(2), 0, span, "pause", "slow", "loss")
		for i := range p.Faults {
			f := &p.Faults[i]
			if f.Dur > 8000 {
				f.Dur = 8000
			}
			if f.Kind == "slow" && f.Arg > 500000 {
				f.Arg = 500000
			}
		}
	}
}

// must says whether a read in [inv,ret] has to / must not return the key.
// Returns want: 1 must be present with val, -1 must be absent, 0 unknown.
func (st *ttlState) must(k string, inv, ret time.Duration) (want int, vals map[string]bool, in *ttlIns) {
	vals = map[string]bool{}
	l := st.by[k]
	var last *ttlIns
	overlap := false
	for _, x := range l {
		if x.inv > ret {
			continue
		}
		vals[x.val] = true
		if x.ret != 0 && x.ret < inv && x.ok {
			last = x
			overlap = false
		} else {
			overlap = true // still running, or failed with unknown effect
		}
	}
	if last == nil {
		if len(vals) == 0 {
			return -1, vals, nil
		}
		return 0, vals, nil
	}
	for _, x := range l {
		if x != last && x.inv <= ret && x.ret > last.inv {
			overlap = true // inserted by two clients at the same time
		}
	}
	if overlap {
		return 0, vals, last
	}
	vals = map[string]bool{last.val: true}
	if last.ttl == 0 {
		return 1, vals, last
	}
	if last.ttl > 1<<40 {
		return 1, vals, last // centuries
	}
	// an equal value whose lifetime differs by less than ten seconds may be ignored
	slack := time.Duration(0)
	for i, x := range l {
		if x != last || i == 0 || l[i-1].val != last.val {
			continue
		}
		slack = 10 * time.Second
		// unless that one is expired for certain
		if y := l[i-1]; y.ok && y.ret < x.inv && y.ttl != 0 && y.ttl < 1<<40 {
			end := y.ret + time.Duration(y.ttl)*time.Second
			if i > 1 {
				end += 10 * time.Second
			}
			if end < x.inv {
				slack = 0
			}
		}
	}
	ttl := time.Duration(last.ttl) * time.Second
	if ret < last.inv+ttl-time.Second-slack {
		return 1, vals, last
	}
	if inv >= last.ret+ttl+slack {
		return -1, vals, last
	}
	return 0, vals, last
}

func (e *Env) checkTTL(st *ttlState, got map[string]string, inv, ret time.Duration, who string) {
	for k := range st.by {
		want, vals, in := st.must(k, inv, ret)
		v, present := got[k]
		switch {
		case want == 1 && !present:
			e.Fail("expired-early", "%s at %v does not return %s, inserted at [%v,%v] with ttl %d", who, inv, k, in.inv, in.ret, in.ttl)
		case want == -1 && present:
			e.Fail("outlived", "%s at %v returns %s=%s, inserted at [%v,%v] with ttl %d", who, inv, k, v, in.inv, in.ret, in.ttl)
		case present && !vals[v]:
			e.Fail("wrong-value", "%s at %v returns %s=%s", who, inv, k, v)
		}
		switch want {
		case 1:
			e.Checked("must-be-visible")
		case -1:
			e.Checked("must-be-gone")
		}
	}
}

// nodeNow is the time on the clock of the only node.
func nodeNow(e *Env) time.Duration {
	return simrt.Now() + e.Nodes[0].Proc.Skew() - time.Duration(e.K("skew0"))*time.Millisecond
}

func doTTL(e *Env, c *Client, op *Op) {
	st := e.X.(*ttlState)
	n := e.Nodes[0]
	inv := nodeNow(e)
	switch op.Kind {
	case "ins":
		d := mk(0, op.Key, op.Val, 3)
		in := &ttlIns{key: KeyOf(d), val: ValOf(d), ttl: uint64(op.TTL), inv: inv}
		st.by[in.key] = append(st.by[in.key], in)
		err := c.Insert(n, dsName(0), d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(60))
		in.ok, in.ret = err == nil, nodeNow(e)
	case "jump":
		n.Proc.ClockJump(time.Duration(op.TTL) * time.Second)
	case "stream":
		l, err := c.Stream(n, dsName(0), Sec(30), 0, 0)
		if err == nil {
			e.checkTTL(st, linListing(l), inv, nodeNow(e), "stream")
		}
	case "search":
		l, err := c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 3)}, Config: &pb.SearchConfig{DataName: dsName(0), Limit: 10000, Timeout: 60000, ScoreFuncName: "VectorDistance"}}, Sec(70))
		if err == nil && nodeNow(e)-inv < Sec(40) {
			m := map[string]string{}
			for _, s := range l {
				m[KeyOf(s.Datum)] = ValOf(s.Datum)
			}
			e.checkTTL(st, m, inv, nodeNow(e), "search")
		}
	}
}

func mainTTL(e *Env) {
	st := &ttlState{by: map[string][]*ttlIns{}}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() { e.WaitServing(c, Sec(30)); e.CreateAll(c, 1, 1) })
	e.WaitAll(Sec(300))
	base := simrt.Now()
	e.InjectFaults(base)
	e.RunOps(base, Sec(3000))
	e.WaitFaults()
	simrt.Sleep(Sec(40))
	e.Go(c, func() {
		inv := simrt.Now()
		l, err := e.StreamRetry(c, e.Nodes[0], dsName(0), Sec(100))
		if err == nil {
			e.checkTTL(st, linListing(l), inv, simrt.Now(), "final stream")
		}
	})
	e.WaitAll(Sec(300))
}

// ---- copies in a cluster -------------------------------------------------------------------

func genTTLCopies(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = r.Pick(2, 2, 3, 4), 2
	p.Set("dim", 3)
	setDS(p, 0, int64(r.Pick(20, 60, 1000)), int64(r.Pick(0, 0, 200, 400)), r.Bool(0.3), int64(r.Intn(3)), r.Bool(0.7))
	for i := 0; i < p.Nodes; i++ {
		p.Set(fmt.Sprintf("skew%d", i), r.Range(-2000, 2000))
	}
	CalmSched(p, 20000)
	n := r.Pick(10, 30, 60)
	hot := r.Intn(p.Nodes)
	for i := 0; i < n; i++ {
		nd := hot
		if r.Bool(0.2) {
			nd = r.Intn(p.Nodes)
		}
		ttl := r.Range(12, 400)
		if r.Bool(0.15) {
			ttl = 0
		} else if r.Bool(0.1) {
			ttl = 1<<62 + r.Range(0, 1000)
		}
		p.Ops = append(p.Ops, Op{At: r.Range(0, 240000), C: 0, N: nd, Kind: "ins", Key: i, Val: 1, TTL: ttl})
	}
	for i := 0; i < 40; i++ {
		p.Ops = append(p.Ops, Op{At: r.Range(0, 700000), C: 1, N: r.Intn(p.Nodes), Kind: pickStr(r, "stream", "stream", "search")})
	}
	sortOps(p)
	if r.Bool(0.4) {
		GenFaults(r, p, 1+r.Intn(4), 0, 300000, "slow", "loss", "rstp", "reset")
		for i := range p.Faults {
			if p.Faults[i].Kind == "slow" && p.Faults[i].Arg > 1000000 {
				p.Faults[i].Arg = 1000000
			}
			if p.Faults[i].Kind == "loss" && p.Faults[i].Arg > 50 {
				p.Faults[i].Arg = 50
			}
		}
	} else if r.Bool(0.4) { // a node hands its entries over
		setDS(p, 0, 1000, int64(r.Pick(0, 400)), r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.5))
		p.Faults = append(p.Faults, Fault{At: r.Range(245000, 400000), Kind: "term", A: hot})
	}
}

func doTTLCopies(e *Env, c *Client, op *Op) {
	st := e.X.(*ttlState)
	n := e.node(op.N)
	inv := simrt.Now()
	look := func(got map[string]string, who string) {
		for k, v := range got {
			l := st.by[k]
			if len(l) == 0 {
				e.Fail("foreign-key", "%s returns %s", who, k)
				continue
			}
			in := l[0]
			if v != in.val {
				e.Fail("wrong-value", "%s returns %s=%s, written was %s", who, k, v, in.val)
			}
			if in.ttl == 0 || in.ttl > 1<<40 || in.ret == 0 {
				continue
			}
			// every transfer adds the time it takes, and up to a second by rounding
			late := 30 * time.Second
			if len(e.P.Faults) > 0 && e.P.Faults[0].Kind != "term" {
				late = 100 * time.Second
			}
			if inv > in.ret+time.Duration(in.ttl)*time.Second+late {
				e.Fail("copy-outlived", "node%d still returns %s at %v, inserted at node with ttl %d at [%v,%v]", op.N, k, inv, in.ttl, in.inv, in.ret)
			} else if inv > in.ret {
				e.Checked("copy-lifetime")
			}
		}
		e.Checked("read")
	}
	switch op.Kind {
	case "ins":
		d := mk(0, op.Key, op.Val, 3)
		in := &ttlIns{key: KeyOf(d), val: ValOf(d), ttl: uint64(op.TTL), inv: inv}
		st.by[in.key] = append(st.by[in.key], in)
		err := c.Insert(n, dsName(0), d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(60))
		in.ok, in.ret = err == nil, simrt.Now()
	case "stream":
		l, err := c.Stream(n, dsName(0), Sec(30), 0, 0)
		if err == nil {
			look(linListing(l), "stream")
		}
	case "search":
		l, err := c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 3)}, Config: &pb.SearchConfig{DataName: dsName(0), Limit: 10000, Timeout: 20000, ScoreFuncName: "VectorDistance"}}, Sec(30))
		if err == nil {
			m := map[string]string{}
			for _, s := range l {
				m[KeyOf(s.Datum)] = ValOf(s.Datum)
			}
			look(m, "search")
		}
	case "union":
	}
}

func mainTTLCopies(e *Env) {
	st := &ttlState{by: map[string][]*ttlIns{}}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(30))
		e.CreateAll(c, 1, 1)
		if len(e.P.Faults) == 0 || e.P.Faults[0].Kind != "term" {
			return
		}
		for _, n := range e.Nodes { // nodes know peers of a dataset only if it is not empty
			d := mk(0, 9000+2*n.I, 1, 3)
			in := &ttlIns{key: KeyOf(d), val: ValOf(d), inv: simrt.Now()}
			st.by[in.key] = append(st.by[in.key], in)
			err := c.Insert(n, dsName(0), d, &pb.InsertConfig{Count: 1}, Sec(30))
			in.ok, in.ret = err == nil, simrt.Now()
		}
	})
	e.WaitAll(Sec(300))
	base := simrt.Now() + Sec(70)
	e.InjectFaults(base)
	SleepUntil(base)
	e.RunOps(base, Sec(3000))
	e.WaitFaults()
	// what still lives, lives somewhere
	e.Go(c, func() {
		inv := simrt.Now()
		var missing []string
		for round := 0; round < 5; round++ {
			all, _, err := e.Union(c, dsName(0), Sec(100))
			if err != nil {
				e.Fail("unreadable", "%v", err)
				return
			}
			missing = missing[:0]
			ret := simrt.Now()
			for k, l := range st.by {
				in := l[0]
				if !in.ok {
					continue
				}
				forever := in.ttl == 0 || in.ttl > 1<<40
				if forever || ret < in.inv+time.Duration(in.ttl)*time.Second-10*time.Second {
					e.Checked("must-be-somewhere")
					if len(all[k]) == 0 {
						missing = append(missing, fmt.Sprintf("%s ttl=%d inserted at %v", k, in.ttl, in.inv))
					}
				}
			}
			if len(missing) == 0 {
				break
			}
			simrt.Sleep(Sec(5))
		}
		if len(missing) > 0 {
			e.Fail("expired-early", "at %v no node holds %s", inv, missing[0])
		}
	})
	e.WaitAll(Sec(3000))
}

func init() {
	Register(&Scenario{Name: "ttl", Gen: genTTL, Main: mainTTL, Do: doTTL})
	Register(&Scenario{Name: "ttlcopies", Gen: genTTLCopies, Main: mainTTLCopies, Do: doTTLCopies})
	AddProp(&Prop{ID: "C06", Scenarios: append(repeat("ttl", "ttlcopies", "storm", 10), "ttllong", "ttljump", "ttljump"), Bounds: "one node: up to 14 keys, 100 inserts, lifetimes 1 s .. 2^64-1, clocks set forward by up to 40 years; clusters of 2-4 nodes: up to 60 keys, lifetimes 12-400 s or unlimited, skew up to 2 s, no partitions, shutdown of a node"})
}

package h

import (
	"fmt"
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C04: searches answer within their timeout and keep the results they can get.

type timeoutState struct {
	per   [][]*pb.Datum // contents of each node
	bad   map[int]bool  // nodes that some fault of the plan concerns
	burst int
}

func genTimeout(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 2, 3, 3, 4, 5, 6)
	p.Clients = r.Pick(1, 4, 12, 40)
	dim := r.Pick(2, 3)
	p.Set("dim", int64(dim))
	setDS(p, 0, 100000, 400, true, 0, false)
	CalmSched(p, 1500)
	p.Sched.StepNS = 10
	n := r.Pick(2, 6, 20)
	if r.Bool(0.2) {
		n = r.Pick(120, 260) // more results than channels hold
		if p.Nodes > 3 {
			p.Nodes = 3
		}
		p.Sched.StallP, p.Sched.HotSites, p.Sched.Policy = 0, 0, "random"
		if p.Sched.Quantum < 10 {
			p.Sched.Quantum = 10
		}
		if p.Clients > 12 {
			p.Clients = 12
		}
	}
	p.Set("per", int64(n))
	if n*p.Nodes > 20 && p.Sched.StallP > 0 { // every result passes many places that may be delayed
		CalmSched(p, 150)
	}
	p.Set("fillers", 0)
	// some peers hang, are cut off or are slow, before the queries
	for i := 0; i < p.Nodes; i++ {
		if !r.Bool(0.5) {
			continue
		}
		f := Fault{At: r.Range(0, 5000), A: i, Dur: 400000}
		switch r.Intn(5) {
		case 0, 1:
			f.Kind = "pause"
		case 2:
			f.Kind = "isolate"
		case 3:
			f.Kind = "slow"
			f.Arg = int64(r.Pick(200000, 1500000, 4000000, 20000000))
		case 4:
			f.Kind = "part"
			f.B = (i + 1 + r.Intn(p.Nodes)) % p.Nodes
			if f.B == i {
				f.Kind = "pause"
			}
		}
		p.Faults = append(p.Faults, f)
	}
	q := r.Pick(3, 10, 30)
	at := int64(5000)
	if r.Bool(0.3) {
		at = r.Range(5000, 200000)
	}
	burst := r.Bool(0.6)
	for i := 0; i < q; i++ {
		qu := GenQuery(r, n*p.Nodes, dim, 1, 5, 10, 100, 300, 1000)
		qu.Ctx, qu.Prio = nil, false
		if len(qu.Vecs) > 2 {
			qu.Vecs = qu.Vecs[:2]
		}
		T := int64(r.Pick(300, 300, 500, 1000, 3000, 8000, 15000))
		if n > 100 && T < 8000 {
			T = 8000 // the simulated processor is not that fast
		} else if p.Clients >= 12 && T < 1000 {
			T = 1000
		}
		op := Op{At: at, C: i % p.Clients, N: r.Intn(p.Nodes), Kind: "q", TTL: T}
		qu.pack(&op)
		p.Ops = append(p.Ops, op)
		if !burst || r.Bool(0.1) {
			at += r.Range(0, 2000)
		}
	}
}

func doTimeout(e *Env, c *Client, op *Op) {
	st := e.X.(*timeoutState)
	n := e.node(op.N)
	if st.bad[op.N] {
		return // the contacted node itself is hung or cannot be reached
	}
	q := unpackQuery(op)
	T := Ms(op.TTL)
	t0 := simrt.Now()
	st.burst++
	got, err := c.Search(n, q.Request(dsName(0), uint64(op.TTL)), T+Sec(60))
	el := simrt.Now() - t0
	if err != nil {
		e.Fail("search-error", "search %v with timeout %v at healthy node%d: %v", q, T, op.N, err)
		return
	}
	e.Checked("returned")
	if el > T+Ms(250) {
		e.Fail("late", "search %v with timeout %v at node%d returned after %v", q, T, op.N, el)
		return
	}
	// must: everything the coordinator and the healthy peers hold; may: all
	var must, may []*pb.Datum
	for i, l := range st.per {
		may = append(may, l...)
		if !st.bad[i] {
			must = append(must, l...)
		}
	}
	if len(st.bad) > 0 {
		e.Checked("with-hung-peers")
	}
	known := map[string]bool{}
	for _, d := range may {
		known[KeyOf(d)] = true
	}
	in := map[string]float64{}
	for _, g := range got {
		if !known[KeyOf(g.Datum)] {
			e.Fail("foreign", "search returned %s which no node stores", DatumStr(g.Datum))
		}
		in[KeyOf(g.Datum)] = g.Score
	}
	cand, ok := q.Expect(must)
	if !ok {
		return
	}
	rank(cand, q.Higher)
	m := q.m()
	if len(got) > m {
		e.Fail("too-many", "%d results for limit %d", len(got), m)
	}
	// what is better than the worst returned entry, or everything if the answer
	// is not full, has to be there
	for _, s := range cand {
		if _, ok := in[s.key]; ok {
			continue
		}
		if len(got) < m || (len(got) > 0 && better(s.score, got[len(got)-1].Score, 2*scoreEps(q.Func, s.score), q.Higher)) {
			e.Fail("lost-results", "search %v with timeout %v at node%d lacks %s of healthy nodes (%d results, hung: %v)", q, T, op.N, DatumStr(s.d), len(got), intKeys(st.bad))
			return
		}
	}
	e.Checked("complete")
	e.Sample("T=%v answered in %v with %d results, hung nodes %v of %d", T, el, len(got), intKeys(st.bad), len(e.Nodes))
}

func intKeys(m map[int]bool) (l []int) {
	for i := 0; i < 100; i++ {
		if m[i] {
			l = append(l, i)
		}
	}
	return
}

// busy counts the node's tasks that are not janitors of caches (those end with
// the garbage collector, which does not exist in the simulation).
func (n *NodeH) busy() int {
	k := 0
	for _, s := range n.Proc.TaskDump() {
		if strings.Contains(s, "go-cache") {
			continue
		}
		var c int
		fmt.Sscanf(s[strings.LastIndex(s, " x")+2:], "%d", &c)
		k += c
	}
	return k
}

func (n *NodeH) minBusy(within time.Duration) int {
	best := 1 << 30
	for t := time.Duration(0); t < within; t += within / 20 {
		if b := n.busy(); b < best {
			best = b
		}
		simrt.Sleep(within / 20)
	}
	return best
}

func mainTimeout(e *Env) {
	st := &timeoutState{bad: map[int]bool{}}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	dim := int(e.K("dim"))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, 1, 1)
		for i, n := range e.Nodes {
			for k := 0; k < int(e.K("per")); k++ {
				c.Insert(n, dsName(0), mkL(0, k*len(e.Nodes)+i, 1, dim), &pb.InsertConfig{Count: 1}, Sec(10))
			}
		}
	})
	e.WaitAll(Sec(300))
	simrt.Sleep(Sec(200))
	e.Go(c, func() {
		for _, n := range e.Nodes {
			l, err := e.StreamRetry(c, n, dsName(0), Sec(30))
			if err != nil {
				e.Fail("unreadable", "%v", err)
			}
			st.per = append(st.per, l)
		}
	})
	e.WaitAll(Sec(300))
	for i := range e.P.Faults {
		f := &e.P.Faults[i]
		st.bad[f.A] = true
		if f.Kind == "part" {
			st.bad[f.B] = true
		}
	}
	before := make([]int, len(e.Nodes))
	for i, n := range e.Nodes {
		before[i] = n.minBusy(Sec(2))
	}
	base := simrt.Now()
	e.InjectFaults(base)
	e.RunOps(base, Sec(3000))
	e.Heal()
	if st.burst < 3 {
		return
	}
	// nothing is left behind by the searches
	simrt.Sleep(Sec(45))
	for i, n := range e.Nodes {
		if !n.Up() {
			continue
		}
		after := 1 << 30
		for try := 0; try < 6; try++ {
			if b := n.minBusy(Sec(20)); b < after {
				after = b
			}
			if after <= before[i]+2 {
				break
			}
		}
		e.Checked("no-leak")
		if after > before[i]+2 {
			e.Fail("leak", "node%d keeps %d tasks after %d searches, before it had %d: %v", i, after, st.burst, before[i], n.Proc.TaskDump())
		}
	}
}

func init() {
	Register(&Scenario{Name: "timeout", Gen: genTimeout, Main: mainTimeout, Do: doTimeout})
	AddProp(&Prop{ID: "C04", Scenarios: []string{"timeout"}, Bounds: "1-6 nodes of which any number is paused, cut off or slow (0.2-20 s), timeouts 300 ms - 15 s, up to 30 concurrent searches, up to 1500 entries; 250 ms scheduling allowance"})
}

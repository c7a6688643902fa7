package h

import (
	"fmt"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C03: search returns exactly the best matching entries of the whole cluster.

type searchState struct {
	all  map[string]*pb.Datum
	list []*pb.Datum
	cont bool
	vals map[string]bool // written key=value
}

func genSearch(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 1, 2, 2, 3, 3, 4, 5, 7)
	p.Clients = 1 + r.Intn(3)
	dim := r.Pick(1, 2, 3, 8, 1, 2, 3, 8, 1, 2, 3, 8, 64)
	p.Set("dim", int64(dim))
	rep := r.Pick(0, 0, 1, 2)
	if rep > p.Nodes {
		rep = p.Nodes
	}
	target, notarget := r.Pick(50, 1000, 100000), r.Bool(0.6)
	util := r.Pick(0, 400)
	if p.Nodes > 1 && !notarget { // no entry moves while a search looks for it
		target, util = 100000, 400
	}
	setDS(p, 0, int64(target), int64(util), notarget, int64(rep), rep > 0)
	CalmSched(p, 3000)
	n := r.Pick(1, 3, 10, 40, 40, 150)
	if r.Bool(0.08) {
		n = r.Pick(400, 1300)
		if p.Nodes > 3 {
			p.Nodes = 3
		}
		p.Sched.StepNS = 100
	}
	p.Set("keys", int64(n))
	single := r.Bool(0.3) // everything on one node
	for i := 0; i < n; i++ {
		nd := r.Intn(p.Nodes)
		if single {
			nd = 0
		}
		cnt := int64(0)
		if r.Bool(0.4) {
			cnt = 1 // not replicated
		}
		p.Ops = append(p.Ops, Op{At: 0, C: i % p.Clients, N: nd, Kind: "ins", Key: i, Val: i % 50, TTL: cnt})
		if r.Bool(0.2) && p.Nodes > 1 { // a copy on another node
			p.Ops = append(p.Ops, Op{At: 0, C: i % p.Clients, N: r.Intn(p.Nodes), Kind: "ins", Key: i, Val: i % 50, TTL: 1})
		}
	}
	if notarget && p.Nodes > 1 && r.Bool(0.3) { // nodes that missed an update have another value
		p.Set("twoval", 1)
		for i := 0; i < n; i++ {
			if r.Bool(0.4) {
				p.Ops = append(p.Ops, Op{At: 0, C: i % p.Clients, N: r.Intn(p.Nodes), Kind: "ins", Key: i, Val: i%50 + 3, TTL: 1})
			}
		}
	}
	if r.Bool(0.12) {
		p.Set("tmo", []int64{1<<63 - 1, 1 << 62, -1, 1 << 44, 1 << 40}[r.Intn(5)])
	}
	q := r.Pick(3, 8, 16)
	if n > 300 {
		q = 3
	}
	at := int64(250000)
	late := p.Nodes > 1 && n <= 40 && r.Bool(0.2) // long enough for peers to be renewed
	for i := 0; i < q; i++ {
		if late {
			at += r.Range(0, 150000)
		}
		qu := GenQuery(r, n, dim, 1, 2, 5, 10, 50, 100, 101, 150, 1000, 3000)
		if r.Bool(0.04) {
			for k := 4 + r.Intn(10); k > 0; k-- {
				qu.Vecs = append(qu.Vecs, r.Range(0, 50))
			}
		}
		if p.Nodes == 1 && len(qu.Ctx) == 0 && qu.ResultLimit == 0 && r.Bool(0.4) {
			qu.GroupLimit = int64(r.Pick(1, 2, 3, 10, 1000))
		}
		if r.Bool(0.04) { // as much as there is
			qu.Limit = 1<<32 - 1
		}
		if qu.GroupLimit == 0 && r.Bool(0.03) {
			qu.ResultLimit = 1<<63 - 1
		}
		if n > 300 && len(qu.Vecs) > 2 {
			qu.Vecs = qu.Vecs[:2]
		}
		if n <= 150 && r.Bool(0.5) {
			at += int64(r.Intn(50)) // concurrent queries
		} else {
			at += r.Range(1000, 30000)
		}
		if p.Get("twoval") == 1 {
			qu.Filter = 0
		}
		op := Op{At: at, C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "q"}
		qu.pack(&op)
		p.Ops = append(p.Ops, op)
	}
}

func doSearch(e *Env, c *Client, op *Op) {
	st := e.X.(*searchState)
	n := e.node(op.N)
	switch op.Kind {
	case "ins":
		d := mkL(0, op.Key, op.Val, int(e.K("dim")))
		st.vals[KeyOf(d)+"="+ValOf(d)] = true
		for try := 0; try < 3; try++ {
			if c.Insert(n, dsName(0), d, &pb.InsertConfig{Count: uint64(op.TTL)}, Sec(30)) == nil {
				break
			}
		}
	case "q":
		if st.list == nil {
			return
		}
		q := unpackQuery(op)
		t0 := simrt.Now()
		const T = 20000
		tmo := uint64(T)
		if v := e.K("tmo"); v != 0 { // a client which does not want one
			tmo = uint64(v)
		}
		got, err := c.Search(n, q.Request(dsName(0), tmo), Sec(40))
		if err != nil {
			e.Fail("search-error", "search %v at node%d in a healthy cluster fails: %v", q, op.N, err)
			return
		}
		if simrt.Now()-t0 > Ms(T/2) {
			e.Checked("slow-skipped")
			return
		}
		q.AnyVal = st.vals
		msg, open := q.Check(got, st.list)
		if open {
			e.Checked("tie-skipped")
			return
		}
		st.cont = true
		e.Checked("exact")
		if len(got) > 0 {
			e.Checked("nonempty")
		}
		if q.GroupLimit > 0 {
			e.Checked("grouped")
		}
		if len(q.Ctx) > 0 {
			e.Checked("rescored")
		}
		if len(q.Vecs) > 1 {
			e.Checked("multi")
		}
		if msg != "" {
			e.Fail("wrong-answer", "search %v at node%d of %d over %d stored entries: %s", q, op.N, len(e.Nodes), len(st.list), msg)
		}
		e.Sample("%v: %d of %d entries from %d nodes", q, len(got), len(st.list), len(e.Nodes))
	}
}

func (e *Env) unionList(c *Client, ds string) (map[string]*pb.Datum, []*pb.Datum, string) {
	m := map[string]*pb.Datum{}
	var l []*pb.Datum
	for i, n := range e.Nodes {
		x, err := e.StreamRetry(c, n, ds, Sec(200))
		if err != nil {
			return nil, nil, fmt.Sprintf("node%d: %v", i, err)
		}
		for _, d := range x {
			if m[KeyOf(d)] == nil {
				m[KeyOf(d)] = d
				l = append(l, d)
			}
		}
	}
	return m, l, ""
}

func mainSearch(e *Env) {
	st := &searchState{vals: map[string]bool{}}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, 1, 1)
		for i, n := range e.Nodes { // every node holds something
			c.Insert(n, dsName(0), mkL(0, 4000+2*i, 0, int(e.K("dim"))), &pb.InsertConfig{Count: 1}, Sec(10))
		}
	})
	e.WaitAll(Sec(300))
	base := simrt.Now()
	// the contents are read shortly before the first query and after the last
	e.W.At(base+Sec(235), func() {
		e.Go(c, func() {
			m, l, msg := e.unionList(c, dsName(0))
			if msg != "" {
				e.Fail("unreadable", "%s", msg)
				return
			}
			st.all, st.list = m, l
		})
	})
	e.RunOps(base, Sec(20000))
	if st.list == nil {
		e.Checked("no-contents")
		return
	}
	e.Go(c, func() {
		m, _, msg := e.unionList(c, dsName(0))
		if msg != "" {
			e.Fail("unreadable", "%s", msg)
			return
		}
		if len(m) != len(st.all) {
			e.Fail("contents-changed", "the quiescent cluster held %d distinct entries, now %d", len(st.all), len(m))
		}
	})
	e.WaitAll(Sec(3000))
}

func init() {
	Register(&Scenario{Name: "search", Gen: genSearch, Main: mainSearch, Do: doSearch})
	AddProp(&Prop{ID: "C03", Scenarios: []string{"search"}, Bounds: "1-7 nodes, 1-1300 keys with arbitrary placement and copies, vectors of 1-8 dimensions, limits 1-3000, up to 5 query vectors and 3 context vectors, 16 queries per run over up to 40 minutes"})
}

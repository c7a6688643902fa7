package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C15: cached answers are isolated from each other and never older than asked
// for. The history of inserts gives the contents at every instant; a cached
// answer must be exact for one of the instants within its cache duration.

type cacheState struct {
	ins   [2][]*cacheIns
	seq   bool
	hits  int
	ready bool
}

type cacheIns struct {
	d        *pb.Datum
	inv, ack time.Duration
	acked    bool
}

func genCache(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 1, 1, 1, 2, 3)
	p.Clients = r.Pick(1, 1, 2, 3, 4)
	dim := r.Pick(1, 2, 3, 8, 1, 2, 3, 8, 64, 128)
	p.Set("dim", int64(dim))
	setDS(p, 0, 100000, 400, true, 0, false)
	setDS(p, 1, 100000, 400, true, 0, false)
	CalmSched(p, 3000)
	nkeys := r.Pick(6, 20, 40)
	at := int64(0)
	if p.Nodes > 1 {
		at = 200000 // the nodes have to know each other's datasets
	}
	ins := func() {
		op := Op{At: at, C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "ins", Key: r.Intn(nkeys), Val: len(p.Ops) + 1, DS: r.Pick(0, 0, 0, 1)}
		if p.Nodes > 1 {
			op.Key = len(p.Ops) // rebalancing may leave copies of overwritten values
		}
		p.Ops = append(p.Ops, op)
	}
	for i := 0; i < r.Pick(0, 3, nkeys); i++ {
		ins()
	}
	cd := int64(r.Pick(1, 2, 5, 30, 100))
	// a few queries that differ from each other in one respect
	base := GenQuery(r, nkeys, dim, 1, 2, 5, 20, 100)
	if len(base.Vecs) > 1 && r.Bool(0.7) {
		base.Vecs = base.Vecs[:1]
	}
	type qc struct {
		q  Query
		cd int64
		ds int
	}
	pool := []qc{{base, cd, 0}}
	for i := 0; i < r.Pick(1, 2, 3, 5); i++ {
		x := pool[r.Intn(len(pool))]
		x.q.Vecs = append([]int64{}, x.q.Vecs...)
		switch r.Intn(12) {
		case 0:
			x.q.Limit = int64(r.Pick(1, 2, 3, 7, 50))
		case 1:
			x.q.ResultLimit = r.Range(0, x.q.Limit+1)
		case 2:
			x.q.Higher = !x.q.Higher
		case 3:
			x.q.Filter = int64(r.Intn(len(filterTab)))
		case 4:
			x.q.GFilter = int64(r.Intn(len(gfilterTab)))
		case 5, 6:
			x.q.Vecs[0] = -r.Range(1, int64(nkeys)+1)
			switch {
			case r.Bool(0.3):
				x.q.Vecs[0] = r.Range(0, 50)
			case r.Bool(0.5): // the same but for one component
				x.q.Vecs[0] = pool[0].q.Vecs[0]
				if v := r.Range(1, int64(dim)+1) << 20; x.q.Vecs[0] < 0 {
					x.q.Vecs[0] -= v
				} else {
					x.q.Vecs[0] += v
				}
			}
		case 7:
			x.q.Func = pickStr(r, "VectorDistance", "QuickVectorDistance", "VectorMultiplication", "CosineSimilarity", "AngularDistance")
		case 8:
			x.cd = int64(r.Pick(0, 0, 1, 5, 60))
		case 9, 10:
			x.q.Ctx, x.q.Prio = nil, false
			if r.Bool(0.8) {
				x.q.Ctx = []int64{r.Range(0, 50)}
				x.q.Prio = r.Bool(0.5)
			}
		case 11:
			x.ds = 1
		}
		if p.Nodes == 1 && len(x.q.Ctx) == 0 && x.q.ResultLimit == 0 && r.Bool(0.1) {
			x.q.GroupLimit = int64(r.Pick(1, 2, 10))
		}
		if len(x.q.Ctx) > 0 || x.q.ResultLimit > 0 {
			x.q.GroupLimit = 0 // what that combination means is not defined
		}
		pool = append(pool, x)
	}
	for i := 0; i < r.Pick(10, 25, 60); i++ {
		switch {
		case r.Bool(0.4):
			at += r.Range(0, cd*700)
		case r.Bool(0.3):
			at += r.Range(0, 50)
		}
		if r.Bool(0.35) {
			ins()
			continue
		}
		x := pool[r.Intn(len(pool))]
		op := Op{At: at, C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "q", DS: x.ds, TTL: x.cd}
		if r.Bool(0.8) {
			op.N = 0
		}
		if r.Bool(0.15) {
			op.TTL = 0
		}
		x.q.pack(&op)
		p.Ops = append(p.Ops, op)
	}
}

// at is the contents of dataset ds after every insert acknowledged up to t
// (sequential histories only).
func (st *cacheState) at(ds int, n int) (l []*pb.Datum) {
	idx := map[string]int{}
	for _, x := range st.ins[ds][:n] {
		k := KeyOf(x.d)
		if i, ok := idx[k]; ok {
			l[i] = x.d
		} else {
			idx[k] = len(l)
			l = append(l, x.d)
		}
	}
	return
}

func doCache(e *Env, c *Client, op *Op) {
	st := e.X.(*cacheState)
	n := e.node(op.N)
	if op.Kind == "ins" {
		x := &cacheIns{d: mkL(op.DS, op.Key, op.Val, int(e.K("dim"))), inv: simrt.Now()}
		st.ins[op.DS] = append(st.ins[op.DS], x)
		if err := c.Insert(n, dsName(op.DS), x.d, &pb.InsertConfig{Count: 1}, Sec(30)); err == nil {
			x.acked, x.ack = true, simrt.Now()
		}
		return
	}
	q := unpackQuery(op)
	req := q.Request(dsName(op.DS), 20000)
	req.Config.CacheDuration = uint64(op.TTL)
	inv := simrt.Now()
	got, err := c.Search(n, req, Sec(60))
	ret := simrt.Now()
	if err != nil {
		e.Fail("search-error", "search %v at healthy node%d fails: %v", q, op.N, err)
		return
	}
	if ret-inv > Sec(9) {
		e.Checked("slow-skipped")
		return
	}
	// the oldest instant the answer may show
	from := inv
	if op.TTL > 0 {
		from -= Sec(float64(op.TTL)) + Sec(1)
		if len(e.Nodes) > 1 { // every node on the way has its own cache
			from = inv - time.Duration(len(e.Nodes))*(Sec(float64(op.TTL))+Sec(3))
		}
	}
	who := fmt.Sprintf("search %v cache=%ds of %s at node%d at %v", q, op.TTL, dsName(op.DS), op.N, inv)
	if st.seq && len(q.Vecs) == 1 {
		// exact for one of the instants
		l := st.ins[op.DS]
		msg := ""
		for k := len(l); ; k-- {
			// contents after k inserts, which held until the ack of the next one
			m, open := q.Check(got, st.at(op.DS, k))
			if open {
				e.Checked("tie-skipped")
				return
			}
			if m == "" {
				e.Checked("exact")
				if k < len(l) {
					e.Checked("exact-cached")
				}
				return
			}
			if msg == "" {
				msg = m
			}
			if k == 0 || l[k-1].inv < from {
				break // the contents before this insert ended too long ago
			}
		}
		e.Fail("wrong-answer", "%s is not the answer of any instant since %v; compared with the newest contents: %s", who, from, msg)
		return
	}
	e.window(st, q, got, op.DS, from, ret, who)
}

// window checks an answer against what may and must be considered when the
// contents change concurrently.
func (e *Env) window(st *cacheState, q *Query, got []*pb.ScoredDatum, ds int, from, ret time.Duration, who string) {
	may := map[string]map[string]*pb.Datum{}
	must := map[string]bool{}
	any := map[string]*pb.Datum{}
	for _, x := range st.ins[ds] {
		k := KeyOf(x.d)
		if x.acked && x.ack < from {
			must[k] = true
		}
		if may[k] == nil {
			may[k] = map[string]*pb.Datum{}
		}
		gone := false // overwritten before the window
		for _, y := range st.ins[ds] {
			if KeyOf(y.d) == k && x.acked && y.acked && y.inv > x.ack && y.ack < from {
				gone = true
			}
		}
		if !gone && x.inv <= ret {
			may[k][ValOf(x.d)] = x.d
			any[k] = x.d
		}
	}
	m := q.m()
	if len(got) > m {
		e.Fail("too-many", "%s: %d results", who, len(got))
		return
	}
	// score of every candidate (features belong to the key)
	score := func(d *pb.Datum) (s float64) {
		for i, v := range q.Vecs {
			x := refScore(q.Func, d.Key.Feature, qvec(v, q.Dim))
			if i == 0 || better(x, s, 0, q.Higher) {
				s = x
			}
		}
		first := q.Prio
		for _, v := range q.Ctx {
			x := refScore(q.Func, d.Key.Feature, qvec(v, q.Dim))
			if first || better(x, s, 0, q.Higher) {
				s, first = x, false
			}
		}
		return
	}
	plain := len(q.Ctx) == 0 && q.GroupLimit == 0
	in := map[string]bool{}
	for i, g := range got {
		k := KeyOf(g.Datum)
		if in[k] {
			e.Fail("duplicate", "%s lists %s twice", who, DatumStr(g.Datum))
			return
		}
		in[k] = true
		d := may[k][ValOf(g.Datum)]
		if d == nil {
			e.Fail("stale", "%s returned %s, which was not stored at any instant since %v", who, DatumStr(g.Datum), from)
			return
		}
		if !q.passes(d) {
			e.Fail("filter", "%s returned %s, which does not pass the filters", who, DatumStr(g.Datum))
			return
		}
		if q.GroupLimit == 0 {
			// several vectors and limits: any vector's score may be the one that
			// got the entry in, the best one is kept only if it was in that list
			s := score(d)
			ok := abs(s-g.Score) <= scoreEps(q.Func, s)
			if !ok && len(q.Vecs) > 1 {
				for j := range q.Vecs {
					one := *q
					one.Vecs = q.Vecs[j : j+1]
					x := refScore(q.Func, d.Key.Feature, qvec(one.Vecs[0], q.Dim))
					ok = ok || abs(x-g.Score) <= scoreEps(q.Func, x)
				}
				ok = ok || len(q.Ctx) > 0
			}
			if !ok {
				e.Fail("score", "%s returned %s with score %v, expected %v", who, DatumStr(g.Datum), g.Score, s)
				return
			}
		}
		if i > 0 && better(g.Score, got[i-1].Score, 1e-9, q.Higher) {
			e.Fail("order", "%s is not sorted: %v before %v", who, got[i-1].Score, g.Score)
			return
		}
	}
	e.Checked("window")
	if !plain {
		return
	}
	for k := range any {
		if !must[k] || in[k] {
			continue
		}
		pass := true // whatever value it has
		for _, d := range may[k] {
			pass = pass && q.passes(d)
		}
		s := score(any[k])
		if pass && (len(got) < m || len(got) > 0 && better(s, got[len(got)-1].Score, 2*scoreEps(q.Func, s), q.Higher)) {
			e.Fail("missing", "%s lacks %s (score %v), which was stored before %v", who, DatumStr(any[k]), s, from)
			return
		}
	}
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

func mainCache(e *Env) {
	st := &cacheState{seq: e.P.Clients == 1 && e.P.Nodes == 1}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, 2, 1)
		// empty datasets are dropped
		for _, n := range e.Nodes {
			for d := 0; d < 2; d++ {
				x := &cacheIns{d: mkL(d, 1000+n.I, 1, int(e.K("dim"))), inv: simrt.Now()}
				if c.Insert(n, dsName(d), x.d, &pb.InsertConfig{Count: 1}, Sec(30)) == nil {
					x.acked, x.ack = true, simrt.Now()
				}
				st.ins[d] = append(st.ins[d], x)
			}
		}
	})
	e.WaitAll(Sec(200))
	e.RunOps(simrt.Now(), Sec(9000))
}

func init() {
	Register(&Scenario{Name: "cache", Gen: genCache, Main: mainCache, Do: doCache})
	AddProp(&Prop{ID: "C15", Scenarios: []string{"cache"}, Bounds: "1-3 nodes, 2 datasets, up to 44 keys, up to 60 inserts and queries by 1-4 clients, cache durations 1-100 s, queries that differ in one parameter; 1 s allowance (3 s per node in clusters)"})
}

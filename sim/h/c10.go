package h

import (
	"fmt"
	"strings"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C10: a query is processed at most once per node.

type onceState struct {
	sent  map[string]map[string]int // node/uuid -> target -> messages
	total map[string]int            // uuid (without sub query number) -> messages
	used  map[string]*Op
	done  map[string]bool
	list  []*pb.Datum
	quiet bool
}

func genOnce(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(2, 3, 3, 4, 5, 7)
	p.Clients = r.Pick(1, 3, 6)
	dim := 2
	p.Set("dim", int64(dim))
	setDS(p, 0, 100000, 400, true, 0, false)
	p.Set("quiet", int64(r.Intn(2)))
	quiet := p.Get("quiet") == 1
	if quiet {
		CalmSched(p, 3000)
	}
	n := r.Pick(1, 3, 8)
	p.Set("per", int64(n))
	q := r.Pick(4, 12, 30)
	at := int64(0)
	for i := 0; i < q; i++ {
		qu := GenQuery(r, n*p.Nodes, dim, 1, 5, 100)
		if r.Bool(0.05) {
			for k := 4 + r.Intn(10); k > 0; k-- {
				qu.Vecs = append(qu.Vecs, r.Range(0, 50))
			}
		}
		qu.Ctx, qu.Prio = nil, false
		// identifiers: none, similar to each other, repeated
		op := Op{At: at, C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "q", TTL: int64(r.Pick(500, 2000, 10000))}
		qu.pack(&op)
		switch r.Intn(4) {
		case 0: // the node chooses
		case 1:
			op.Key = i + 1
		case 2:
			op.Key, op.Val = i+1, 1+r.Intn(3)
		case 3:
			op.Key = i + 1
			rep := op
			rep.Kind, rep.At, rep.C, rep.N = "again", at+r.Range(0, 200000), r.Intn(p.Clients), op.N
			p.Ops = append(p.Ops, rep)
		}
		p.Ops = append(p.Ops, op)
		if r.Bool(0.5) {
			at += r.Range(0, 20000)
		}
	}
	sortOps(p)
	if !quiet {
		GenFaults(r, p, r.Pick(0, 3, 8), 0, at+10000, "pause", "part", "oneway", "isolate", "reset", "slow", "loss", "rstp")
	}
}

func opUUID(e *Env, op *Op) string {
	if op.Key == 0 {
		return ""
	}
	switch op.Val {
	case 1:
		return fmt.Sprintf("Q%d", op.Key)
	case 2:
		return fmt.Sprintf("%d", op.Key)
	case 3:
		return strings.Repeat("x", op.Key) + "y"
	}
	return fmt.Sprintf("q%d", op.Key)
}

func baseUUID(u string) string {
	if i := strings.LastIndexByte(u, '-'); i > 0 && len(u)-i <= 3 {
		return u[:i]
	}
	return u
}

func doOnce(e *Env, c *Client, op *Op) {
	st := e.X.(*onceState)
	n := e.node(op.N)
	q := unpackQuery(op)
	req := q.Request(dsName(0), uint64(op.TTL))
	u := opUUID(e, op)
	req.Config.Uuid = u
	t0 := simrt.Now()
	if op.Kind == "again" {
		if !st.done[u] {
			return // the first one has not finished, so it is not a repetition yet
		}
		before := st.total[baseUUID(u)]
		got, err := c.Search(n, req, Sec(30))
		if err != nil {
			return
		}
		e.Checked("repeated")
		if len(got) > 0 {
			e.Fail("repeated-answer", "search %s sent again to node%d returns %d results", u, op.N, len(got))
		}
		if st.total[baseUUID(u)] > before && st.quiet {
			e.Fail("repeated-forward", "search %s sent again to node%d caused %d messages", u, op.N, st.total[baseUUID(u)]-before)
		}
		return
	}
	got, err := c.Search(n, req, Sec(40))
	if err != nil {
		if st.quiet {
			e.Fail("search-error", "search at node%d: %v", op.N, err)
		}
		return
	}
	if u != "" {
		st.done[u] = true
	}
	e.Checked("answered")
	if st.quiet && simrt.Now()-t0 < Ms(op.TTL/2) {
		msg, open := q.Check(got, st.list)
		if !open {
			e.Checked("independent")
			if msg != "" {
				e.Fail("suppressed", "search %v (id %q) at node%d of %d: %s", q, u, op.N, len(e.Nodes), msg)
			}
		}
	}
}

func mainOnce(e *Env) {
	st := &onceState{sent: map[string]map[string]int{}, total: map[string]int{}, used: map[string]*Op{}, done: map[string]bool{}, quiet: e.K("quiet") == 1}
	e.X = st
	c := e.Clients[0]
	e.W.Net.OnMessage = func(m *simrt.RPCRec) {
		if m.Method != "SearchStream" || m.From == nil || m.From.Harness {
			return
		}
		u := m.Req.(*pb.SearchRequest).GetConfig().GetUuid()
		k := m.From.Name + "/" + u
		if st.sent[k] == nil {
			st.sent[k] = map[string]int{}
		}
		st.sent[k][m.To.Name]++
		st.total[baseUUID(u)]++
		e.Checks++
		if u == "" {
			e.Fail("anonymous", "%s forwards a search without identifier to %s", m.From.Name, m.To.Name)
		} else if st.sent[k][m.To.Name] == 2 {
			e.Fail("asked-twice", "%s asks %s twice about search %q", m.From.Name, m.To.Name, u)
		} else if len(st.sent[k]) > 6 {
			e.Fail("too-wide", "%s asks %d peers about search %q", m.From.Name, len(st.sent[k]), u)
		}
	}
	e.StartAll()
	simrt.Sleep(Sec(1))
	dim := int(e.K("dim"))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, 1, 1)
		for i, n := range e.Nodes {
			for k := 0; k < int(e.K("per")); k++ {
				c.Insert(n, dsName(0), mkL(0, k*len(e.Nodes)+i, 1, dim), &pb.InsertConfig{Count: 1}, Sec(10))
			}
		}
	})
	e.WaitAll(Sec(300))
	simrt.Sleep(Sec(200))
	e.Go(c, func() {
		_, l, msg := e.unionList(c, dsName(0))
		if msg != "" {
			e.Fail("unreadable", "%s", msg)
		}
		st.list = l
	})
	e.WaitAll(Sec(500))
	base := simrt.Now()
	e.InjectFaults(base)
	if !e.RunOps(base, Sec(4000)) {
		e.Fail("endless", "searches do not end")
	}
	e.WaitFaults()
	simrt.Sleep(Sec(60))
	// all is quiet now
	before := 0
	for _, k := range st.total {
		before += k
	}
	simrt.Sleep(Sec(30))
	after := 0
	for u, k := range st.total {
		after += k
		// per query vector every node may ask every other node once
		if max := len(e.Nodes) * (len(e.Nodes) - 1) * 18; k > max {
			e.Fail("message-storm", "search %s caused %d messages", u, k)
		}
	}
	e.Checked("quiet-at-end")
	if after != before {
		e.Fail("endless", "%d search messages a minute after the last search", after-before)
	}
	e.Sample("%d searches, %d forwarded messages, %d nodes", len(st.total), after, len(e.Nodes))
}

func init() {
	Register(&Scenario{Name: "once", Gen: genOnce, Main: mainOnce, Do: doOnce})
	AddProp(&Prop{ID: "C10", Scenarios: []string{"once"}, Bounds: "2-7 fully meshed nodes, up to 30 concurrent searches with up to 18 vectors, chosen and generated identifiers, repetitions within 200 s, up to 8 network faults and pauses"})
}

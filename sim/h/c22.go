package h

import (
	"fmt"
	"strings"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C22: finished requests leave nothing behind.

func genLeak(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 2, 2, 3, 3)
	p.Clients = 2 + r.Intn(5)
	p.Set("dim", 3)
	p.Set("fill", int64(r.Pick(3, 20, 60, 150)))
	if r.Bool(0.5) {
		p.Set("pad", int64(r.Pick(500, 3000)))
	}
	if r.Bool(0.3) { // peers refuse
		setDS(p, 0, int64(r.Pick(2, 5, 20)), int64(r.Pick(400, 1000)), false, int64(r.Intn(2)), r.Bool(0.6))
	} else {
		setDS(p, 0, 100000, 400, r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.3))
	}
	if r.Bool(0.3) {
		p.Set("idle", r.Range(3000, 12000))
	}
	span := r.Range(20, 240) * 1000
	n := r.Pick(10, 40, 100, 300)
	// which kinds of requests this run makes
	var kinds []string
	for _, k := range []string{"search", "search", "stream", "stream", "ins", "info", "tmp", "ping"} {
		if r.Bool(0.6) {
			kinds = append(kinds, k)
		}
	}
	if len(kinds) == 0 {
		kinds = []string{"search"}
	}
	for i := 0; i < n; i++ {
		op := Op{At: r.Range(0, span), C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: kinds[r.Intn(len(kinds))], Key: 1000 + i, Val: i}
		switch op.Kind {
		case "search":
			q := GenQuery(r, int(p.Get("fill")), 3, 1, 5, 100, 1000)
			q.pack(&op)
			op.TTL = int64(r.Pick(0, 1, 50, 500, 3000)) // the query's timeout
			op.DS = r.Pick(0, 0, 0, 20, 200, 2000)      // the client gives up after this many ms
			op.Val = r.Pick(0, 0, 0, 1, 3)              // approximate, cached
		case "stream":
			op.DS = r.Pick(0, 0, 20, 300, 3000)
			op.A = []int64{int64(r.LogDur(10, 200000)), int64(r.Pick(0, 0, 1, 5))}
		case "tmp":
			if p.Nodes > 1 { // nodes tell each other of datasets, also of ended ones
				continue
			}
			op.Key = i % 5
			op.TTL = int64(r.Pick(0, 1, 20))
		}
		p.Ops = append(p.Ops, op)
	}
	sortOps(p)
	if r.Bool(0.7) {
		GenFaults(r, p, r.Pick(1, 3, 8), 0, span, "pause", "part", "oneway", "isolate", "reset", "slow", "loss", "rstp")
	}
	if p.Nodes > 1 && r.Bool(0.25) { // the last node fails (1) or hangs (2) for good
		p.Set("gone", int64(1+r.Intn(2)))
		p.Set("gone_at", r.Range(0, span))
	}
}

func doLeak(e *Env, c *Client, op *Op) {
	n := e.node(op.N)
	ds := dsName(0)
	giveUp := Sec(40)
	if op.DS > 0 {
		giveUp = Ms(int64(op.DS))
	}
	switch op.Kind {
	case "search":
		q := unpackQuery(op).Request(ds, uint64(op.TTL))
		if op.Val == 1 {
			q.Config.ScoreFuncName = "AnnoyAngularDistance"
		}
		if op.Val == 3 {
			q.Config.CacheDuration = 5
		}
		c.Search(n, q, giveUp)
	case "stream":
		c.Stream(n, ds, giveUp, Ms(op.A[0])/1000, int(op.A[1]))
	case "ins":
		c.Insert(n, ds, mk(0, op.Key, op.Val, 3), &pb.InsertConfig{TTL: 30}, Sec(20))
	case "info":
		c.Info(n, ds, Sec(10))
	case "ping":
		c.Ping(n, Sec(10))
	case "tmp": // a dataset that ends again
		name := fmt.Sprintf("tmp%d", op.Key)
		if op.TTL == 0 {
			c.Create(n, &pb.DataConfig{Name: name, Version: 1, NoTarget: true}, Sec(10))
		} else {
			c.Insert(n, name, mk(0, op.Key, 1, 3), &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(10))
		}
	}
}

// level is the smallest number of a node's goroutines over a few minutes.
func (e *Env) level(n *NodeH) (int, []string) {
	m := 1 << 30
	var d []string
	for i := 0; i < 25; i++ {
		simrt.Sleep(Sec(4.37))
		// the caches' janitors end when the garbage collector finds the cache,
		// which is not simulated
		if l := n.Proc.LiveBut(":runJanitor"); l < m {
			m = l
			d = n.Proc.TaskDump()
		}
	}
	return m, d
}

func mainLeak(e *Env) {
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(30))
		e.CreateAll(c, 1, 1)
		for i := 0; i < int(e.K("fill")); i++ {
			d := mk(0, i, 1, 3)
			if n := int(e.K("pad")); n > 0 {
				d.Value.Label = append(d.Value.Label, strings.Repeat(" ", n)...)
			}
			c.Insert(e.Nodes[i%len(e.Nodes)], dsName(0), d, &pb.InsertConfig{Count: 1}, Sec(60))
		}
	})
	e.WaitAll(Sec(3000))
	simrt.Sleep(Sec(130))
	// one of each
	e.Go(c, func() {
		for _, n := range e.Nodes {
			c.Stream(n, dsName(0), Sec(30), 0, 0)
			c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 3)}, Config: &pb.SearchConfig{DataName: dsName(0), Limit: 10, Timeout: 1000, ScoreFuncName: "VectorDistance"}}, Sec(10))
			c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 3)}, Config: &pb.SearchConfig{DataName: dsName(0), Limit: 10, Timeout: 1000, ScoreFuncName: "AnnoyAngularDistance"}}, Sec(10))
		}
	})
	e.WaitAll(Sec(3000))
	simrt.Sleep(Sec(300))
	var before []int
	for _, n := range e.Nodes {
		l, _ := e.level(n)
		before = append(before, l)
	}
	base := simrt.Now()
	e.InjectFaults(base)
	left := e.Nodes
	gone := func() {}
	if e.K("gone") != 0 {
		x := e.Nodes[len(e.Nodes)-1]
		left = e.Nodes[:len(e.Nodes)-1]
		gone = func() {
			if e.K("gone") == 2 {
				x.Proc.Pause()
			} else if x.Up() {
				x.Kill(true)
			}
		}
		e.W.At(base+Ms(e.K("gone_at")), gone)
		e.W.Counters["fault:gone"]++
	}
	e.RunOps(base, Sec(20000))
	e.WaitFaults()
	gone()
	simrt.Sleep(Sec(900))
	for i, n := range left {
		l, dump := e.level(n)
		e.Checked("level")
		e.Sample("node%d: %d goroutines before, %d after %d requests", i, before[i], l, len(e.P.Ops))
		if l > before[i]+2 {
			e.Fail("left-behind", "node%d ran %d goroutines before and runs %d a quarter of an hour after the last request: %s", i, before[i], l, strings.Join(dump, "; "))
			return
		}
	}
	// connections: those that the requests needed at once may stay, no more
	peers := len(e.Nodes) - 1
	var conns []int
	for i, n := range left {
		k := e.W.Net.OpenBy(n.Proc)
		conns = append(conns, k)
		e.Checked("connections")
		if max := peers * (12*len(e.Clients) + 20); k > max {
			e.Fail("connections-left-behind", "node%d holds %d connections a quarter of an hour after the last request, with %d peers and %d clients", i, k, peers, len(e.Clients))
			return
		}
	}
	if e.K("idle") == 0 {
		return
	}
	simrt.Sleep(Sec(float64(e.K("idle"))))
	for i, n := range left {
		k := e.W.Net.OpenBy(n.Proc)
		e.Checked("connections-idle")
		e.Sample("node%d: %d connections, after %d idle s %d", i, conns[i], e.K("idle"), k)
		if k > conns[i]+3*peers {
			e.Fail("connections-grow", "node%d held %d connections and after %d s without requests %d", i, conns[i], e.K("idle"), k)
			return
		}
	}
}

func init() {
	Register(&Scenario{Name: "leak", Gen: genLeak, Main: mainLeak, Do: doLeak})
	AddProp(&Prop{ID: "C22", Scenarios: []string{"leak"}, Bounds: "1-3 nodes, up to 300 requests of all kinds, many of them cancelled or timed out, up to 8 network faults and pauses, a node that fails or hangs for good; level of goroutines a quarter of an hour later"})
}

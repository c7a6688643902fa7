package h

import (
	"fmt"
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C09: membership converges and forgets dead peers.

func genMember(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(2, 3, 3, 4, 5, 6, 7)
	p.Clients = 1
	setDS(p, 0, 100000, 400, true, 0, false)
	setDS(p, 1, 100000, 400, true, int64(p.Nodes), true) // inserts there have to reach every node directly
	CalmSched(p, 20000)
	topo := r.Intn(6)
	p.Set("topo", int64(topo)) // 0 full 1 star 2 chain 3 reverse star 4 random tree 5 ring
	p.Set("self", int64(r.Intn(4)/3))
	p.Set("bcast", int64(r.Pick(0, 0, 3, 1, 1, 2)))
	if p.Nodes > 4 && p.Get("bcast") == 2 {
		p.Set("bcast", 0)
	}
	for i := 0; i < p.Nodes; i++ {
		if r.Bool(0.6) {
			p.Set(fmt.Sprintf("start%d", i), r.Range(0, 150000))
		}
		p.Set(fmt.Sprintf("parent%d", i), int64(r.Intn(1000)))
		if r.Bool(0.3) {
			p.Set(fmt.Sprintf("skew%d", i), r.Range(-4000, 4000))
		}
	}
	if r.Bool(0.6) {
		GenFaults(r, p, r.Pick(1, 4, 10), 0, 500000, "pause", "part", "oneway", "isolate", "reset", "slow", "loss", "rstp", "kill", "power", "jump")
		if r.Bool(0.3) { // long partitions, until peers have been forgotten
			for i := range p.Faults {
				switch p.Faults[i].Kind {
				case "part", "isolate", "pause":
					p.Faults[i].Dur = r.Range(100000, 1200000)
				}
			}
		}
	}
	p.Set("dead", int64(r.Intn(2)))
	if p.Nodes > 2 && r.Bool(0.25) { // instead, any node, even if it is the seed of others
		p.Set("seedgone", int64(1+r.Intn(p.Nodes)))
	}
	if r.Bool(0.25) {
		p.Set("stay", int64(r.Pick(10, 25)))
	}
}

func (e *Env) setTopo() (seedOf map[int]bool) {
	n := len(e.Nodes)
	seedOf = map[int]bool{}
	name := func(i int) string { return e.Nodes[i].Addr }
	if e.K("bcast") == 2 {
		name = func(i int) string { return fmt.Sprintf("node%d.veri:%d", i, Port) }
		for i, x := range e.Nodes {
			e.W.Net.DNS[fmt.Sprintf("node%d.veri", i)] = []string{x.Host.IP}
		}
	}
	for i, x := range e.Nodes {
		var l []int
		switch e.K("topo") {
		case 0:
			for j := range e.Nodes {
				if j != i {
					l = append(l, j)
				}
			}
		case 1:
			if i > 0 {
				l = append(l, 0)
			}
		case 2:
			if i > 0 {
				l = append(l, i-1)
			}
		case 3:
			if i == 0 {
				for j := 1; j < n; j++ {
					l = append(l, j)
				}
			}
		case 4:
			if i > 0 {
				l = append(l, int(e.K(fmt.Sprintf("parent%d", i)))%i)
			}
		case 5:
			l = append(l, (i+1)%n)
		}
		if e.K("self") == 1 {
			l = append(l, i)
		}
		var s []string
		for _, j := range l {
			s = append(s, name(j))
			seedOf[j] = true // its own configuration counts: services are gossiped
		}
		x.Serv = strings.Join(s, ",")
		switch e.K("bcast") {
		case 0:
			x.Bcast = x.Addr
		case 2:
			x.Bcast = name(i)
		case 3: // the port is added
			x.Bcast = x.Host.IP
		}
	}
	return
}

func (e *Env) fresh(c *Client, tag int) string {
	ds := dsName(0)
	var keys []string
	t0 := simrt.Now()
	for i, n := range e.Nodes {
		if !n.Up() {
			continue
		}
		d := mk(0, 2*(10*tag+i), tag, 2)
		if err := c.Insert(n, ds, d, &pb.InsertConfig{Count: 1}, Sec(10)); err != nil {
			return fmt.Sprintf("node%d refuses an insert: %v", i, err)
		}
		keys = append(keys, KeyOf(d))
	}
	for i, n := range e.Nodes {
		if !n.Up() {
			continue
		}
		l, err := c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 2)}, Config: &pb.SearchConfig{DataName: ds, Limit: 10000, Timeout: 8000, ScoreFuncName: "VectorDistance"}}, Sec(20))
		if err != nil {
			return fmt.Sprintf("search at node%d: %v", i, err)
		}
		in := map[string]bool{}
		for _, s := range l {
			in[KeyOf(s.Datum)] = true
		}
		j := 0
		for k := range e.Nodes {
			if !e.Nodes[k].Up() {
				continue
			}
			if !in[keys[j]] {
				return fmt.Sprintf("a search at node%d does not find the fresh entry of node%d", i, k)
			}
			j++
		}
	}
	_ = t0
	return ""
}

// direct: an insert that has to be stored by all nodes before it is acknowledged succeeds
// only at a node that knows all the others itself.
func (e *Env) direct(c *Client, tag int) string {
	for i, n := range e.Nodes {
		if err := c.Insert(n, dsName(1), mk(1, 2*(10*tag+i), tag, 2), &pb.InsertConfig{}, Sec(60)); err != nil {
			return fmt.Sprintf("an insert at node%d does not reach all %d nodes: %v", i, len(e.Nodes), err)
		}
	}
	return ""
}

func mainMember(e *Env) {
	c := e.Clients[0]
	seedOf := e.setTopo()
	gone := map[*simrt.Host]time.Duration{}
	e.W.Net.OnMessage = func(m *simrt.RPCRec) {
		if m.From == nil || m.From.Harness || m.To.Host != m.From.Host {
			return
		}
		switch m.Method {
		case "SearchStream", "Insert", "GetDataInfo", "AddPeer", "CreateDataIfNotExists":
			e.Fail("self-peer", "%s sends %s to itself", m.From.Name, m.Method)
		}
	}
	base := simrt.Now()
	var lastStart time.Duration
	for _, n := range e.Nodes {
		n := n
		at := base + Ms(e.K(fmt.Sprintf("start%d", n.I)))
		if at > lastStart {
			lastStart = at
		}
		e.W.At(at+1, func() {
			if n.Gen == 0 {
				n.Start()
			}
		})
	}
	fb := lastStart
	if e.K("topo")%2 == 0 {
		fb = base
	}
	e.InjectFaults(fb + Sec(1))
	SleepUntil(lastStart + Sec(2))
	e.WaitFaults()
	simrt.Sleep(Sec(65)) // restarts are over
	for i, n := range e.Nodes {
		if !n.Up() {
			e.Fail("node-down", "node%d is not running", i)
			return
		}
	}
	e.Go(c, func() {
		e.WaitServing(c, Sec(120))
		e.CreateAll(c, 2, 1)
		for i, n := range e.Nodes {
			for d := 0; d < 2; d++ {
				for try := 0; try < 10; try++ {
					if c.Insert(n, dsName(d), mk(d, 2*i, 1, 2), &pb.InsertConfig{Count: 1}, Sec(10)) == nil {
						break
					}
					simrt.Sleep(Sec(1))
				}
			}
		}
	})
	e.WaitAll(Sec(600))
	healed := simrt.Now()
	e.Go(c, func() {
		simrt.Sleep(Sec(120))
		msg := ""
		for k := 1; k < 20; k++ {
			if msg = e.fresh(c, k); msg == "" {
				e.Checked("converged")
				e.Sample("%d nodes, topology %d, converged within %v", len(e.Nodes), e.K("topo"), simrt.Now()-healed)
				break
			}
			if simrt.Now()-healed > Sec(420) {
				break
			}
			simrt.Sleep(Sec(25))
		}
		if msg != "" {
			e.Fail("no-convergence", "%v after the last fault: %s", simrt.Now()-healed, msg)
			return
		}
		// not only through others
		for k := 1; ; k++ {
			if msg = e.direct(c, k); msg == "" {
				e.Checked("full-mesh")
				e.Sample("%d nodes, topology %d, all know each other within %v", len(e.Nodes), e.K("topo"), simrt.Now()-healed)
				break
			}
			if simrt.Now()-healed > Sec(600) {
				e.Fail("no-full-mesh", "%v after the last fault: %s", simrt.Now()-healed, msg)
				return
			}
			simrt.Sleep(Sec(25))
		}
		// and they keep knowing each other
		for t := int64(0); t < e.K("stay"); t++ {
			simrt.Sleep(Sec(20) + time.Duration(mix(e.P.Seed, uint64(t))%uint64(Sec(40))))
			if msg = e.fresh(c, 100+int(t)); msg != "" {
				e.Fail("lost-contact", "%v after the last fault, nodes that knew each other: %s", simrt.Now()-healed, msg)
				return
			}
			e.Checked("still-connected")
		}
	})
	e.WaitAll(Sec(6000))
	if e.K("dead") == 0 || len(e.Viol) > 0 {
		return
	}
	if k := e.K("seedgone"); k > 0 {
		if e.K("topo") == 1 {
			k = 1 // everybody's
		}
		e.Nodes[k-1].Kill(k%2 == 0)
		e.W.Counters["fault:gone-for-good"]++
		simrt.Sleep(20 * time.Minute)
		e.checkSurvivors(c)
		return
	}
	// one node that is nobody's seed is gone for good
	for i := len(e.Nodes) - 1; i >= 0; i-- {
		if seedOf[i] {
			continue
		}
		n := e.Nodes[i]
		gone[n.Host] = simrt.Now()
		n.Kill(i%2 == 0)
		e.W.Counters["fault:gone-for-good"]++
		simrt.Sleep(30 * time.Minute)
		e.W.Net.LogDials = true
		e.W.Net.Dials = nil
		simrt.Sleep(10 * time.Minute)
		e.Checked("forgotten")
		for _, d := range e.W.Net.Dials {
			if strings.HasPrefix(d.To, n.Host.IP+":") || strings.HasPrefix(d.To, fmt.Sprintf("node%d.veri", i)) {
				e.Fail("not-forgotten", "%s contacts node%d (%s) at %v, which is dead since %v", d.From, i, d.To, d.At, gone[n.Host])
				break
			}
		}
		e.W.Net.LogDials = false
		break
	}
	e.checkSurvivors(c)
}

// checkSurvivors: the others still form a cluster.
func (e *Env) checkSurvivors(c *Client) {
	e.Go(c, func() {
		msg := ""
		for k := 30; k < 36; k++ {
			if msg = e.fresh(c, k); msg == "" {
				break
			}
			simrt.Sleep(Sec(25))
		}
		if msg != "" {
			e.Fail("no-convergence", "after a node is gone: %s", msg)
		}
		e.Checked("survivors-connected")
	})
	e.WaitAll(Sec(2000))
}

func init() {
	Register(&Scenario{Name: "member", Gen: genMember, Main: mainMember})
	AddProp(&Prop{ID: "C09", Scenarios: []string{"member"}, Bounds: "2-7 nodes, six seed topologies with given, discovered and named addresses, starts spread over 150 s, up to 10 faults incl. crashes with restart and partitions up to 20 min, searches cover all nodes within 7 min, all know each other directly within 10 min, and contact for up to 20 min more; one node gone for good, be it the only seed"})
}

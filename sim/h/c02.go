package h

import (
	"fmt"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C02: enforced replication.

type replState struct {
	acked []*Ins
	fin   bool
}

func genRepl(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 2, 3, 3, 4, 5, 7)
	p.Clients = 1 + r.Intn(2)
	nds := 1 + r.Intn(2)
	p.Set("nds", int64(nds))
	p.Set("dim", 3)
	for d := 0; d < nds; d++ {
		rep := int64(1 + r.Intn(p.Nodes))
		if r.Bool(0.15) {
			rep = int64(r.Pick(0, p.Nodes+1, p.Nodes+3))
		}
		setDS(p, d, int64(r.Pick(0, 10, 1000)), 400, true, rep, r.Bool(0.9))
	}
	if r.Bool(0.3) {
		p.Set("names", int64(1+r.Intn(2)))
	}
	if p.Nodes > 1 && r.Bool(0.3) { // these are restarted before the inserts
		p.Set("reboot", int64(1+r.Intn(1<<p.Nodes-1)))
	}
	healthy := r.Bool(0.3)
	p.Set("healthy", map[bool]int64{true: 1, false: 0}[healthy])
	p.Set("settle", r.Range(200, 260)) // sources known
	if r.Bool(0.25) {
		p.Set("settle", r.Range(500, 1500)) // sources have to be renewed
	}
	if r.Bool(0.2) && !healthy {
		p.Set("settle", r.Range(0, 130)) // or not yet
	}
	if !healthy && r.Bool(0.25) { // some nodes are full and refuse, nothing is ever evicted
		p.Set("full", int64(1+r.Intn(1<<p.Nodes-1)))
		for d := 0; d < nds; d++ {
			p.Set(fmt.Sprintf("ds%d_target", d), 6)
			p.Set(fmt.Sprintf("ds%d_util", d), 5000)
			p.Set(fmt.Sprintf("ds%d_notarget", d), 0)
		}
	}
	n := r.Pick(4, 10, 25)
	span := r.Range(5, 200) * 1000
	ttls := r.Bool(0.3)
	for i := 0; i < n; i++ {
		op := Op{At: r.Range(0, span), C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "ins", DS: r.Intn(nds), Key: r.Intn(3 * n), Val: i + 1}
		if ttls { // every key is inserted once, so that its lifetime is known
			op.Key = i
			op.TTL = int64(r.Pick(0, 25, 55, 200, 100000))
		}
		p.Ops = append(p.Ops, op)
	}
	sortOps(p)
	if healthy {
		CalmSched(p, 5000)
	} else if p.Nodes > 1 {
		GenFaults(r, p, r.Pick(1, 3, 6, 10), 0, span, "pause", "part", "oneway", "isolate", "reset", "slow", "loss", "rstp", "pause", "part")
	}
	// finally R-1 nodes crash for good
	if r.Bool(0.4) {
		p.Set("crash", 1)
		for i := 0; i < p.Nodes; i++ {
			p.Set(fmt.Sprintf("victim%d", i), int64(r.Intn(1000)))
		}
	}
}

func (e *Env) holders(c *Client, ds, key string) (h []int, unread int) {
	for i, n := range e.Nodes {
		if !n.Up() {
			continue
		}
		l, err := e.StreamRetry(c, n, ds, Sec(200))
		if err != nil {
			unread++
			continue
		}
		for _, d := range l {
			if KeyOf(d) == key {
				h = append(h, i)
				break
			}
		}
	}
	return
}

// mayBeExpired: copies keep the remaining lifetime to within a few tens of seconds.
func (in *Ins) mayBeExpired() bool {
	return in.TTL != 0 && simrt.Now() > in.Inv+Sec(float64(in.TTL)-15)
}

func doRepl(e *Env, c *Client, op *Op) {
	st := e.X.(*replState)
	n := e.node(op.N)
	cfg := dsCfg(e.P, op.DS, 1)
	d := mk(op.DS, op.Key, op.Val, 3)
	in := &Ins{DS: op.DS, K: op.Key, V: op.Val, Key: KeyOf(d), Val: ValOf(d), Node: op.N, TTL: op.TTL, Inv: simrt.Now()}
	err := c.Insert(n, cfg.Name, d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(100))
	in.Ret = simrt.Now()
	in.Acked = err == nil
	r := int(cfg.ReplicationOnInsert)
	if !cfg.EnforceReplicationOnInsert || r < 1 {
		r = 1
	}
	if err != nil {
		e.Checked("refused")
		if e.K("healthy") == 1 && r <= len(e.Nodes) && e.K("settle") >= 200 {
			e.Fail("refused-healthy", "insert at node%d with replication %d was refused in a healthy cluster of %d: %v", op.N, r, len(e.Nodes), err)
		}
		return
	}
	// Entries of a dataset without a size target are never removed, so reading
	// afterwards can only find more copies than there were.
	h, unread := e.holders(c, cfg.Name, in.Key)
	if unread == 0 && !in.mayBeExpired() {
		e.Checked(fmt.Sprintf("acked-R%d", r))
		if len(h) < r {
			e.Fail("under-replicated", "insert of %s at node%d was acknowledged with replication %d but only nodes %v hold it", in.Key, op.N, r, h)
		}
		e.Sample("R=%d nodes=%d holders=%v", r, len(e.Nodes), h)
	}
	st.acked = append(st.acked, in)
}

func mainRepl(e *Env) {
	st := &replState{}
	e.X = st
	nds := int(e.K("nds"))
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(2))
	e.Go(c, func() { e.WaitServing(c, Sec(60)); e.CreateAll(c, nds, 1) })
	e.WaitAll(Sec(300))
	// keep the datasets alive until the sources are known
	e.Go(c, func() {
		for _, n := range e.Nodes {
			for d := 0; d < nds; d++ {
				c.Insert(n, dsName(d), mk(d, 900000, 0, 3), &pb.InsertConfig{Count: 1}, Sec(10))
			}
		}
	})
	e.WaitAll(Sec(300))
	if m := e.K("reboot"); m != 0 {
		simrt.Sleep(Sec(70))
		for i, n := range e.Nodes {
			if m>>uint(i)&1 == 1 {
				n.Kill(false)
				simrt.Sleep(Sec(2))
				n.Start()
				simrt.Sleep(Sec(8))
			}
		}
		e.Go(c, func() {
			e.WaitServing(c, Sec(60))
			for _, n := range e.Nodes {
				for d := 0; d < nds; d++ {
					c.Insert(n, dsName(d), mk(d, 900000, 0, 3), &pb.InsertConfig{Count: 1}, Sec(10))
				}
			}
		})
		e.WaitAll(Sec(300))
	}
	if m := e.K("full"); m != 0 {
		e.Go(c, func() {
			for i, n := range e.Nodes {
				for k := 0; k < 12*nds && m>>uint(i)&1 == 1; k++ {
					c.Insert(n, dsName(k%nds), mk(k%nds, 910000+k, 0, 3), &pb.InsertConfig{Count: 1}, Sec(10))
				}
			}
		})
		e.WaitAll(Sec(3000))
	}
	simrt.Sleep(Sec(float64(e.K("settle"))))
	base := simrt.Now()
	e.InjectFaults(base)
	e.RunOps(base, Sec(20000))
	e.WaitFaults()
	// after the faults, inserts succeed again
	if e.K("crash") == 0 {
		simrt.Sleep(Sec(240))
		e.Go(c, func() {
			for d := 0; d < nds; d++ {
				cfg := dsCfg(e.P, d, 1)
				r := int(cfg.ReplicationOnInsert)
				for i, n := range e.Nodes {
					var err error
					for try := 0; try < 5; try++ {
						if err = c.Insert(n, cfg.Name, mk(d, 800000+i, 1, 3), &pb.InsertConfig{}, Sec(100)); err == nil {
							break
						}
						simrt.Sleep(Sec(30))
					}
					enf := cfg.EnforceReplicationOnInsert
					if e.K("full") != 0 {
						continue
					}
					if enf && r > len(e.Nodes) {
						if err == nil {
							e.Fail("acked-impossible", "insert with replication %d was acknowledged in a cluster of %d", r, len(e.Nodes))
						}
						e.Checked("impossible-refused")
					} else if err != nil && r <= 7 {
						e.Fail("refused-healed", "insert at node%d with replication %d is still refused minutes after all faults ended: %v", i, r, err)
					} else {
						e.Checked("healed-accepted")
					}
				}
			}
		})
		e.WaitAll(Sec(20000))
		return
	}
	// crash R-1 nodes of the smallest factor in use; every acknowledged datum survives
	for d := 0; d < nds; d++ {
		cfg := dsCfg(e.P, d, 1)
		r := int(cfg.ReplicationOnInsert)
		if !cfg.EnforceReplicationOnInsert || r < 2 {
			continue
		}
		if st.fin {
			break
		}
		st.fin = true
		for k := 0; k < r-1; k++ {
			best := -1
			for i, n := range e.Nodes {
				if n.Up() && (best < 0 || e.K(fmt.Sprintf("victim%d", i)) > e.K(fmt.Sprintf("victim%d", best))) {
					best = i
				}
			}
			if best < 0 {
				break
			}
			e.W.Counters["fault:crash-after-ack"]++
			e.Nodes[best].Kill(true)
		}
		up := 0
		for _, n := range e.Nodes {
			if n.Up() {
				up++
			}
		}
		if up == 0 {
			break
		}
		d := d
		e.Go(c, func() {
			all, _, err := e.Union(c, cfg.Name, Sec(200))
			if err != nil {
				e.Fail("unreadable", "%v", err)
				return
			}
			for _, in := range st.acked {
				if in.DS == d && !in.mayBeExpired() {
					e.Checked("survived-crashes")
					if len(all[in.Key]) == 0 {
						e.Fail("lost-after-crashes", "%s was acknowledged with replication %d and is gone after %d crashes", in.Key, r, r-1)
					}
				}
			}
		})
		e.WaitAll(Sec(2000))
		if e.K("healthy") == 1 && up >= r {
			e.Go(c, func() {
				for k := 0; k < 2; k++ {
					for i, n := range e.Nodes {
						if !n.Up() {
							continue
						}
						err := c.Insert(n, cfg.Name, mk(d, 810000+10*k+i, 1, 3), &pb.InsertConfig{}, Sec(100))
						e.Checked("accepted-without-others")
						if err != nil {
							e.Fail("refused-others-down", "insert at node%d with replication %d is refused by a cluster of %d running nodes, %d others are down: %v", i, r, up, r-1, err)
						}
					}
				}
			})
			e.WaitAll(Sec(5000))
		}
	}
}

func init() {
	Register(&Scenario{Name: "repl", Gen: genRepl, Main: mainRepl, Do: doRepl})
	AddProp(&Prop{ID: "C02", Scenarios: []string{"repl"}, Bounds: "1-7 nodes, factors 0..nodes+3, up to 25 inserts with and without lifetimes each followed by a census of all nodes, up to 10 network faults and pauses, then up to R-1 power failures"})
}

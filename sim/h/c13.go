package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C13: graceful shutdown hands data over and always finishes.

type termState struct {
	ins    []*Ins
	termAt map[int]time.Duration
	bad    map[int]bool
}

func genTerm(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 2, 2, 3, 3, 4)
	p.Clients = 1 + r.Intn(3)
	nds := 1 + r.Intn(2)
	if r.Bool(0.04) {
		nds = r.Pick(7, 12, 40)
	}
	p.Set("nds", int64(nds))
	p.Set("dim", 2)
	p.Set("full", 0)
	CalmSched(p, int64(r.Pick(2000, 20000)))
	for d := 0; d < nds; d++ {
		rep := r.Pick(0, 1, 1, 2)
		if rep > p.Nodes {
			rep = p.Nodes
		}
		target, notarget := r.Pick(1000, 100000), r.Bool(0.5)
		if r.Bool(0.15) {
			target, notarget = r.Pick(3, 10), false
			p.Set("full", 1)
		}
		setDS(p, d, int64(target), int64(r.Pick(0, 400, 900)), notarget, int64(rep), r.Bool(0.7))
	}
	p.Set("sigint", int64(r.Intn(4)/3))
	n := r.Pick(0, 5, 20, 60, 120)
	hot := r.Intn(p.Nodes)
	bias := r.Float64()
	term := r.Range(0, 100000)
	p.Set("settle", r.Range(150, 240))
	for i := 0; i < n; i++ {
		nd := r.Intn(p.Nodes)
		if r.Float64() < bias {
			nd = hot
		}
		op := Op{At: r.Range(0, term+3000), C: r.Intn(p.Clients), N: nd, Kind: "ins", DS: r.Intn(nds), Key: i, Val: i}
		if r.Bool(0.4) { // close to the signal
			op.At = term + r.Range(-40, 60)
		} else if r.Bool(0.5) {
			op.At = term + r.Range(-3000, 500)
		}
		if op.At < 0 {
			op.At = 0
		}
		if r.Bool(0.15) {
			op.TTL = r.Range(9000, 50000)
		} else if r.Bool(0.15) {
			op.TTL = r.Range(100, 500)
		}
		if r.Bool(0.15) {
			op.S = "peer" // as a peer sends its copies
		}
		p.Ops = append(p.Ops, op)
	}
	// readers keep running
	for i := 0; i < r.Intn(6); i++ {
		p.Ops = append(p.Ops, Op{At: term + r.Range(-2000, 3000), C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: pickStr(r, "stream", "search", "info"), DS: r.Intn(nds)})
	}
	sortOps(p)
	p.Faults = append(p.Faults, Fault{At: term, Kind: "term", A: hot})
	if p.Nodes > 2 && r.Bool(0.3) {
		p.Faults = append(p.Faults, Fault{At: term + r.Range(-2000, 2000), Kind: "term", A: (hot + 1) % p.Nodes})
		if p.Faults[1].At < 0 {
			p.Faults[1].At = 0
		}
	}
	if r.Bool(0.4) && p.Nodes > 1 { // a peer is in trouble meanwhile
		for k := 0; k < r.Pick(1, 1, 3); k++ {
			b := (hot + 1 + r.Intn(p.Nodes-1)) % p.Nodes
			at := term - r.Range(0, 20000)
			if at < 0 {
				at = 0
			}
			f := Fault{At: at, Kind: pickStr(r, "pause", "isolate", "kill", "power"), A: b, Dur: 2000000}
			if f.Kind == "kill" || f.Kind == "power" {
				f.Dur = 0
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if p.Nodes > 1 && r.Bool(0.4) { // a peer hesitates or its connections break once, and it accepts again at once
		b := (hot + 1 + r.Intn(p.Nodes-1)) % p.Nodes
		for k := 0; k < 1+r.Intn(2); k++ {
			f := Fault{At: term + int64(r.Pick(0, 1, 2, 4, 8, 20, 60)), Kind: pickStr(r, "reset", "reset", "hiccup"), A: hot, B: b}
			if f.Kind == "hiccup" && len(p.Faults) > 1 && p.Faults[1].Kind == "term" && p.Faults[1].A == b {
				f.Kind = "reset" // a paused node cannot notice its own signal
			} else if f.Kind == "hiccup" {
				f.Kind, f.A, f.B, f.Dur = "pause", b, 0, r.Range(10, 4000)
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if p.Nodes > 1 && len(p.Faults) == 1 && r.Bool(0.3) { // the connections break again and again, and work in between
		CalmSched(p, 20000)
		p.Net.LatUS, p.Net.JitterUS = r.Range(5000, 25000), r.Range(100, 5000)
		b := (hot + 1 + r.Intn(p.Nodes-1)) % p.Nodes
		gap := r.Range(700, 1500)
		for i := 0; i < 150; i++ {
			p.Ops = append(p.Ops, Op{At: r.Range(0, term), C: r.Intn(p.Clients), N: hot, Kind: "ins", Key: 1000 + i, Val: i})
		}
		sortOps(p)
		for k := int64(0); k < 8; k++ {
			p.Faults = append(p.Faults, Fault{At: term + gap*k + r.Range(0, 100), Kind: "reset", A: hot, B: b})
		}
	}
	if r.Bool(0.2) {
		p.Faults = append(p.Faults, Fault{At: term - r.Range(0, 20000), Kind: pickStr(r, "diskfail", "diskfull"), A: hot, Arg: 1000, Dur: 600000})
		if f := &p.Faults[len(p.Faults)-1]; f.At < 0 {
			f.At = 0
		}
	}
}

func doTerm(e *Env, c *Client, op *Op) {
	st := e.X.(*termState)
	n := e.node(op.N)
	ds := dsName(op.DS)
	switch op.Kind {
	case "ins":
		d := mk(op.DS, op.Key, op.Val, 2)
		in := &Ins{DS: op.DS, K: op.Key, V: op.Val, Key: KeyOf(d), Val: ValOf(d), Node: op.N, TTL: op.TTL, Inv: simrt.Now()}
		st.ins = append(st.ins, in)
		cfg := &pb.InsertConfig{TTL: uint64(op.TTL)}
		if op.S == "peer" {
			cfg.Count = 1
		}
		err := c.Insert(n, ds, d, cfg, Sec(60))
		in.Ret = simrt.Now()
		in.Acked = err == nil
		if t, ok := st.termAt[op.N]; ok && in.Inv > t+Sec(1) {
			e.Checked("insert-after-signal")
			if in.Acked {
				e.Fail("accepts-while-draining", "node%d was told to terminate at %v and accepts an insert sent at %v", op.N, t, in.Inv)
			}
		}
	case "stream":
		c.Stream(n, ds, Sec(20), 0, 0)
	case "search":
		c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 2)}, Config: &pb.SearchConfig{DataName: ds, Limit: 100, Timeout: 2000}}, Sec(20))
	case "info":
		c.Info(n, ds, Sec(20))
	}
}

func mainTerm(e *Env) {
	st := &termState{termAt: map[int]time.Duration{}, bad: map[int]bool{}}
	e.X = st
	nds := int(e.K("nds"))
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, nds, 1)
		for _, n := range e.Nodes {
			for d := 0; d < nds; d++ {
				c.Insert(n, dsName(d), mk(d, 9000+n.I, 0, 2), &pb.InsertConfig{Count: 1}, Sec(10))
			}
		}
	})
	e.WaitAll(Sec(300))
	simrt.Sleep(Sec(float64(e.K("settle"))))
	for i, n := range e.Nodes {
		if code, body := n.Proc.HTTPProbe("8000", "/ready", Sec(5)); code != 200 {
			e.Fail("not-ready", "healthy node%d answers its readiness probe with %d %s", i, code, body)
		}
		if code, body := n.Proc.HTTPProbe("8000", "/health", Sec(5)); code != 200 {
			e.Fail("not-healthy", "healthy node%d answers its health probe with %d %s", i, code, body)
		}
	}
	base := simrt.Now()
	var last time.Duration
	for i := range e.P.Faults {
		f := &e.P.Faults[i]
		if f.Kind == "diskfail" || f.Kind == "diskfull" || f.Kind == "reset" || f.Kind == "pause" && f.Dur <= 4000 {
			continue
		}
		if f.Kind != "term" {
			st.bad[f.A] = true
			continue
		}
		at := base + Ms(f.At)
		if at > last {
			last = at
		}
		e.W.At(at, func() {
			if e.node(f.A).Up() {
				st.termAt[f.A] = simrt.Now()
			}
		})
	}
	e.InjectFaults(base)
	e.Go(c, func() { // probe the terminating nodes
		SleepUntil(last + Sec(1))
		for k := 0; k < 5; k++ {
			for i := range e.Nodes {
				t, ok := st.termAt[i]
				n := e.Nodes[i]
				if !ok || n.Proc.Dead || simrt.Now() < t+Sec(1) {
					continue
				}
				code, _ := n.Proc.HTTPProbe("8000", "/ready", Sec(5))
				e.Checked("ready-while-draining")
				if code == 200 && !n.Proc.Dead {
					e.Fail("ready-while-draining", "node%d was told to terminate at %v and still reports ready at %v", i, t, simrt.Now())
				}
			}
			simrt.Sleep(Sec(8))
		}
	})
	e.RunOps(base, Sec(2000))
	SleepUntil(last + Ms(1))
	// bounded time
	bound := Sec(60) + time.Duration(nds*(len(e.Nodes)-1))*Sec(35) + time.Duration(len(st.ins)+10)*Ms(300)
	for i := range e.Nodes {
		t, ok := st.termAt[i]
		if !ok {
			continue
		}
		p := e.Nodes[i].Proc
		for !p.Dead && simrt.Now() < t+bound {
			simrt.Sleep(Sec(1))
		}
		if e.Nodes[i].Host.Down || !p.Exited && p.Dead {
			continue // crashed by a fault as well
		}
		e.Checked("exited")
		if st.bad[i] && !p.Dead {
			continue // paused itself
		}
		if !p.Dead {
			e.Fail("no-exit", "node%d was told to terminate at %v and still runs at %v", i, t, simrt.Now())
			return
		}
		if p.Code != 0 {
			e.Fail("exit-code", "node%d exits with status %d", i, p.Code)
		}
		e.Sample("node%d exited within %v", i, simrt.Now()-t)
	}
	// a healthy survivor has everything
	var alive []int
	lost := false
	for i, n := range e.Nodes {
		if n.Up() && !st.bad[i] {
			alive = append(alive, i)
		}
		if st.termAt[i] != 0 && st.bad[i] || !n.Up() && st.termAt[i] == 0 || n.Proc.Dead && !n.Proc.Exited {
			lost = true
		}
	}
	if len(alive) == 0 || lost || e.K("full") == 1 {
		return
	}
	e.Heal()
	simrt.Sleep(Sec(5))
	e.Go(c, func() {
		for d := 0; d < nds; d++ {
			all := map[string]bool{}
			for round := 0; round < 4; round++ { // entries may move meanwhile
				u, _, err := e.Union(c, dsName(d), Sec(100))
				if err != nil {
					e.Fail("unreadable", "%v", err)
					return
				}
				for k := range u {
					all[k] = true
				}
				if e.K(fmt.Sprintf("ds%d_notarget", d)) == 1 {
					break
				}
				simrt.Sleep(Sec(float64(3 + 4*round)))
			}
			for _, in := range st.ins {
				if in.DS != d || !in.Acked || in.TTL != 0 && simrt.Now() > in.Inv+time.Duration(in.TTL-5)*time.Second {
					continue
				}
				e.Checked("handed-over")
				if !all[in.Key] {
					e.Fail("lost-on-shutdown", "%s, acknowledged by node%d at %v, is on no surviving node (terminated: %v, survivors %v)", in.Key, in.Node, in.Ret, st.termAt, alive)
					return
				}
			}
			for i := range e.Nodes {
				if st.termAt[i] != 0 {
					if k := KeyOf(mk(d, 9000+i, 0, 2)); !all[k] {
						e.Fail("lost-on-shutdown", "%s of terminated node%d is on no surviving node", k, i)
					}
				}
			}
		}
	})
	e.WaitAll(Sec(1000))
}

func init() {
	Register(&Scenario{Name: "term", Gen: genTerm, Main: mainTerm, Do: doTerm})
	AddProp(&Prop{ID: "C13", Scenarios: []string{"term", "term", "term", "rolling"}, Bounds: "1-4 nodes of which one or two terminate, 1-2 datasets (sometimes up to 40), up to 120 inserts around the signal, peers healthy, full, paused, cut off or dead, disk errors; rolling restarts of up to 4 nodes; exit within 60 s + 35 s per dataset and peer + 0.3 s per entry"})
}

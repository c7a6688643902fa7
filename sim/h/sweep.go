package h

import (
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// sweep: every minute a node drops its empty datasets. Here datasets are
// created empty, or emptied by expiry, shortly before, and get their entries
// within microseconds to seconds of the sweep (C01).

func genSweep(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = r.Pick(1, 1, 1, 2, 3), 8
	p.Set("dim", 2)
	p.Set("stagger_ms", 0)
	CalmSched(p, int64(r.Pick(200, 2000, 20000)))
	p.Net.LatUS = int64(r.Pick(20, 50, 200))
	p.Net.JitterUS = int64(r.Pick(20, 100, 500))
	w := int64(r.Pick(300, 1000, 3000, 20000))
	late := r.Range(0, 3000) // the work of a tick takes some time
	ticks := 1 + r.Intn(5)
	per := r.Pick(2, 5, 10)
	p.Set("nds", int64(ticks*per))
	for t := 0; t < ticks; t++ {
		for d := 0; d < per; d++ {
			ds := t*per + d
			setDS(p, ds, 1000, 400, r.Bool(0.3), int64(r.Intn(2)), r.Bool(0.5))
			nd := r.Intn(p.Nodes)
			first := Op{C: r.Intn(8), N: nd, DS: ds, A: []int64{int64(t + 1), -r.Range(100, 20000) * 1000}}
			first.Kind = pickStr(r, "create", "create", "info", "ins")
			if first.Kind == "ins" {
				first.Key, first.Val, first.TTL = 99, 1, r.Range(1, 4)
			}
			p.Ops = append(p.Ops, first)
			for i := 1 + r.Intn(3); i > 0; i-- {
				op := Op{C: r.Intn(8), N: nd, Kind: "ins", DS: ds, Key: i, Val: i, A: []int64{int64(t + 1), late + r.Range(-w, w)}}
				if r.Bool(0.1) {
					op.Kind = pickStr(r, "info", "create", "stream")
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	for i := range p.Ops {
		p.Ops[i].At = p.Ops[i].A[0]*60000 + p.Ops[i].A[1]/1000
	}
	sortOps(p)
}

func doSweep(e *Env, c *Client, op *Op) {
	st := e.X.(*sweepState)
	SleepUntil(st.t0 + time.Duration(op.A[0])*time.Minute + time.Duration(op.A[1])*time.Microsecond)
	n := e.node(op.N)
	ds := dsName(op.DS)
	switch op.Kind {
	case "ins":
		d := mk(op.DS, op.Key, op.Val, 2)
		in := &Ins{DS: op.DS, K: op.Key, V: op.Val, Key: KeyOf(d), Val: ValOf(d), Node: op.N, TTL: op.TTL, Inv: simrt.Now()}
		st.ins = append(st.ins, in)
		err := c.Insert(n, ds, d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(30))
		in.Ret = simrt.Now()
		in.Acked = err == nil
	case "create":
		c.Create(n, dsCfg(e.P, op.DS, 1), Sec(10))
	case "info":
		c.Info(n, ds, Sec(10))
	case "stream":
		c.Stream(n, ds, Sec(10), 0, 0)
	}
}

type sweepState struct {
	keepState
	t0 time.Duration
}

func mainSweep(e *Env) {
	st := &sweepState{t0: simrt.Now()}
	e.X = st
	e.StartAll()
	e.RunOps(st.t0, Sec(3000))
	simrt.Sleep(Sec(5))
	e.Go(e.Clients[0], func() {
		for d := 0; d < int(e.K("nds")); d++ {
			e.checkKept(e.Clients[0], d, st.ins)
		}
	})
	e.WaitAll(Sec(7200))
}

func init() {
	Register(&Scenario{Name: "sweep", Gen: genSweep, Main: mainSweep, Do: doSweep})
}

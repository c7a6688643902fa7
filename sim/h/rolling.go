package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// rolling: the nodes of a cluster are terminated and started again one after
// the other, as in an upgrade, while clients insert. Nothing may be lost.

func genRolling(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(2, 2, 3, 3, 4)
	p.Clients = 2
	nds := 1 + r.Intn(2)
	p.Set("nds", int64(nds))
	p.Set("dim", 2)
	CalmSched(p, int64(r.Pick(2000, 20000)))
	for d := 0; d < nds; d++ {
		setDS(p, d, int64(r.Pick(1000, 100000)), int64(r.Pick(0, 400, 900)), r.Bool(0.5), int64(r.Pick(0, 1, 1, 2)), r.Bool(0.6))
	}
	p.Set("sigint", int64(r.Intn(4)/3))
	if r.Bool(0.3) {
		p.Set("names", int64(1+r.Intn(2)))
	}
	rounds := 2 + r.Intn(3)
	key := 0
	last := -1
	for k := 0; k < rounds; k++ {
		nd := r.Intn(p.Nodes)
		if nd == last {
			nd = (nd + 1) % p.Nodes
		}
		last = nd
		// TTL: how long it is down; Val: how long it then runs (seconds)
		p.Ops = append(p.Ops, Op{At: int64(k) * 100, Kind: "roll", N: nd, TTL: r.Range(0, 120), Val: int(r.Range(5, 300))})
		for i := r.Intn(25); i > 0; i-- {
			op := Op{At: int64(k)*100 + r.Range(0, 60), Kind: "ins", C: r.Intn(2), N: r.Intn(p.Nodes), DS: r.Intn(nds), Key: key, Val: key}
			if r.Bool(0.2) {
				op.TTL = r.Range(9000, 50000)
			}
			key++
			p.Ops = append(p.Ops, op)
		}
	}
	sortOps(p)
}

func mainRolling(e *Env) {
	st := &termState{termAt: map[int]time.Duration{}, bad: map[int]bool{}}
	e.X = st
	nds := int(e.K("nds"))
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, nds, 1)
		for _, n := range e.Nodes { // a dataset without entries is dropped, and its peers forgotten
			for d := 0; d < nds; d++ {
				x := mk(d, 9000+n.I, 0, 2)
				err := c.Insert(n, dsName(d), x, &pb.InsertConfig{Count: 1}, Sec(10))
				st.ins = append(st.ins, &Ins{DS: d, Key: KeyOf(x), Val: ValOf(x), Node: n.I, Ret: simrt.Now(), Acked: err == nil})
			}
		}
	})
	e.WaitAll(Sec(300))
	started := make([]time.Duration, len(e.Nodes))
	insert := func(c *Client, op *Op) {
		n := e.node(op.N)
		if !n.Up() {
			return
		}
		d := mk(op.DS, op.Key, op.Val, 2)
		in := &Ins{DS: op.DS, K: op.Key, V: op.Val, Key: KeyOf(d), Val: ValOf(d), Node: op.N, TTL: op.TTL, Inv: simrt.Now()}
		st.ins = append(st.ins, in)
		err := c.Insert(n, dsName(op.DS), d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(60))
		in.Ret = simrt.Now()
		in.Acked = err == nil
	}
	check := func(c *Client, when string) {
		for d := 0; d < nds; d++ {
			all := map[string]string{}
			var missing *Ins
			for round := 0; round < 4; round++ { // entries may move meanwhile
				u, _, err := e.Union(c, dsName(d), Sec(100))
				if err != nil {
					e.Fail("unreadable", "%v", err)
					return
				}
				for k, l := range u {
					all[k] = ValOf(l[0])
				}
				missing = nil
				for _, in := range st.ins {
					if in.DS != d || !in.Acked {
						continue
					}
					v, ok := all[in.Key]
					if !ok {
						missing = in
					} else if v != in.Val {
						e.Fail("wrong-value", "%s %s=%s, written was %s", when, in.Key, v, in.Val)
					}
				}
				if missing == nil {
					break
				}
				simrt.Sleep(Sec(float64(3 + 4*round)))
			}
			e.Checked("kept-through-restarts")
			if missing != nil {
				e.Fail("lost-on-shutdown", "%s %s, acknowledged by node%d at %v, is on no running node (last signals: %v)", when, missing.Key, missing.Node, missing.Ret, st.termAt)
				return
			}
		}
	}
	for i := range e.P.Ops {
		roll := &e.P.Ops[i]
		if roll.Kind != "roll" {
			continue
		}
		n := e.node(roll.N)
		SleepUntil(started[n.I] + Sec(430)) // it knows its peers
		base := simrt.Now()
		e.Go(c, func() {
			for j := range e.P.Ops { // half of the inserts before the signal, the others around it
				if op := &e.P.Ops[j]; op.Kind == "ins" && op.C == 0 && op.At/100 == roll.At/100 {
					insert(c, op)
				}
			}
			st.termAt[n.I] = simrt.Now()
			n.Term()
		})
		e.Go(e.Clients[1], func() {
			for j := range e.P.Ops {
				if op := &e.P.Ops[j]; op.Kind == "ins" && op.C == 1 && op.At/100 == roll.At/100 {
					SleepUntil(base + Ms(op.At%100))
					insert(e.Clients[1], op)
				}
			}
		})
		e.WaitAll(Sec(2000))
		p := n.Proc
		bound := Sec(60) + time.Duration(nds*(len(e.Nodes)-1))*Sec(35) + time.Duration(len(st.ins)+10)*Ms(300)
		for !p.Dead && simrt.Now() < st.termAt[n.I]+bound {
			simrt.Sleep(Sec(1))
		}
		e.Checked("exited")
		if !p.Dead {
			e.Fail("no-exit", "node%d was told to terminate at %v and still runs at %v", n.I, st.termAt[n.I], simrt.Now())
			return
		}
		if p.Code != 0 {
			e.Fail("exit-code", "node%d exits with status %d", n.I, p.Code)
		}
		e.Go(c, func() { check(c, fmt.Sprintf("after node%d stopped,", n.I)) })
		e.WaitAll(Sec(2000))
		simrt.Sleep(Sec(float64(roll.TTL)))
		n.Start()
		started[n.I] = simrt.Now()
		simrt.Sleep(Sec(float64(roll.Val)))
		e.Go(c, func() { check(c, fmt.Sprintf("after node%d is back,", n.I)) })
		e.WaitAll(Sec(2000))
	}
}

func init() {
	Register(&Scenario{Name: "rolling", Gen: genRolling, Main: mainRolling, Do: func(*Env, *Client, *Op) {}})
}

package h

import (
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// storm: many entries of one node expire in the same second, while readers
// walk over them and clients insert the same keys again. Decides parts of C01
// (the new entries stay), C05 (per-key order) and C06 (lifetimes).

type stormState struct {
	ttlState
	of   map[*ttlIns]int // storm+1 of a first insert
	exp  map[int]int64   // storm -> unix second in which its entries expire
	left map[int]int     // storm -> first inserts that are not done
}

func genStorm(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 8
	p.Set("dim", 3)
	setDS(p, 0, 100000, 400, r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.3))
	p.Set("skew0", r.Range(0, 999))
	CalmSched(p, int64(r.Pick(300, 2000, 20000)))
	p.Net.LatUS = int64(r.Pick(20, 50, 200))
	p.Net.JitterUS = int64(r.Pick(20, 100, 500))
	p.Set("fill", int64(r.Pick(0, 0, 3, 20)))
	w := int64(r.Pick(200, 600, 2000))
	if r.Bool(0.5) {
		p.Set("aligned", 1) // a storm's inserts begin with a second
	}
	storms := 2 + r.Intn(6)
	for s := 0; s < storms; s++ {
		at := int64(s)*20000 + r.Range(0, 9000)
		ttl := r.Range(2, 7)
		keys := r.Pick(3, 10, 25)
		for k := 0; k < keys; k++ {
			key := s*1000 + k
			p.Ops = append(p.Ops, Op{At: at, C: 0, Kind: "ins", Key: key, Val: r.Intn(2), TTL: ttl, DS: s})
			if r.Bool(0.8) {
				p.Ops = append(p.Ops, Op{At: at + (ttl-1)*1000, C: 4 + r.Intn(4), Kind: "ins", Key: key, Val: r.Intn(2), TTL: int64(r.Pick(0, 0, 0, 60, 3600)), DS: s, S: "exp", N: int(r.Range(-w, w))})
			}
		}
		for i := 1 + r.Intn(5); i > 0; i-- {
			p.Ops = append(p.Ops, Op{At: at + (ttl-1)*1000, C: 1 + r.Intn(3), Kind: pickStr(r, "stream", "stream", "search"), DS: s, S: "exp", N: int(r.Range(-w, w))})
		}
		p.Ops = append(p.Ops, Op{At: at + (ttl+2)*1000, C: 1 + r.Intn(3), Kind: pickStr(r, "stream", "search")})
	}
	sortOps(p)
}

func doStorm(e *Env, c *Client, op *Op) {
	st := e.X.(*stormState)
	n := e.Nodes[0]
	wall := n.Proc.Wall
	if op.S == "exp" {
		x, ok := st.exp[op.DS]
		if !ok {
			return
		}
		for wait := 0; st.left[op.DS] > 0; wait++ { // its entries are being inserted
			if wait > 1000 {
				return
			}
			simrt.Sleep(50 * time.Millisecond)
		}
		if e.K("aligned") == 1 {
			// when the last of them must be gone
			t := time.Duration(0)
			for _, l := range st.by {
				if in := l[0]; st.of[in] == op.DS+1 && in.ret+time.Duration(in.ttl)*time.Second > t {
					t = in.ret + time.Duration(in.ttl)*time.Second
				}
			}
			x = 0
			SleepUntil(t + time.Duration(op.N)*time.Microsecond)
		}
		d := time.Unix(x, 0).Sub(wall()) + time.Duration(op.N)*time.Microsecond
		if d > 0 {
			simrt.Sleep(d)
		}
	} else if op.Kind == "ins" {
		if _, ok := st.exp[op.DS]; !ok {
			if e.K("aligned") == 1 {
				simrt.Sleep(time.Second - time.Duration(wall().Nanosecond()))
			}
			st.exp[op.DS] = wall().Unix() + op.TTL
		}
	}
	inv := simrt.Now()
	switch op.Kind {
	case "ins":
		d := mk(0, op.Key, op.Val, 3)
		in := &ttlIns{key: KeyOf(d), val: ValOf(d), ttl: uint64(op.TTL), inv: inv}
		st.by[in.key] = append(st.by[in.key], in)
		if op.S == "" {
			st.of[in] = op.DS + 1
			defer func() { st.left[op.DS]-- }()
		}
		err := c.Insert(n, dsName(0), d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(60))
		in.ok, in.ret = err == nil, simrt.Now()
	case "stream":
		l, err := c.Stream(n, dsName(0), Sec(30), 0, 0)
		if err == nil {
			e.checkTTL(&st.ttlState, linListing(l), inv, simrt.Now(), "stream")
		}
	case "search":
		l, err := c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(0, 1, 0, 3)}, Config: &pb.SearchConfig{DataName: dsName(0), Limit: 10000, Timeout: 60000, ScoreFuncName: "VectorDistance"}}, Sec(70))
		if err == nil && simrt.Now()-inv < Sec(40) {
			m := map[string]string{}
			for _, s := range l {
				m[KeyOf(s.Datum)] = ValOf(s.Datum)
			}
			e.checkTTL(&st.ttlState, m, inv, simrt.Now(), "search")
		}
	}
}

func mainStorm(e *Env) {
	st := &stormState{ttlState: ttlState{by: map[string][]*ttlIns{}}, exp: map[int]int64{}, of: map[*ttlIns]int{}, left: map[int]int{}}
	for i := range e.P.Ops {
		if op := &e.P.Ops[i]; op.Kind == "ins" && op.S == "" {
			st.left[op.DS]++
		}
	}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(30))
		e.CreateAll(c, 1, 1)
		for i := 0; i < int(e.K("fill")); i++ {
			d := mk(0, 100000+i, 1, 3)
			in := &ttlIns{key: KeyOf(d), val: ValOf(d), inv: simrt.Now()}
			st.by[in.key] = append(st.by[in.key], in)
			err := c.Insert(e.Nodes[0], dsName(0), d, &pb.InsertConfig{}, Sec(60))
			in.ok, in.ret = err == nil, simrt.Now()
		}
	})
	e.WaitAll(Sec(300))
	e.RunOps(simrt.Now(), Sec(3000))
	simrt.Sleep(Sec(2))
	e.Go(c, func() {
		inv := simrt.Now()
		l, err := e.StreamRetry(c, e.Nodes[0], dsName(0), Sec(100))
		if err == nil {
			e.checkTTL(&st.ttlState, linListing(l), inv, simrt.Now(), "final stream")
		}
	})
	e.WaitAll(Sec(300))
}

// ---- retention ------------------------------------------------------------------------------

// retain: entries without a lifetime stay for hours of idling, until the
// dataset's retention (two weeks when not configured) ends.

func genRetain(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = r.Pick(1, 1, 1, 2), 1
	p.Set("dim", 3)
	p.Set("nds", 1)
	p.Sched.StallP, p.Sched.HotSites = 0, 0
	setDS(p, 0, int64(r.Pick(20, 1000)), int64(r.Pick(200, 400)), r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.3))
	ret := int64(0)
	hours := r.Range(5, 30)
	if p.Nodes == 1 && r.Bool(0.1) {
		hours = r.Range(100, 335)
	}
	if r.Bool(0.5) {
		ret = r.Range(2000, 60000)
		if hours*3600 > ret {
			hours = 0
		}
	}
	if hours > 0 && r.Bool(0.15) { // for ever
		ret = int64(r.Pick(1<<33, 1<<34+1<<31, 1<<62)) + r.Range(0, 5000)
		if r.Bool(0.5) { // 2^64 ns and a bit
			ret = 18446744074*int64(1+r.Intn(3)) + r.Range(0, 5000)
		}
	}
	if p.Nodes == 1 && r.Bool(0.2) { // most of the time passes at once
		ret = int64(r.LogDur(90000, 2000000000))
		p.Set("jump", ret/100*r.Range(5, 95))
		hours = r.Range(0, 1)
	}
	p.Set("ds0_ret", ret)
	p.Set("idle", hours*3600)
	n := 1 + r.Intn(8)
	for i := 0; i < n; i++ {
		op := Op{At: r.Range(0, 30000), Kind: "ins", Key: i, Val: 1, N: r.Intn(p.Nodes)}
		if p.Get("jump") > 0 {
			op.At = 0
		} else if r.Bool(0.3) {
			op.TTL = r.Range(2000000, 9000000)
		}
		p.Ops = append(p.Ops, op)
	}
	sortOps(p)
}

func mainRetain(e *Env) {
	t0 := simrt.Now()
	st := startKeep(e)
	e.RunOps(simrt.Now(), Sec(7200))
	end := t0 + Sec(float64(e.K("idle")))
	if j := e.K("jump"); j > 0 {
		simrt.Sleep(Sec(20))
		e.Nodes[0].Proc.ClockJump(time.Duration(j) * time.Second)
		simrt.Sleep(Sec(150))
	} else if e.K("idle") == 0 {
		end = t0 + Sec(float64(e.K("ds0_ret"))-300)
	}
	SleepUntil(end)
	e.Go(e.Clients[0], func() { e.checkKept(e.Clients[0], 0, st.ins) })
	e.WaitAll(Sec(3600))
}

// ttllong: lifetimes of hours and days on one node.

func genTTLLong(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 1
	p.Sched.StallP, p.Sched.HotSites = 0, 0
	setDS(p, 0, 100000, 400, r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.5))
	n := 1 + r.Intn(8)
	for i := 0; i < n; i++ {
		ttl := r.Range(1000, 60000)
		if r.Bool(0.4) {
			ttl = r.Range(60000, 300000)
		}
		at := r.Range(0, 60000)
		p.Ops = append(p.Ops, Op{At: at, Kind: "ins", Key: i, Val: 1, TTL: ttl})
		for j := 0; j < 2; j++ {
			p.Ops = append(p.Ops, Op{At: at + ttl*1000 + r.Range(-5000, 5000), Kind: pickStr(r, "stream", "search")})
		}
	}
	p.Ops = append(p.Ops, Op{At: r.Range(0, 60000), Kind: "ins", Key: n, Val: 1})
	sortOps(p)
}

func mainTTLLong(e *Env) {
	st := &ttlState{by: map[string][]*ttlIns{}}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(30))
		e.CreateAll(c, 1, 1)
		if e.K("anchor") == 1 { // the dataset with its retention stays
			doTTL(e, c, &Op{Kind: "ins", Key: 100, Val: 1})
		}
	})
	e.WaitAll(Sec(300))
	e.RunOps(simrt.Now(), 400000*time.Second)
}

// ttljump: lifetimes of up to many years; the node's clock is set forward to
// instants before and after their ends.

func genTTLJump(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 1
	p.Sched.StallP, p.Sched.HotSites = 0, 0
	setDS(p, 0, 100000, 400, r.Bool(0.5), int64(r.Intn(2)), r.Bool(0.5))
	p.Set("ds0_ret", 3000000000)
	p.Set("anchor", 1)
	at, clk := int64(0), int64(0)
	end := map[int]int64{}
	ins := func(k int) {
		ttl := int64(r.LogDur(600, 300000000))
		if r.Bool(0.1) {
			ttl = 0
		}
		end[k] = clk + ttl
		p.Ops = append(p.Ops, Op{At: at, Kind: "ins", Key: k, Val: r.Intn(2), TTL: ttl})
		at += r.Range(100, 5000)
	}
	n := 1 + r.Intn(8)
	for k := 0; k < n; k++ {
		ins(k)
	}
	for i := 2 + r.Intn(8); i > 0; i-- {
		k := r.Intn(n)
		by := end[k] - clk
		off := int64(r.LogDur(30, 400))
		if r.Bool(0.3) {
			off = by / int64(r.Pick(2, 3, 10)) // well before
		} else if r.Bool(0.4) {
			off = -off
		}
		if by -= off; by > 0 && clk+by < 1200000000 {
			clk += by
			p.Ops = append(p.Ops, Op{At: at, Kind: "jump", TTL: by})
			at += int64(r.Pick(1, 1000, 30000, 120000))
		}
		for _, x := range []string{"stream", "search"} {
			p.Ops = append(p.Ops, Op{At: at, Kind: x})
			at += r.Range(1, 5000)
		}
		if r.Bool(0.3) {
			ins(r.Intn(n))
		}
	}
}

func init() {
	Register(&Scenario{Name: "ttljump", Gen: genTTLJump, Main: mainTTLLong, Do: doTTL})
	Register(&Scenario{Name: "ttllong", Gen: genTTLLong, Main: mainTTLLong, Do: doTTL})
	Register(&Scenario{Name: "storm", Gen: genStorm, Main: mainStorm, Do: doStorm})
	Register(&Scenario{Name: "retain", Gen: genRetain, Main: mainRetain, Do: doKeep})
}

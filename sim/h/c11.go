package h

import (
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C11: a data stream delivers every stored entry exactly once.

type streamState struct {
	ins map[string]*Ins // key -> first acknowledged insert
	val map[string]map[string]bool
}

func genStream(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 2+r.Intn(4)
	p.Set("dim", 3)
	setDS(p, 0, 100000, 400, true, 0, false)
	n0 := r.Pick(0, 1, 3, 99, 100, 101, 150, 400)
	if r.Bool(0.06) {
		n0 = r.Pick(1000, 1300)
	}
	p.Set("fill", int64(n0))
	if r.Bool(0.4) {
		p.Set("pad", int64(r.Pick(500, 2000, 5000)))
	}
	p.Set("start", int64(r.Pick(3, 55, 60, 63))*1000)
	span := r.Range(50, 12000)
	for i := 0; i < r.Pick(2, 6, 12); i++ {
		op := Op{At: r.Range(0, span), C: r.Intn(p.Clients), Kind: "stream"}
		switch r.Intn(5) {
		case 4:
			op.A = []int64{0, 0, int64(1 + r.Intn(20)), int64(r.LogDur(100, 90000))} // stops for a while
		case 0:
			op.A = []int64{int64(r.LogDur(10, 200000)), 0} // slow reader (µs per entry)
		case 1:
			op.A = []int64{int64(r.Pick(0, 100, 5000)), int64(1 + r.Intn(n0+2))} // abandons
		default:
			op.A = []int64{0, 0}
		}
		p.Ops = append(p.Ops, op)
	}
	for i := 0; i < r.Pick(0, 5, 40); i++ {
		k := n0 + i
		if r.Bool(0.3) && n0 > 0 {
			k = r.Intn(n0)
		}
		p.Ops = append(p.Ops, Op{At: r.Range(0, span), C: r.Intn(p.Clients), Kind: "ins", Key: k, Val: i + 1})
	}
	if r.Bool(0.3) { // and some that expire meanwhile
		for i := 0; i < r.Pick(3, 20); i++ {
			p.Ops = append(p.Ops, Op{At: r.Range(0, span), C: r.Intn(p.Clients), Kind: "ins", Key: 5000 + i, Val: i + 1, TTL: r.Range(1, 6)})
		}
	}
	sortOps(p)
	if r.Bool(0.4) {
		GenFaults(r, p, 1+r.Intn(3), 0, span, "pause", "slow", "loss", "rstp", "reset")
		for i := range p.Faults {
			if p.Faults[i].Dur > 15000 {
				p.Faults[i].Dur = 15000
			}
		}
	}
}

func doStream(e *Env, c *Client, op *Op) {
	st := e.X.(*streamState)
	n := e.Nodes[0]
	inv := simrt.Now()
	switch op.Kind {
	case "ins":
		d := mk(0, op.Key, op.Val, 3)
		if n := int(e.K("pad")); n > 0 { // large entries fill the connection's buffers
			d.Value.Label = append(d.Value.Label, strings.Repeat(" ", n)...)
		}
		k := KeyOf(d)
		if st.val[k] == nil {
			st.val[k] = map[string]bool{}
		}
		st.val[k][ValOf(d)] = true
		err := c.Insert(n, dsName(0), d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(60))
		if err == nil && st.ins[k] == nil && op.TTL == 0 {
			st.ins[k] = &Ins{Key: k, Inv: inv, Ret: simrt.Now()}
		}
	case "stream":
		before := map[string]bool{}
		for k := range st.ins {
			before[k] = true
		}
		think, max := time.Duration(0), 0
		if len(op.A) >= 2 {
			think, max = time.Duration(op.A[0])*time.Microsecond, int(op.A[1])
		}
		l, err := c.StreamP(n, dsName(0), Sec(600), func(i int) time.Duration {
			if len(op.A) == 4 && int64(i) == op.A[2] {
				return Ms(op.A[3])
			}
			return think
		}, max)
		if err == nil {
			e.checkStream(st, before, l, "stream")
		} else {
			e.W.Counters["stream_failed_or_abandoned"]++
		}
	}
}

func (e *Env) checkStream(st *streamState, before map[string]bool, l []*pb.Datum, who string) {
	seen := map[string]bool{}
	for _, d := range l {
		k := KeyOf(d)
		if seen[k] {
			e.Fail("delivered-twice", "%s delivered %s twice (%d entries)", who, k, len(l))
			return
		}
		seen[k] = true
		if !st.val[k][ValOf(d)] {
			e.Fail("foreign", "%s delivered %s=%s that nobody wrote", who, k, ValOf(d))
			return
		}
	}
	for _, k := range SortedKeys(before) {
		if !seen[k] {
			e.Fail("incomplete", "%s ended without error after %d entries but %s, stored all the time, is missing (%d were stored)", who, len(l), k, len(before))
			return
		}
	}
	e.Checked("complete-stream")
	if len(l) > 100 {
		e.Checked("stream>100")
	}
	e.Sample("%s %d entries", who, len(l))
}

func mainStream(e *Env) {
	st := &streamState{ins: map[string]*Ins{}, val: map[string]map[string]bool{}}
	e.X = st
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(30))
		e.CreateAll(c, 1, 1)
		for i := 0; i < int(e.K("fill")); i++ {
			doStream(e, c, &Op{Kind: "ins", Key: i, Val: 100000 + i})
		}
	})
	e.WaitAll(Sec(3000))
	base := Ms(e.K("start"))
	if base < simrt.Now() {
		base = simrt.Now()
	}
	e.InjectFaults(base)
	if !e.RunOps(base, Sec(20000)) {
		e.Fail("stuck", "streams or inserts did not finish")
		return
	}
	e.WaitFaults()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		before := map[string]bool{}
		for k := range st.ins {
			before[k] = true
		}
		l, err := e.StreamRetry(c, e.Nodes[0], dsName(0), Sec(100))
		if err != nil {
			e.Fail("unreadable", "no stream succeeds after faults ended: %v", err)
			return
		}
		e.checkStream(st, before, l, "final stream")
	})
	e.WaitAll(Sec(3000))
}

func init() {
	Register(&Scenario{Name: "stream", Gen: genStream, Main: mainStream, Do: doStream})
	AddProp(&Prop{ID: "C11", Scenarios: []string{"stream"}, Bounds: "one node, 0-1340 entries of up to 5 kB, up to 12 fast, slow, pausing or abandoned streams by 2-5 clients, up to 40 concurrent inserts"})
}

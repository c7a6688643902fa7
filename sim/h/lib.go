//go:build !nolib

package h

import (
	"fmt"

	"verisim/inst/data"
	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// ---- the library itself (with deletes, which have no RPC) ------------------------------------

func genLinLib(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 1
	keys := 1 + r.Intn(5)
	p.Set("keys", int64(keys))
	p.Set("threads", int64(2+r.Intn(4)))
	p.Set("fill", int64(r.Pick(0, 3, 30, 120)))
	p.Set("start", int64(r.Pick(1, 5, 60, 62, 66))*1000)
	span := r.Range(1, 4000)
	n := r.Pick(15, 40, 90)
	for i := 0; i < n; i++ {
		kind := pickStr(r, "ins", "ins", "ins", "del", "del", "stream", "stream", "search", "agg")
		p.Ops = append(p.Ops, Op{At: r.Range(0, span), C: r.Intn(int(p.Get("threads"))), Kind: kind, Key: r.Intn(keys), Val: i + 1})
	}
	sortOps(p)
}

func mainLinLib(e *Env) {
	st := &linState{by: map[string][]lop{}, keys: map[string]bool{}}
	for k := 0; k < int(e.K("keys")); k++ {
		st.keys[KeyOf(mk(0, k, 0, 3))] = true
	}
	w := e.W
	p := w.NewProc("library", e.Nodes[0].Host)
	left, started := 0, false
	var q simrt.WaitQ
	p.Start(func() {
		dt, err := data.NewData(&pb.DataConfig{Name: "lib", Version: 1, NoTarget: true}, "/data")
		if err != nil {
			e.Fail("create", "%v", err)
			return
		}
		for i := 0; i < int(e.K("fill")); i++ {
			d := mk(0, 1000+i, 1000000+i, 3)
			st.keys[KeyOf(d)] = true
			inv := simrt.Now()
			err := dt.Insert(d, &pb.InsertConfig{})
			st.add(KeyOf(d), lop{kind: 'w', val: ValOf(d), inv: inv, ret: simrt.Now(), open: err != nil, who: "fill"})
		}
		base := Ms(e.K("start"))
		for t := 0; t < int(e.K("threads")); t++ {
			t := t
			left++
			simrt.GoProc(p, fmt.Sprintf("thread%d", t), func() {
				for i := range e.P.Ops {
					op := &e.P.Ops[i]
					if op.C != t {
						continue
					}
					SleepUntil(base + Ms(op.At))
					libOp(e, st, dt, op, t)
				}
				left--
				q.WakeAll()
			})
		}
		started = true
		for {
			simrt.Sleep(Sec(3600)) // the process lives on
		}
	})
	for !started && !p.Dead {
		simrt.Sleep(Ms(100))
	}
	late := false
	w.After(Sec(600), func() { late = true; q.WakeAll() })
	for left > 0 && !late && !p.Dead {
		q.Wait("library threads")
	}
	if late && left > 0 {
		e.Fail("stuck", "library operations did not finish")
		return
	}
	e.checkLin(st)
}

func libOp(e *Env, st *linState, dt *data.Data, op *Op, t int) {
	who := fmt.Sprintf("%s/t%d", op.Kind, t)
	inv := simrt.Now()
	d := mk(0, op.Key, op.Val, 3)
	k, v := KeyOf(d), ValOf(d)
	// reads own the channel ends; the simulated channel type is what the code uses
	switch op.Kind {
	case "ins":
		err := dt.Insert(d, &pb.InsertConfig{})
		st.add(k, lop{kind: 'w', val: v, inv: inv, ret: simrt.Now(), open: err != nil, who: who})
	case "del":
		err := dt.Delete(d)
		st.add(k, lop{kind: 'd', inv: inv, ret: simrt.Now(), open: err != nil, who: who})
	case "stream":
		l := libStream(dt)
		if firstDup(l) == "" {
			e.reads(st, linListing(l), inv, simrt.Now(), who)
		}
	case "search":
		c := dt.Search(mk(0, 1, 0, 3), &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 100000, Timeout: 10000}, nil)
		m := map[string]string{}
		for _, s := range c.List {
			m[KeyOf(s.Datum)] = ValOf(s.Datum)
		}
		e.reads(st, m, inv, simrt.Now(), who)
	case "agg":
		l, err := dt.MultiAggregatedSearch([]*pb.Datum{mk(0, 1, 0, 3)}, &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 100000, Timeout: 100000}, nil)
		if err == nil {
			m := map[string]string{}
			for _, s := range l {
				m[KeyOf(s.Datum)] = ValOf(s.Datum)
			}
			e.reads(st, m, inv, simrt.Now(), who)
		}
	}
	simrt.Tracef("%s key=%s val=%s", who, k, v)
}

func libStream(dt *data.Data) (l []*pb.Datum) {
	ch := make(chan *pb.Datum, 10)
	simrt.GoProc(simrt.CurProc(), "streamall", func() {
		dt.StreamAll(ch)
		simrt.Close(ch)
	})
	for {
		d, ok := simrt.Recv2(ch)
		if !ok {
			return
		}
		l = append(l, d)
	}
}

func init() {
	Register(&Scenario{Name: "linlib", Gen: genLinLib, Main: mainLinLib})
	libScenarios = append(libScenarios, [2]string{"C05", "linlib"})
}

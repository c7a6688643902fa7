package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C19: a node that joins empty gets a share of everything, without any client.

func genSpread(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(2, 2, 2, 3, 4)
	p.Clients = 1
	dim := r.Pick(1, 2, 3, 1, 2, 3, 100)
	p.Set("dim", int64(dim))
	CalmSched(p, 3000)
	nds := r.Pick(1, 1, 2, 3)
	if r.Bool(0.05) {
		nds = r.Pick(9, 17, 40)
	}
	p.Set("nds", int64(nds))
	p.Set("empty", int64(r.Pick(1, 1, p.Nodes-1))) // nodes without data
	p.Set("late_ms", int64(r.Pick(0, 0, 3000, 70000, 700000)))
	for d := 0; d < nds; d++ {
		setDS(p, d, int64(r.Pick(100, 1000, 100000)), int64(r.Pick(0, 400, 900)), r.Bool(0.6), 0, false)
		n := r.Pick(25, 40, 60, 120)
		if nds > 3 {
			n = 25
		}
		if t := p.Get(fmt.Sprintf("ds%d_target", d)); int64(n) > t {
			n = int(t)
		}
		ttl := int64(0)
		if r.Bool(0.3) {
			ttl = int64(r.Pick(100000, 1000000))
		}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{N: r.Intn(p.Nodes - int(p.Get("empty"))), Kind: "ins", Key: 2 * i, Val: i, DS: d, TTL: ttl})
		}
	}
	for i := 0; i < p.Nodes; i++ {
		if r.Bool(0.3) {
			p.Set(fmt.Sprintf("skew%d", i), r.Range(-20000, 20000))
		}
	}
}

func mainSpread(e *Env) {
	c := e.Clients[0]
	nds := int(e.K("nds"))
	full := len(e.Nodes) - int(e.K("empty"))
	for i, n := range e.Nodes {
		n.Bcast = n.Addr
		for j, m := range e.Nodes {
			if j != i {
				if n.Serv != "" {
					n.Serv += ","
				}
				n.Serv += m.Addr
			}
		}
	}
	for _, n := range e.Nodes[:full] {
		n.Start()
	}
	orig := make([]map[string]string, nds)
	for d := range orig {
		orig[d] = map[string]string{}
	}
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, nds, 1, e.Nodes[:full]...)
		for i := range e.P.Ops {
			op := &e.P.Ops[i]
			d := mk(op.DS, op.Key, op.Val, int(e.K("dim")))
			if c.Insert(e.Nodes[op.N], dsName(op.DS), d, &pb.InsertConfig{TTL: uint64(op.TTL), Count: 1}, Sec(10)) == nil {
				orig[op.DS][KeyOf(d)] = ValOf(d)
			}
		}
	})
	e.WaitAll(Sec(300))
	simrt.Sleep(Ms(e.K("late_ms")))
	for _, n := range e.Nodes[full:] {
		n.Start()
	}
	join := simrt.Now()
	// every dataset on every node has something
	got := map[string]time.Duration{}
	todo := len(e.Nodes[full:]) * nds
	check := func() {
		for _, n := range e.Nodes {
			for d := 0; d < nds; d++ {
				k := fmt.Sprintf("%d/%d", n.I, d)
				if _, ok := got[k]; ok && n.I >= full {
					continue
				}
				l, err := c.Stream(n, dsName(d), Sec(30), 0, 0)
				if err != nil {
					continue
				}
				for _, x := range l {
					if orig[d][KeyOf(x)] != ValOf(x) {
						e.Fail("foreign", "node%d holds %s in %s, which nobody inserted there", n.I, DatumStr(x), dsName(d))
						return
					}
				}
				e.Checked("copies")
				if n.I >= full && len(l) > 0 {
					got[k] = simrt.Now() - join
					todo--
				}
			}
		}
	}
	const limit = 6
	e.Go(c, func() {
		for simrt.Now()-join < limit*time.Hour && todo > 0 && len(e.Viol) == 0 {
			simrt.Sleep(Sec(600))
			check()
		}
	})
	e.WaitAll((limit + 2) * time.Hour)
	if len(e.Viol) > 0 {
		return
	}
	e.Checked("spread")
	if todo > 0 {
		for _, n := range e.Nodes[full:] {
			for d := 0; d < nds; d++ {
				if _, ok := got[fmt.Sprintf("%d/%d", n.I, d)]; !ok && len(orig[d]) > 0 {
					e.Fail("not-spread", "%d h after it joined node%d has none of the %d entries of %s", limit, n.I, len(orig[d]), dsName(d))
					return
				}
			}
		}
	}
	worst := time.Duration(0)
	for _, t := range got {
		if t > worst {
			worst = t
		}
	}
	e.W.Counters[fmt.Sprintf("spread_h_%02d", int(worst.Hours()))]++
	e.Sample("%d empty nodes got entries of %d datasets within %v", len(e.Nodes)-full, nds, worst)
	// all entries are still there
	e.Go(c, func() {
		for d := 0; d < nds; d++ {
			miss := map[string]bool{}
			for k := range orig[d] {
				miss[k] = true
			}
			for round := 0; round < 6 && len(miss) > 0; round++ { // entries may move meanwhile
				all, _, err := e.Union(c, dsName(d), Sec(60))
				if err != nil {
					e.Fail("unreadable", "%v", err)
					return
				}
				for k := range all {
					delete(miss, k)
				}
				simrt.Sleep(Sec(float64(7 * round)))
			}
			if l := SortedKeys(miss); len(l) > 0 {
				e.Fail("lost", "%s of %s is on no node any more", l[0], dsName(d))
				return
			}
		}
	})
	e.WaitAll(Sec(6000))
}

func init() {
	Register(&Scenario{Name: "spread", Gen: genSpread, Main: mainSpread})
	AddProp(&Prop{ID: "C19", Scenarios: []string{"spread"}, Bounds: "2-4 nodes of which one or more join empty, 1-3 datasets (sometimes up to 40) of 25-120 entries with and without lifetime and size target, clock skew up to 20 s; entries of every dataset arrive within 6 h"})
}

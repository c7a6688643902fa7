package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C01: acknowledged inserts are never lost by background work.
// C18: rebalancing respects the lower threshold (same workload, other oracle).

type keepState struct {
	frozen map[[2]int]time.Duration // node, dataset -> when it acknowledged the removal of the target
	ins    []*Ins
	// per dataset and key: excluded from the oracle
	skip map[string]bool
	ver  []uint64
}

func genKeep(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 2, 2, 3, 3, 4)
	p.Clients = 1 + r.Intn(3)
	nds := 1 + r.Intn(3)
	p.Set("nds", int64(nds))
	for d := 0; d < nds; d++ {
		rep := int64(r.Pick(0, 0, 1, 1, 2))
		if p.Nodes == 1 && rep > 1 {
			rep = 1
		}
		target := r.Pick(10, 20, 60, 60, 200, 1000)
		setDS(p, d, int64(target), int64(r.Pick(0, 100, 200, 400, 800, 1000)), r.Bool(0.25), rep, r.Bool(0.6))
	}
	p.Set("dim", int64(r.Pick(2, 3, 4, 2, 3, 4, 2, 3, 4, 128)))
	p.Set("latecreate", int64(r.Intn(2)))
	p.Set("settle", r.Range(20, 200))
	for i := 0; i < p.Nodes; i++ {
		if r.Bool(0.3) {
			p.Set(fmt.Sprintf("skew%d", i), r.Range(-3000, 3000))
		}
	}
	span := r.Range(60, 500) * 1000
	n := r.Pick(20, 60, 120, 250)
	hot := r.Intn(p.Nodes) // most inserts go to one node
	bias := r.Float64()
	keys := 10 + r.Intn(2*n)
	val := 0
	// bursts: times cluster around a few instants
	var centres []int64
	for i := 0; i < 1+r.Intn(8); i++ {
		centres = append(centres, r.Range(0, span))
	}
	wide := r.Bool(0.5)
	shortKey := map[string]bool{}
	for i := 0; i < n; i++ {
		val++
		at := r.Range(0, span)
		if !wide {
			at = centres[r.Intn(len(centres))] + r.Range(0, 6000)
		}
		nd := r.Intn(p.Nodes)
		if r.Float64() < bias {
			nd = hot
		}
		ds := r.Intn(nds)
		c := r.Intn(p.Clients)
		k := r.Intn(keys)
		op := Op{At: at, C: c, N: nd, Kind: "ins", DS: ds, Key: k, Val: val}
		if r.Bool(0.1) {
			op.TTL = r.Range(7200, 100000)
		}
		if !shortKey[fmt.Sprint(ds, k)] {
			p.Ops = append(p.Ops, op)
		}
		// short-lived entries that are inserted again for good when (or before,
		// or after) they expire; one client and node per key and no copies, so
		// that a delayed copy of the short-lived one can not come afterwards
		if r.Bool(0.15) && p.Get(fmt.Sprintf("ds%d_enf", ds)) == 0 {
			sk := 100000 + i
			shortKey[fmt.Sprint(ds, sk)] = true
			ttl := r.Range(1, 10)
			val++
			p.Ops = append(p.Ops, Op{At: at, C: c, N: nd, Kind: "ins", DS: ds, Key: sk, Val: val, TTL: ttl})
			if r.Bool(0.7) {
				v := val
				if r.Bool(0.5) {
					val++
					v = val
				}
				p.Ops = append(p.Ops, Op{At: at + ttl*1000 + r.Range(-1500, 1500), C: c, N: nd, Kind: "ins", DS: ds, Key: sk, Val: v})
			}
		}
		if r.Bool(0.04) {
			p.Ops = append(p.Ops, Op{At: at, C: c, N: r.Intn(p.Nodes), Kind: pickStr(r, "stream", "info", "search"), DS: r.Intn(nds)})
		}
		if r.Bool(0.02) {
			p.Ops = append(p.Ops, Op{At: at, C: c, N: nd, Kind: "cfg", DS: ds})
		}
	}
	sortOps(p)
	if p.Nodes > 1 {
		GenFaults(r, p, r.Pick(0, 0, 1, 3, 8), 0, span+60000, "pause", "part", "oneway", "isolate", "reset", "slow", "loss", "rstp")
	} else if r.Bool(0.5) {
		GenFaults(r, p, r.Pick(1, 3), 0, span, "pause", "reset", "slow", "loss")
	}
}

func doKeep(e *Env, c *Client, op *Op) {
	st := e.X.(*keepState)
	n := e.node(op.N)
	ds := dsName(op.DS)
	dim := int(e.K("dim"))
	switch op.Kind {
	case "ins":
		d := mk(op.DS, op.Key, op.Val, dim)
		in := &Ins{DS: op.DS, K: op.Key, V: op.Val, Key: KeyOf(d), Val: ValOf(d), Node: op.N, TTL: op.TTL, Inv: simrt.Now()}
		st.ins = append(st.ins, in)
		err := c.Insert(n, ds, d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(60))
		in.Ret = simrt.Now()
		in.Acked = err == nil
		if err != nil {
			in.Err = err.Error()
		}
	case "stream":
		c.Stream(n, ds, Sec(20), 0, 0)
	case "info":
		c.Info(n, ds, Sec(20))
	case "search":
		c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{mk(op.DS, 1, 0, dim)}, Config: &pb.SearchConfig{DataName: ds, Limit: 5, Timeout: 2000, ScoreFuncName: "AnnoyAngularDistance", HigherIsBetter: true}}, Sec(20))
	case "freeze":
		for i, n := range e.Nodes {
			cfg := dsCfg(e.P, op.DS, 2)
			if op.Val == 0 {
				cfg.NoTarget = true
			} else {
				cfg.TargetN, cfg.TargetUtilization = 1000000, 0.5
			}
			if _, err := c.Create(n, cfg, Sec(60)); err == nil {
				if st.frozen == nil {
					st.frozen = map[[2]int]time.Duration{}
				}
				st.frozen[[2]int{i, op.DS}] = simrt.Now()
			}
		}
	case "cfg":
		st.ver[op.DS]++
		c.Create(n, dsCfg(e.P, op.DS, st.ver[op.DS]), Sec(20))
	}
}

func startKeep(e *Env) *keepState {
	nds := int(e.K("nds"))
	st := &keepState{ver: make([]uint64, nds)}
	e.X = st
	for i := range st.ver {
		st.ver[i] = 1
	}
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(2))
	done := false
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		if e.K("latecreate") == 1 {
			simrt.Sleep(Sec(70))
		}
		e.CreateAll(c, nds, 1)
		done = true
	})
	e.WaitAll(Sec(600))
	_ = done
	return st
}

func mainKeep(e *Env) {
	st := startKeep(e)
	nds := int(e.K("nds"))
	base := simrt.Now()
	e.InjectFaults(base)
	e.RunOps(base, Sec(7200))
	e.WaitFaults()
	simrt.Sleep(Sec(float64(e.K("settle"))))
	e.Go(e.Clients[0], func() {
		c := e.Clients[0]
		for d := 0; d < nds; d++ {
			e.checkKept(c, d, st.ins)
		}
	})
	e.WaitAll(Sec(7200))
}

// checkKept: every key of dataset d whose permanent insert was acknowledged is
// stored somewhere, with a value somebody wrote.
func (e *Env) checkKept(c *Client, d int, ins []*Ins) {
	need := map[string]*Ins{}
	vals := map[string]map[string]bool{}
	for _, in := range ins {
		if in.DS != d {
			continue
		}
		if vals[in.Key] == nil {
			vals[in.Key] = map[string]bool{}
		}
		vals[in.Key][in.Val] = true
	}
	bad := map[string]bool{}
	for _, in := range ins {
		if in.DS != d {
			continue
		}
		if in.TTL != 0 && in.TTL < 3600 {
			if in.Acked {
				delete(need, in.Key)
			} else {
				bad[in.Key] = true // may take effect at any later time
			}
			continue
		}
		if in.Acked {
			need[in.Key] = in
		}
	}
	for k := range bad {
		delete(need, k)
	}
	if len(need) == 0 {
		return
	}
	var missing []string
	for round := 0; round < 6; round++ {
		all, per, err := e.Union(c, dsName(d), Sec(150))
		if err != nil {
			e.Fail("unreadable", "%v", err)
			return
		}
		missing = missing[:0]
		for _, k := range SortedKeys(keysOf(need)) {
			l := all[k]
			if len(l) == 0 {
				missing = append(missing, k)
				continue
			}
			for _, x := range l {
				if !vals[k][ValOf(x)] {
					e.Fail("foreign-value", "dataset %d key %s has value %s that nobody wrote", d, k, ValOf(x))
				}
			}
		}
		for k, l := range all {
			if vals[k] == nil {
				e.Fail("foreign-key", "dataset %d holds %s that nobody inserted", d, DatumStr(l[0]))
			}
		}
		if round == 0 {
			e.Checked("union")
			for range need {
				e.Checked("acked-key")
			}
			e.Sample("ds%d acked=%d %s", d, len(need), perStr(per))
		}
		if len(missing) == 0 {
			return
		}
		e.W.Counters["recheck"]++
		simrt.Sleep(Sec(7 + 9*float64(round)))
	}
	in := need[missing[0]]
	e.Fail("lost", "%d of %d acknowledged keys of %s are stored on no node, e.g. %s=%s inserted at node%d (acknowledged at %v)", len(missing), len(need), dsName(d), in.Key, in.Val, in.Node, in.Ret)
}

func perStr(per []map[string]string) string {
	s := "stored="
	for i, m := range per {
		if i > 0 {
			s += "/"
		}
		s += fmt.Sprint(len(m))
	}
	return s
}

func keysOf(m map[string]*Ins) map[string]bool {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

// ---- C18 ---------------------------------------------------------------------------------

func genFloor(r *simrt.RNG, p *Plan) {
	genKeep(r, p)
	// one client per node samples, entries are permanent, more nodes
	if p.Nodes == 1 {
		p.Nodes = 2
	}
	p.Clients = p.Nodes + 1
	for i := range p.Ops {
		p.Ops[i].TTL = 0
		p.Ops[i].C = 0
		if p.Ops[i].Kind == "cfg" {
			p.Ops[i].Kind = "info"
		}
	}
	p.Set("watch", r.Range(60, 400))
	if d := r.Intn(int(p.Get("nds"))); r.Bool(0.4) && p.Get(fmt.Sprintf("ds%d_notarget", d)) == 0 {
		// the size target is taken away, or raised beyond reach
		end := int64(0)
		for _, op := range p.Ops {
			if op.At > end {
				end = op.At
			}
		}
		p.Ops = append(p.Ops, Op{At: r.Range(0, end+60000), Kind: "freeze", DS: d, Val: r.Intn(2)})
		if r.Bool(0.5) { // transfers take long
			p.Net.LatUS = r.Range(20000, 100000)
		}
		sortOps(p)
	}
}

// settledBelow tells whether a node really stores fewer entries than a bound. Reading a
// dataset is not a snapshot: a read that overlaps with entries arriving and others leaving
// can return fewer than were stored at any one time. Three equal reads in a row cannot
// have overlapped with removals alone.
func (e *Env) settledBelow(c *Client, n *NodeH, ds string, bound int) bool {
	var prev map[string]bool
	for i := 0; i < 3; i++ {
		simrt.Sleep(Sec(0.4))
		l, err := c.Stream(n, ds, Sec(60), 0, 0)
		if err != nil || len(l) >= bound {
			return false
		}
		cur := map[string]bool{}
		for _, x := range l {
			cur[KeyOf(x)] = true
			if prev != nil && !prev[KeyOf(x)] {
				return false
			}
		}
		if prev != nil && len(prev) != len(cur) {
			return false
		}
		prev = cur
	}
	return true
}

func mainFloor(e *Env) {
	st := startKeep(e)
	nds := int(e.K("nds"))
	base := simrt.Now()
	e.InjectFaults(base)
	over := false
	sure := 1 // a removal that had been decided before the update is over
	for i := range e.P.Faults {
		if e.P.Faults[i].Kind == "pause" {
			sure = 2
		}
	}
	for i, n := range e.Nodes {
		i, n := i, n
		c := e.Clients[1+i]
		e.Go(c, func() {
			prev := make([]map[string]bool, nds)
			after := make([]int, nds) // samples since the target is gone
			for !over {
				for d := 0; d < nds; d++ {
					// the threshold of this dataset; its configuration never changes
					cfg := dsCfg(e.P, d, 1)
					if t := st.frozen[[2]int{i, d}]; t != 0 && simrt.Now() > t+Sec(0.1) && after[d] >= 0 {
						// on a node that holds entries a configuration never gets older
						if inf, err := c.Info(n, dsName(d), Sec(60)); err == nil && inf.GetVersion() == 2 && len(prev[d]) > 0 {
							after[d]++
						} else if after[d] > 0 {
							after[d] = -1
						}
					}
					l, err := c.Stream(n, dsName(d), Sec(60), 0, 0)
					if err != nil {
						continue
					}
					cur := map[string]bool{}
					for _, x := range l {
						cur[KeyOf(x)] = true
					}
					gone := 0
					ex := ""
					for k := range prev[d] {
						if !cur[k] {
							gone++
							if ex == "" || k < ex {
								ex = k
							}
						}
					}
					e.Checked("sample")
					if gone > 0 {
						e.Checked("shrunk")
						thr := int(float64(cfg.TargetN) * cfg.TargetUtilization)
						// A removal happens only while at least thr entries are stored,
						// so right after it at least thr-1 are. Entries added later only
						// increase that, and every later removal again needs thr.
						if after[d] > sure {
							e.Fail("evicted-after-update", "node%d dropped %d entries (e.g. %s) of %s although its size target was removed or raised at %v", i, gone, ex, cfg.Name, st.frozen[[2]int{i, d}])
						} else if cfg.NoTarget {
							e.Fail("evicted-without-target", "node%d dropped %d entries (e.g. %s) of %s that has no size target", i, gone, ex, cfg.Name)
						} else if len(cur) < thr-1 && e.settledBelow(c, n, dsName(d), thr-1) {
							e.Fail("evicted-below-threshold", "node%d dropped %d entries of %s and holds %d although it may not go below %d (target %d, utilization %v)", i, gone, cfg.Name, len(cur), thr, cfg.TargetN, cfg.TargetUtilization)
						}
					} else if after[d] > sure {
						e.Checked("kept-after-update")
					} else if prev[d] != nil {
						e.Checked("kept")
					}
					prev[d] = cur
				}
				fresh := false
				for d := 0; d < nds; d++ {
					if t := st.frozen[[2]int{i, d}]; t != 0 && simrt.Now() < t+Sec(30) {
						fresh = true
					}
				}
				if fresh {
					simrt.Sleep(Sec(0.7))
					continue
				}
				simrt.Sleep(Sec(4) + time.Duration(mix(e.P.Seed, uint64(simrt.Now()))%uint64(Sec(9))))
			}
		})
	}
	e.running -= len(e.Nodes) // the watchers do not count
	e.RunOps(base, Sec(7200))
	e.running += 0
	e.WaitFaults()
	simrt.Sleep(Sec(float64(e.K("watch"))))
	over = true
	e.running += len(e.Nodes)
	e.WaitAll(Sec(200))
	for d := 0; d < nds; d++ {
		d := d
		e.Go(e.Clients[0], func() { e.checkKept(e.Clients[0], d, e.X.(*keepState).ins) })
		e.WaitAll(Sec(7200))
	}
}

func sortOps(p *Plan) {
	// stable insertion by time keeps the drawn order of simultaneous operations
	ops := p.Ops
	for i := 1; i < len(ops); i++ {
		for j := i; j > 0 && ops[j].At < ops[j-1].At; j-- {
			ops[j], ops[j-1] = ops[j-1], ops[j]
		}
	}
}

func init() {
	Register(&Scenario{Name: "keep", Gen: genKeep, Main: mainKeep, Do: doKeep})
	Register(&Scenario{Name: "floor", Gen: genFloor, Main: mainFloor, Do: doKeep})
	AddProp(&Prop{ID: "C01", Scenarios: append(repeat("keep", "keep", "keep", "storm", "sweep", 6), "retain"), Bounds: "1-4 nodes, 1-3 datasets, up to 250 inserts (plus short-lived fillers) over up to 500 s, up to 8 faults, fixed vector dimension 2-4; up to 50 datasets filled while the empty ones are dropped; storms of up to 25 entries expiring in one second while being read and inserted again; idle periods of up to 30 h (one node: 335 h)"})
	AddProp(&Prop{ID: "C18", Scenarios: []string{"floor"}, Bounds: "2-4 nodes, 1-3 datasets whose configuration is constant or loses its size target once, up to 250 inserts, contents of every node sampled every 4-13 s"})
}

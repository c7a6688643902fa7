package h

import (
	"fmt"
	"math"
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C12: reported statistics are true and the size target limits inserts.

type statState struct {
	stored map[string]bool // acknowledged keys
	maybe  map[string]bool // outcome unknown
	vecs   map[string][]float32
	exp    map[string]time.Duration // keys with a lifetime
	last   time.Duration            // acknowledgement of the last insert
}

func genStat(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 1+r.Intn(3)
	p.Set("dim", int64(r.Pick(1, 2, 3, 8, 1, 2, 3, 8, 64)))
	p.Set("quiet", 100) // long stalls make the passes long
	if p.Get("dim") > 8 || r.Bool(0.5) {
		CalmSched(p, 5000)
		p.Set("quiet", 77)
	}
	target := r.Pick(1, 3, 10, 30, 100)
	setDS(p, 0, int64(target), int64(r.Pick(0, 400, 1000)), r.Bool(0.3), int64(r.Intn(2)), r.Bool(0.5))
	phases := 1 + r.Intn(4)
	p.Set("phases", int64(phases))
	p.Set("bump", 0)
	if r.Bool(0.3) {
		p.Set("bump", int64(r.Pick(5, 20, 1000))) // target raised in the middle
	}
	p.Set("long", int64(r.Intn(4))) // 0: check the long-run statistics
	p.Set("same", int64(r.Intn(3)))
	if r.Bool(0.2) { // vectors of two dimensions in one dataset
		p.Set("alt", 1)
	}
	keys := 1 + r.Intn(2*target+10)
	if r.Bool(0.1) { // a target nobody reaches
		p.Set("ds0_target", int64(r.Pick(1<<31, 1<<32, 1<<32+1, 1<<33, 1<<53, 1<<62)))
		p.Set("ds0_notarget", 0)
	}
	if r.Bool(0.35) {
		p.Set("exp", 1)
		if keys < 3 {
			keys = 3
		}
		p.Ops = append(p.Ops, Op{Kind: "ins"})
	}
	for ph := 0; ph < phases; ph++ {
		n := r.Intn(target + 10)
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{At: int64(ph), C: r.Intn(p.Clients), Kind: "ins", Key: r.Intn(keys), Val: r.Intn(5)})
		}
	}
	for i := range p.Ops {
		if p.Get("exp") == 1 {
			p.Ops[i].Val = 100 + i // every insert counts
			p.Ops[i].TTL = keyTTL(p.Ops[i].Key)
		}
	}
}

// keyTTL: in runs with lifetimes a third of the keys lives for ever, key 0 among them.
func keyTTL(k int) int64 {
	if k%3 == 0 {
		return 0
	}
	return int64(40 + k*37%700)
}

// alive counts the keys that may (or must) be alive at t.
func (st *statState) alive(t time.Duration, sure bool) (n int) {
	for k := range st.stored {
		if st.aliveKey(k, t, sure) {
			n++
		}
	}
	return
}

func (st *statState) aliveKey(k string, t time.Duration, sure bool) bool {
	x, ok := st.exp[k]
	if !ok {
		return true
	}
	if sure {
		return x-Sec(12) > t
	}
	return x+Sec(3) > t
}

func mainStat(e *Env) {
	st := &statState{stored: map[string]bool{}, maybe: map[string]bool{}, vecs: map[string][]float32{}, exp: map[string]time.Duration{}}
	e.X = st
	n := e.Nodes[0]
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	dim := int(e.K("dim"))
	ds := dsName(0)
	bump := int(e.K("bump"))
	phases := int(e.K("phases"))
	e.Go(c, func() { e.WaitServing(c, Sec(30)); e.CreateAll(c, 1, 1) })
	e.WaitAll(Sec(60))
	for ph := 0; ph < phases; ph++ {
		for ci := range e.Clients {
			c := e.Clients[ci]
			e.Go(c, func() {
				for i := range e.P.Ops {
					op := &e.P.Ops[i]
					if op.At != int64(ph) || op.C != c.I {
						continue
					}
					d := mk(0, op.Key, op.Val, dim+op.Key%2*int(e.K("alt")))
					k := KeyOf(d)
					i0, err0 := c.Info(n, ds, Sec(30))
					err := c.Insert(n, ds, d, &pb.InsertConfig{TTL: uint64(op.TTL)}, Sec(30))
					i1, err1 := c.Info(n, ds, Sec(30))
					if err == nil {
						st.stored[k] = true
						st.last = simrt.Now()
						if op.TTL != 0 {
							st.exp[k] = simrt.Now() + Sec(float64(op.TTL))
						} else {
							st.vecs[k] = d.Key.Feature
						}
					}
					if err0 != nil || err1 != nil || i0.Version != i1.Version {
						continue
					}
					full0 := !i0.NoTarget && i0.N >= i0.TargetN
					full1 := !i1.NoTarget && i1.N >= i1.TargetN
					if full0 && full1 && i0.N == i1.N {
						e.Checked("insert-when-full")
						if err == nil {
							e.Fail("accepted-over-target", "insert acknowledged although N=%d, target %d", i0.N, i0.TargetN)
						}
					}
					if !full0 && !full1 {
						e.Checked("insert-below-target")
						if err != nil && (strings.Contains(err.Error(), "target") || !strings.Contains(err.Error(), "losed")) {
							e.Fail("refused-below-target", "insert refused although N=%d, target %d, no target %v: %v", i0.N, i0.TargetN, i0.NoTarget, err)
						}
					}
				}
			})
		}
		e.WaitAll(Sec(600))
		if len(st.stored) == 0 {
			continue // an empty dataset is dropped with its configuration
		}
		simrt.Sleep(Sec(float64(e.K("quiet"))))
		e.Go(c, func() {
			l, err := c.Stream(n, ds, Sec(60), 0, 0)
			inf, err2 := c.Info(n, ds, Sec(30))
			if err != nil || err2 != nil {
				e.Fail("unreadable", "%v %v", err, err2)
				return
			}
			got := map[string]bool{}
			for _, d := range l {
				got[KeyOf(d)] = true
				if !st.stored[KeyOf(d)] {
					e.Fail("stored-refused", "%s is stored although its insert was refused", KeyOf(d))
				}
			}
			for k := range st.stored {
				if !got[k] && st.aliveKey(k, simrt.Now(), true) {
					e.Fail("lost", "%s was acknowledged and is not stored", k)
				}
			}
			e.Checked("count")
			if len(st.exp) > 0 {
				lo, hi := st.alive(simrt.Now(), true), st.alive(st.last, false)
				if inf.N < uint64(lo) || inf.N > uint64(hi) {
					e.Fail("wrong-count", "%d s after the last insert the node reports N=%d, %d entries are alive and %d were at the last insert", e.K("quiet"), inf.N, lo, hi)
				}
			} else if inf.N != uint64(len(l)) {
				e.Fail("wrong-count", "%d s after the last insert the node reports N=%d and stores %d entries", e.K("quiet"), inf.N, len(l))
			}
			cfg := dsCfg(e.P, 0, 1)
			if inf.TargetN != cfg.TargetN && bump == 0 {
				e.Fail("wrong-config", "reported target %d, configured %d", inf.TargetN, cfg.TargetN)
			}
			e.Sample("N=%d target=%d", inf.N, inf.TargetN)
		})
		e.WaitAll(Sec(300))
		if bump > 0 && ph == phases/2 {
			e.Go(c, func() {
				cfg := dsCfg(e.P, 0, 2)
				cfg.TargetN += uint64(bump)
				c.Create(n, cfg, Sec(20))
			})
			e.WaitAll(Sec(60))
		}
	}
	if e.K("long") != 0 || len(st.stored) == 0 {
		return
	}
	simrt.Sleep(Sec(1950))
	if len(st.exp) > 0 { // the others have to expire before
		simrt.Sleep(Sec(2000))
	}
	e.Go(c, func() {
		inf, err := c.Info(n, ds, Sec(30))
		if err != nil {
			e.Fail("unreadable", "%v", err)
			return
		}
		if inf.N != uint64(len(st.vecs)) {
			e.Fail("wrong-count", "after a long time the node reports N=%d, %d entries are left", inf.N, len(st.vecs))
		}
		if e.K("alt") == 0 { // otherwise there is no centre
			e.checkStats(inf, st.vecs)
		}
	})
	e.WaitAll(Sec(60))
}

func (e *Env) checkStats(inf *pb.DataInfo, vecs map[string][]float32) {
	keys := map[string]bool{}
	dim := 0
	for k, v := range vecs {
		keys[k] = true
		dim = len(v)
	}
	n := float64(len(vecs))
	avg := make([]float64, dim)
	avg32 := make([]float32, dim)
	for _, v := range vecs {
		for i := range v {
			avg[i] += float64(v[i]) / n
		}
	}
	for i := range avg {
		avg32[i] = float32(avg[i])
	}
	e.Checked("centre")
	if len(inf.Avg) != dim {
		e.Fail("wrong-centre", "centre has %d components, vectors have %d", len(inf.Avg), dim)
		return
	}
	for i := range avg {
		if math.Abs(avg[i]-float64(inf.Avg[i])) > 1e-3+1e-3*math.Abs(avg[i]) {
			e.Fail("wrong-centre", "component %d of the centre is %v, the mean of the %d vectors is %v", i, inf.Avg[i], len(vecs), avg[i])
			return
		}
	}
	max := 0.0
	for _, v := range vecs {
		if d := refScore("VectorDistance", avg32, v); d > max {
			max = d
		}
	}
	e.Checked("maxdistance")
	if math.Abs(max-inf.MaxDistance) > 2e-3+1e-3*max {
		e.Fail("wrong-maxdistance", "reported %v, the farthest of %d vectors is %v away", inf.MaxDistance, len(vecs), max)
		return
	}
	if max < 0.01 {
		return
	}
	e.Checked("histogram")
	// cumulative comparison with tolerance at bin borders
	cum := 0.0
	if len(inf.Hist) != 64 {
		e.Fail("wrong-histogram", "%d bins", len(inf.Hist))
		return
	}
	for b := 0; b < 64; b++ {
		cum += float64(inf.Hist[b])
		lo, hi := 0.0, 0.0
		for _, v := range vecs {
			x := refScore("VectorDistance", avg32, v) / max * 64
			eps := 0.02 + 64*4e-3/max
			if x+eps < float64(b+1) || b == 63 {
				lo += 1 / n
			}
			if x-eps < float64(b+1) || b == 63 {
				hi += 1 / n
			}
		}
		if cum < lo-1e-3 || cum > hi+1e-3 {
			e.Fail("wrong-histogram", "share of vectors in the first %d of 64 distance bins is reported as %v, is between %v and %v", b+1, cum, lo, hi)
			return
		}
	}
	_ = fmt.Sprint
}

func init() {
	Register(&Scenario{Name: "stat", Gen: genStat, Main: mainStat})
	AddProp(&Prop{ID: "C12", Scenarios: []string{"stat"}, Bounds: "one node, vectors of one dimension or two, size targets 1-100, enormous or none, entries with and without lifetimes, up to 4 phases of inserts with 77 or 100 s of quiet after each, a quarter of the runs followed by 1950 s of quiet"})
}

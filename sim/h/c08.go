package h

import (
	"fmt"
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C08: the dataset registry survives crashes and disk errors.

type regDS struct {
	submitted map[uint64]bool
	maxSub    uint64
	durable   uint64 // highest version that has to survive
	known     bool   // has to survive at all
	acks      []regAck
	zero      *pb.DataConfig // created with version 0
	zeroAt    time.Duration
	zeroDur   bool
}

type regAck struct {
	v  uint64
	at time.Duration
}

type regState struct {
	ds  []*regDS
	bad [][2]time.Duration // disk trouble in this life
}

func (e *Env) regCfg(d int, v uint64) *pb.DataConfig {
	c := verCfg(v)
	c.Name = regName(d)
	if v != 0 && v%3 == 0 {
		c.Retention = 1000000 + v%100
	}
	return c
}

var longName = strings.Repeat("long", 20000)

// names that need care when they are written to a line of a file
func regName(d int) string {
	if d >= 9 {
		return fmt.Sprintf("many %d", d)
	}
	return []string{"plain", "with space", "new\nline", `quote"d`, "ünïcode", "tab\tname", "../up", "{}", longName}[d%9]
}

// zeroCfg: the configuration with which dataset d is created explicitly, but with version 0.
func (e *Env) zeroCfg(d int) *pb.DataConfig {
	if e.K("zero") != int64(d+1) {
		return nil
	}
	c := e.regCfg(d+int(e.K("first")), 0)
	c.TargetN, c.TargetUtilization = 4242, 0.7
	return c
}

func genReg(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 1
	nds := 1 + r.Intn(5)
	if r.Bool(0.04) {
		nds = r.Pick(20, 70, 130)
	}
	p.Set("nds", int64(nds))
	p.Set("first", int64(r.Intn(9)))
	if r.Bool(0.8) && p.Get("first")+int64(nds) > 8 { // the long name is costly
		p.Set("first", 0)
	}
	if nds > 9 {
		p.Set("first", 9)
	}
	p.Set("sink", int64(r.Intn(2)))
	if r.Bool(0.15) {
		p.Set("vbase", int64(r.Pick(1<<31-4, 1<<32-4, 1<<53-4, 1<<62, -200)))
	}
	if r.Bool(0.2) {
		p.Set("zero", int64(1+r.Intn(nds)))
	}
	lives := 1 + r.Intn(4)
	p.Set("lives", int64(lives))
	v := 0
	for l := 0; l < lives; l++ {
		span := r.Range(1, 320) * 1000
		if r.Bool(0.3) {
			span = r.Range(100, 20000)
		}
		p.Set(fmt.Sprintf("span%d", l), span)
		p.Set(fmt.Sprintf("down%d", l), r.Range(10, 30000))
		kind := r.Intn(7) // 0 kill 1 power 2 crash in a file operation 3 same with power failure 4 crash after some steps 5 termination 6 termination cut short by a kill
		p.Set(fmt.Sprintf("end%d", l), int64(kind))
		p.Set(fmt.Sprintf("arg%d", l), r.Range(1, 14))
		if kind == 4 {
			p.Set(fmt.Sprintf("arg%d", l), int64(r.LogDur(1, 20000)))
		}
		p.Set(fmt.Sprintf("busy%d", l), int64(r.Intn(4)/3)) // a failed start in between
		n := r.Pick(0, 1, 3, 8)
		for i := 0; i < n; i++ {
			v++
			p.Ops = append(p.Ops, Op{At: r.Range(0, span), Key: l, Kind: "cfg", DS: r.Intn(nds), Val: v})
		}
		if r.Bool(0.5) {
			for i := 0; i < 1+r.Intn(3); i++ {
				f := Fault{At: r.Range(0, span), Kind: pickStr(r, "diskfail", "diskfull", "diskslow"), Arg: int64(r.Pick(100, 500, 1000)), Dur: int64(r.LogDur(200, 90000)), B: l}
				if f.Kind == "diskslow" {
					f.Arg *= 100
				}
				p.Faults = append(p.Faults, f)
			}
		}
	}
	sortOps(p)
}

func (st *regState) healthy(a, b time.Duration) bool {
	// a contiguous window of 75 s without disk trouble within [a,b]
	if b-a < Sec(90) {
		return false
	}
	from := a
	for from < b {
		ok := true
		for _, w := range st.bad {
			if w[0] < from+Sec(75) && w[1] > from {
				ok = false
				if w[1] > from {
					from = w[1] + time.Millisecond
				}
				break
			}
		}
		if ok {
			return from+Sec(75) <= b
		}
	}
	return false
}

func (e *Env) regCheck(c *Client, st *regState, n *NodeH, life int) {
	for d, x := range st.ds {
		var i *pb.DataInfo
		var err error
		name := regName(d + int(e.K("first")))
		for try := 0; try < 100; try++ {
			if i, err = c.Info(n, name, Sec(5)); err == nil {
				break
			}
			simrt.Sleep(Ms(100))
		}
		if err != nil {
			e.Fail("unreadable", "life %d: %v", life, err)
			return
		}
		if !x.submitted[i.Version] {
			e.Fail("invented", "after restart %d dataset %q has version %d which nobody submitted", life, name, i.Version)
			continue
		}
		w := e.regCfg(d+int(e.K("first")), i.Version)
		if x.zero != nil && i.Version == 0 {
			e.Checked("version-0")
			if i.TargetN == x.zero.TargetN {
				w = x.zero
			} else if x.zeroDur {
				e.Fail("registry-lost", "after restart %d dataset %q version 0 is %v, submitted long before the crash was %v", life, name, i, x.zero)
			}
		}
		if i.TargetN != w.TargetN || i.TargetUtilization != w.TargetUtilization || i.NoTarget != w.NoTarget || i.Name != w.Name {
			e.Fail("altered", "after restart %d dataset %q version %d is %v, submitted was %v", life, name, i.Version, i, w)
		}
		e.Checked("restored")
		if x.durable > 0 {
			e.Checked("had-to-survive")
		}
		if i.Version < x.durable {
			e.Fail("registry-lost", "after restart %d dataset %q has version %d, version %d was acknowledged long before the crash", life, name, i.Version, x.durable)
		}
		e.Sample("life %d: %q version %d, durable %d, submitted up to %d", life, name, i.Version, x.durable, x.maxSub)
	}
}

func mainReg(e *Env) {
	st := &regState{}
	e.X = st
	first := int(e.K("first"))
	for d := 0; d < int(e.K("nds")); d++ {
		st.ds = append(st.ds, &regDS{submitted: map[uint64]bool{0: true}})
	}
	c := e.Clients[0]
	n := e.Nodes[0]
	n.Bcast = n.Addr
	if e.K("sink") == 1 { // a seed sees the whole configurations
		n.Serv = e.Sink(func(p *pb.Peer) {
			for _, g := range p.GetDataList() {
				for d, x := range st.ds {
					if g.Name != regName(d+first) {
						continue
					}
					e.Checked("told-a-seed")
					if z := e.zeroCfg(d); g.Version == 0 && z != nil && g.TargetN == z.TargetN {
						if g.String() != z.String() {
							e.Fail("altered", "node (life %d) tells a seed of %q version 0 as %v, submitted was %v", n.Gen, g.Name, g, z)
						}
						continue
					}
					if !x.submitted[g.Version] {
						e.Fail("invented", "node tells a seed of version %d of %q which nobody submitted", g.Version, g.Name)
					} else if w := e.regCfg(d+first, g.Version); g.TargetN != w.TargetN || g.TargetUtilization != w.TargetUtilization || g.NoTarget != w.NoTarget || g.ReplicationOnInsert != w.ReplicationOnInsert || g.EnforceReplicationOnInsert != w.EnforceReplicationOnInsert || g.Retention != w.Retention {
						e.Fail("altered", "node (life %d) tells a seed of %q version %d as %v, submitted was %v", n.Gen, g.Name, g.Version, g, w)
					}
				}
			}
		})
	}
	seq := 0
	for life := 0; life < int(e.K("lives")); life++ {
		if e.K(fmt.Sprintf("busy%d", life)) == 1 {
			// a start that fails because something else holds the port
			holder := e.W.NewProc("holder", n.Host)
			holder.Harness = true
			n.Host.Boot()
			simrt.GoProc(holder, "holder", func() {
				simrt.NetListen("tcp", fmt.Sprintf("0.0.0.0:%d", Port))
				simrt.Sleep(time.Hour)
			})
			simrt.Sleep(Ms(1))
			n.Start()
			e.Expect[n.Proc] = true
			p := n.Proc
			for i := 0; i < 50 && !p.Dead; i++ {
				simrt.Sleep(Ms(100))
			}
			if !p.Dead {
				e.W.CrashProc(p, false)
			}
			e.W.CrashProc(holder, false)
			e.W.Counters["fault:failed-start"]++
			simrt.Sleep(Ms(200))
		}
		n.Start()
		start := simrt.Now()
		st.bad = nil
		e.Go(c, func() {
			if !e.WaitServing(c, Sec(60)) {
				e.Fail("no-start", "node does not serve a minute after its start")
				return
			}
			if z := int(e.K("zero")); life == 0 && z > 0 && z <= len(st.ds) { // before anything else creates it
				x := st.ds[z-1]
				cfg := e.zeroCfg(z - 1)
				if _, err := c.Create(n, cfg, Sec(20)); err == nil {
					x.zero, x.zeroAt = cfg, simrt.Now()
				}
			}
			e.regCheck(c, st, n, life)
			for d := range st.ds { // keeps the dataset
				seq++
				c.Insert(n, regName(d+first), mk(0, seq, 1, 2), &pb.InsertConfig{Count: 1}, Sec(10))
			}
		})
		e.WaitAll(Sec(120))
		base := simrt.Now()
		if base-start > Sec(50) {
			e.Checked("slow-start-skipped")
			return
		}
		for i := range e.P.Faults {
			f := &e.P.Faults[i]
			if f.B == life && f.A == 0 {
				at := base + Ms(f.At)
				if f.Kind != "diskslow" {
					st.bad = append(st.bad, [2]time.Duration{at, at + Ms(f.Dur)})
				} else {
					st.bad = append(st.bad, [2]time.Duration{at, at + Ms(f.Dur) + Sec(10)})
				}
				g := *f
				e.W.At(at, func() { e.fault(&g) })
			}
		}
		end := base + Ms(e.K(fmt.Sprintf("span%d", life)))
		proc := n.Proc
		e.Go(c, func() {
			for i := range e.P.Ops {
				op := &e.P.Ops[i]
				if op.Key != life {
					continue
				}
				SleepUntil(base + Ms(op.At))
				if proc.Dead {
					return
				}
				x := st.ds[op.DS]
				v := uint64(op.Val) + uint64(e.K("vbase"))
				x.submitted[v] = true
				if v > x.maxSub {
					x.maxSub = v
				}
				if _, err := c.Create(n, e.regCfg(op.DS+first, v), Sec(20)); err == nil {
					x.acks = append(x.acks, regAck{v, simrt.Now()})
				}
			}
		})
		SleepUntil(end)
		arg := e.K(fmt.Sprintf("arg%d", life))
		switch e.K(fmt.Sprintf("end%d", life)) {
		case 0:
			n.Kill(false)
		case 1:
			n.Kill(true)
		case 2, 3:
			n.Want = false
			proc.CrashAtFSOp = proc.FSOps + int(arg)
			proc.CrashPower = e.K(fmt.Sprintf("end%d", life)) == 3
			// the next save comes within a minute
			for i := 0; i < 100 && !proc.Dead; i++ {
				simrt.Sleep(Sec(1))
			}
		case 4:
			n.Want = false
			proc.CrashAfterSteps(uint64(arg), arg%2 == 0)
			for i := 0; i < 100 && !proc.Dead; i++ {
				simrt.Sleep(Sec(1))
			}
		case 5, 6:
			n.Term()
			for i := 0; i < 900 && !proc.Dead; i++ {
				simrt.Sleep(Ms(1000))
				if e.K(fmt.Sprintf("end%d", life)) == 6 && int64(i)*2 > arg {
					break
				}
			}
		}
		e.W.Counters[fmt.Sprintf("fault:crash-kind%d", e.K(fmt.Sprintf("end%d", life)))]++
		crash := simrt.Now()
		if !proc.Dead {
			n.Kill(false)
		}
		e.WaitAll(Sec(100))
		for _, x := range st.ds {
			for _, a := range x.acks {
				if st.healthy(a.at, crash) && a.v > x.durable {
					x.durable = a.v
				}
			}
			x.acks = nil
			if life == 0 && x.zero != nil && st.healthy(x.zeroAt, crash) {
				x.zeroDur = true
			}
		}
		simrt.Sleep(Ms(e.K(fmt.Sprintf("down%d", life))))
		e.Heal()
	}
	// the last start
	n.Start()
	e.Go(c, func() {
		if e.WaitServing(c, Sec(60)) {
			e.regCheck(c, st, n, 99)
		} else {
			e.Fail("no-start", "node does not serve a minute after its start")
		}
	})
	e.WaitAll(Sec(200))
	if e.K("sink") == 1 {
		simrt.Sleep(Sec(70))
	}
}

func init() {
	Register(&Scenario{Name: "registry", Gen: genReg, Main: mainReg})
	AddProp(&Prop{ID: "C08", Scenarios: []string{"registry"}, Bounds: "one node, 1-5 datasets with awkward names or up to 130 with simple ones, up to 4 lives of up to 320 s ending by kill, power failure, termination, a crash in one of the next 14 file operations or after up to 20000 steps; disk errors, full and slow disk; whole configurations seen by a recording seed; failed starts"})
}

package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C07: dataset configuration, highest version wins everywhere.

type cfgState struct {
	submitted map[uint64]bool
	maxSub    uint64
	maxAck    uint64
	// per node: floor observed so far (acknowledged or read), by return time
	floor []uint64
	held  []bool
}

func verCfg(v uint64) *pb.DataConfig {
	if v == 0 {
		return &pb.DataConfig{Name: dsName(0), TargetN: 1000, TargetUtilization: 0.4, EnforceReplicationOnInsert: true, ReplicationOnInsert: 1}
	}
	return &pb.DataConfig{Name: dsName(0), Version: v, TargetN: 1000 + 7*v, TargetUtilization: 0.1 + float64(v%8)/10, NoTarget: v%2 == 1, ReplicationOnInsert: uint32(v % 3), EnforceReplicationOnInsert: v%5 == 1}
}

// cfgOf is version v in the shape of this run: in some runs the versions differ
// in few fields only.
func (e *Env) cfgOf(v uint64) *pb.DataConfig {
	shape := uint64(e.K("shape"))
	if v == 0 || shape == 0 {
		return verCfg(v)
	}
	h := mix(shape, v)
	f := func(bit uint) bool { return shape>>(4+bit)&1 == 1 && h>>bit&1 == 1 } // fields that vary in this run
	c := &pb.DataConfig{Name: dsName(0), Version: v, TargetN: 1000, TargetUtilization: 0.4, ReplicationOnInsert: 1}
	if f(0) {
		c.TargetN += 7
	}
	if f(1) {
		c.TargetUtilization = 0.7
	}
	c.NoTarget = f(2)
	if f(3) {
		c.ReplicationOnInsert = 0
	}
	c.EnforceReplicationOnInsert = f(4)
	if f(5) {
		c.Retention = 1000000 + v%100
	}
	return c
}

func genCfg(r *simrt.RNG, p *Plan) {
	if r.Bool(0.5) {
		p.Set("shape", r.Range(1, 16)+r.Range(1, 64)<<4)
	}
	if r.Bool(0.2) {
		p.Set("vbase", int64(r.Pick(1<<31-4, 1<<32-4, 1<<53-4, 1<<62, -200)))
	}
	p.Nodes = r.Pick(1, 2, 3, 3, 4)
	p.Clients = r.Pick(2, 4, 6)
	span := r.Range(5, 300) * 1000
	n := r.Pick(5, 15, 40, 80)
	vmax := int64(r.Pick(3, 10, 100))
	burst := r.Bool(0.5)
	for i := 0; i < n; i++ {
		at := r.Range(0, span)
		if burst {
			at = at / 20000 * 20000 // many at the same instant
		}
		if r.Bool(0.6) {
			p.Ops = append(p.Ops, Op{At: at, C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "cfg", Val: int(r.Range(1, vmax+1))})
		}
		p.Ops = append(p.Ops, Op{At: at + r.Range(0, 3), C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: pickStr(r, "info", "info", "ins")})
	}
	sortOps(p)
	for i := 0; i < p.Nodes; i++ {
		if r.Bool(0.3) {
			p.Set(fmt.Sprintf("skew%d", i), r.Range(-3000, 3000))
		}
	}
	if r.Bool(0.6) {
		GenFaults(r, p, r.Pick(1, 3, 8), 0, span+30000, "pause", "part", "oneway", "isolate", "reset", "slow", "loss", "rstp", "jump")
	}
}

func (e *Env) seeInfo(st *cfgState, ni int, i *pb.DataInfo, floor uint64, who string) {
	v := i.Version
	if !st.submitted[v] {
		e.Fail("invented-version", "%s at node%d reports version %d which nobody submitted", who, ni, v)
		return
	}
	w := e.cfgOf(v)
	if i.Name != w.Name || i.TargetN != w.TargetN || i.TargetUtilization != w.TargetUtilization || i.NoTarget != w.NoTarget {
		e.Fail("mixed-config", "%s at node%d reports version %d with target %d utilization %v notarget %v, submitted was %d %v %v", who, ni, v, i.TargetN, i.TargetUtilization, i.NoTarget, w.TargetN, w.TargetUtilization, w.NoTarget)
	}
	if v < floor {
		e.Fail("version-decreased", "%s at node%d reports version %d after version %d was acknowledged or reported there", who, ni, v, floor)
	}
	if v > st.floor[ni] {
		st.floor[ni] = v
	}
	e.Checked("consistent")
}

func doCfg(e *Env, c *Client, op *Op) {
	st := e.X.(*cfgState)
	n := e.node(op.N)
	floor := st.floor[op.N] // operations that returned before this one starts
	switch op.Kind {
	case "cfg":
		v := uint64(op.Val) + uint64(e.K("vbase"))
		st.submitted[v] = true
		if v > st.maxSub {
			st.maxSub = v
		}
		i, err := c.Create(n, e.cfgOf(v), Sec(30))
		if err != nil {
			return
		}
		if v > st.maxAck {
			st.maxAck = v
		}
		if v > floor {
			floor = v
		}
		e.seeInfo(st, op.N, i, floor, "create")
	case "info":
		i, err := c.Info(n, dsName(0), Sec(30))
		if err == nil && i != nil {
			e.seeInfo(st, op.N, i, floor, "info")
		}
	case "ins":
		c.Insert(n, dsName(0), mk(0, 50+op.N, 1, 2), &pb.InsertConfig{Count: 1}, Sec(10))
	}
}

func mainCfg(e *Env) {
	st := &cfgState{submitted: map[uint64]bool{0: true}, floor: make([]uint64, len(e.Nodes))}
	e.X = st
	c := e.Clients[0]
	// nodes tell each other whole configurations
	e.W.Net.OnMessage = func(m *simrt.RPCRec) {
		var l []*pb.DataConfig
		switch q := m.Req.(type) {
		case *pb.JoinRequest:
			l = q.GetPeer().GetDataList()
		case *pb.AddPeerRequest:
			l = q.GetPeer().GetDataList()
		}
		for _, d := range l {
			if d.Name != dsName(0) {
				continue
			}
			e.Checked("gossiped")
			w := e.cfgOf(d.Version)
			if !st.submitted[d.Version] {
				e.Fail("invented-version", "%s tells of version %d which nobody submitted", m.From.Name, d.Version)
			} else if d.TargetN != w.TargetN || d.TargetUtilization != w.TargetUtilization || d.NoTarget != w.NoTarget || d.ReplicationOnInsert != w.ReplicationOnInsert || d.EnforceReplicationOnInsert != w.EnforceReplicationOnInsert || d.Retention != w.Retention {
				e.Fail("mixed-config", "%s tells of version %d as %v, submitted was %v", m.From.Name, d.Version, d, w)
			}
		}
	}
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		for i, n := range e.Nodes {
			for try := 0; try < 20; try++ {
				if c.Insert(n, dsName(0), mk(0, i, 1, 2), &pb.InsertConfig{Count: 1}, Sec(10)) == nil {
					break
				}
			}
		}
	})
	e.WaitAll(Sec(600))
	base := simrt.Now()
	e.InjectFaults(base)
	e.RunOps(base, Sec(4000))
	e.WaitFaults()
	simrt.Sleep(Sec(250))
	e.Go(c, func() {
		end := simrt.Now() + Sec(300)
		for {
			var vs []uint64
			same := true
			for ni, n := range e.Nodes {
				var i *pb.DataInfo
				var err error
				for try := 0; try < 10; try++ {
					floor := st.floor[ni]
					if i, err = c.Info(n, dsName(0), Sec(10)); err == nil {
						e.seeInfo(st, ni, i, floor, "info")
						break
					}
					simrt.Sleep(Sec(1))
				}
				if err != nil {
					e.Fail("unreadable", "node%d: %v", ni, err)
					return
				}
				vs = append(vs, i.Version)
				same = same && i.Version == vs[0]
			}
			if same {
				e.Checked("converged")
				if vs[0] < st.maxAck || vs[0] > st.maxSub {
					e.Fail("wrong-winner", "all nodes report version %d, acknowledged was %d", vs[0], st.maxAck)
				}
				e.Sample("%d nodes converged to version %d (acknowledged %d)", len(vs), vs[0], st.maxAck)
				return
			}
			if simrt.Now() > end {
				e.Fail("no-convergence", "minutes after the last fault nodes report versions %v", vs)
				return
			}
			simrt.Sleep(Sec(20))
		}
	})
	e.WaitAll(time.Hour)
}

func init() {
	Register(&Scenario{Name: "cfg", Gen: genCfg, Main: mainCfg, Do: doCfg})
	AddProp(&Prop{ID: "C07", Scenarios: []string{"cfg"}, Bounds: "1-4 nodes, up to 80 concurrent submissions and reads by 6 clients, versions over the whole 64 bit range, configurations differing in one or several fields, up to 8 network faults, pauses and clock jumps up to 4 s, no node restarts"})
}

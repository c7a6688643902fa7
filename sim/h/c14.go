package h

import (
	"fmt"
	"math"
	"strings"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C14: no request or fault sequence crashes or wedges a node. Crashes, exits
// and deadlocks are reported by the environment in every scenario; here the
// requests themselves are hostile, and afterwards every service must be back.

func genRobust(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 2, 2, 3, 3, 4)
	p.Clients = 1 + r.Intn(3)
	p.Set("dim", 2)
	setDS(p, 0, 1000, 400, true, 1, true)
	n := r.Pick(15, 30, 60)
	span := r.Range(5, 400) * 1000
	ghosts := 0
	for i := 0; i < n; i++ {
		op := Op{At: r.Range(0, span), C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Key: r.Intn(60), Val: i + 1}
		op.Kind = pickStr(r, "ins", "ins", "search", "search", "badins", "badins", "badsearch", "badsearch", "badsearch", "badcreate", "badname", "badpeer", "search1", "stream", "info")
		switch op.Kind {
		case "badins":
			op.A = []int64{int64(r.Intn(14)), int64(r.Intn(4))}
		case "badsearch":
			op.A = []int64{int64(r.Intn(24)), int64(r.Intn(3)), int64(r.Intn(24))}
			q := GenQuery(r, 60, 2, 1, 5, 50)
			if r.Bool(0.3) {
				q.Func = pickStr(r, "AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance", "NoSuchFunction")
			}
			q.GroupLimit = int64(r.Pick(0, 0, 1, 3))
			op.S = q.Func
			qq := Op{}
			q.pack(&qq)
			op.A = append(op.A, qq.A...)
		case "search":
			q := GenQuery(r, 60, 2, 1, 5, 50)
			q.GroupLimit = int64(r.Pick(0, 0, 0, 1, 3))
			q.pack(&op)
		case "badcreate":
			op.A = []int64{int64(r.Intn(10)), int64(r.Intn(4))}
		case "badname":
			op.A = []int64{int64(r.Intn(4)), int64(r.Intn(8))}
		case "badpeer":
			op.A = []int64{int64(r.Intn(12)), int64(r.Intn(2))}
			if ghosts++; ghosts > 2 { // more of them would crowd out real peers
				op.A[0] = int64(r.Intn(3))
			}
		case "stream":
			op.A = []int64{r.Range(0, 300), int64(r.Pick(0, 0, 1, 5))}
		}
		p.Ops = append(p.Ops, op)
	}
	sortOps(p)
	kinds := []string{"diskfail", "diskfull", "diskslow", "jump", "pause", "slow", "loss", "rstp", "kill", "power", "term", "killstep"}
	if p.Nodes > 1 {
		kinds = append(kinds, "part", "oneway", "isolate", "reset", "part", "reset")
	}
	if r.Bool(0.8) {
		GenFaults(r, p, r.Pick(1, 3, 6, 10), 0, span, kinds...)
	}
}

var scratchNames = []string{"scratch0", "scratch1", "", "a/../b"}

func badIns(op *Op) (ds string, d *pb.Datum, cfg *pb.InsertConfig) {
	ds = scratchNames[op.A[1]]
	if op.A[1] == 2 {
		ds = dsName(0)
	}
	d = mk(0, op.Key, op.Val, 2)
	cfg = &pb.InsertConfig{}
	inf := float32(math.Inf(1))
	switch op.A[0] {
	case 0:
		d = nil
	case 1:
		d.Key = nil
	case 2:
		d.Value = nil
	case 3:
		cfg = nil
	case 4:
		d.Key.Feature = nil
	case 5:
		d.Key.Feature = make([]float32, 48)
	case 6:
		d.Key.Feature = []float32{float32(math.NaN()), 1}
	case 7:
		d.Key.Feature = []float32{inf, -inf}
	case 8:
		cfg = &pb.InsertConfig{TTL: math.MaxUint64, Count: math.MaxUint64}
	case 9:
		d.Key.GroupLabel, d.Value.Label = nil, nil
	case 10:
		d.Value.Label = []byte(strings.Repeat("x{[\"", 5000))
		d.Key.GroupLabel = []byte{0, 255, 254}
	case 11:
		d.Key = &pb.DatumKey{}
		d.Value = &pb.DatumValue{}
	case 12:
		d.Key.Feature = []float32{math.MaxFloat32, math.MaxFloat32}
		d.Key.Size1, d.Key.Dim2 = math.MaxUint32, math.MaxUint32
		d.Value.Version = math.MaxUint64
	case 13:
		cfg = &pb.InsertConfig{TTL: 1}
	}
	return
}

// mangle makes a request incomplete or extreme.
func mangle(req *pb.SearchRequest, how int64) {
	c := req.Config
	if c == nil {
		return
	}
	switch how {
	case 0:
		req.Config = nil
	case 1:
		req.Datum = nil
	case 2:
		req.Datum = append(req.Datum, &pb.Datum{})
	case 3:
		req.Context = &pb.SearchContext{Datum: []*pb.Datum{{}}}
	case 4:
		c.Limit = 0
	case 5:
		c.Limit = math.MaxUint32
	case 6:
		c.Timeout = 0
	case 7:
		c.Timeout = math.MaxUint64
	case 8:
		c.GroupLimit = math.MaxUint32
	case 9:
		c.ResultLimit = math.MaxUint64
	case 10:
		c.CacheDuration = math.MaxUint64
	case 11:
		c.DataName = "nowhere"
	case 12:
		c.DataName = ""
	case 13:
		c.Filters = []string{"", "#", "a.#(b==\"\")#", "..0", "@this", "@pretty:{\"x\":1}", "*?["}
	case 14:
		c.GroupFilters = []string{"@reverse|@ugly", "\\", "#(x%\"*\")", strings.Repeat("a.", 500)}
	case 15:
		req.Datum = []*pb.Datum{{Key: &pb.DatumKey{}}}
	case 16:
		req.Datum = []*pb.Datum{{Key: &pb.DatumKey{Feature: []float32{float32(math.NaN()), float32(math.Inf(-1))}}}}
	case 17:
		req.Datum = []*pb.Datum{{Key: &pb.DatumKey{Feature: make([]float32, 48)}}}
	case 18:
		for len(req.Datum) < 40 {
			req.Datum = append(req.Datum, &pb.Datum{Key: &pb.DatumKey{Feature: qvec(int64(len(req.Datum)), 2)}})
		}
	case 19:
		c.CacheDuration = 5
	case 20:
		c.Uuid = "the same one"
	case 21:
		req.Context = &pb.SearchContext{Prioritize: true, Datum: []*pb.Datum{{Key: &pb.DatumKey{}}}}
	case 22:
		c.ScoreFuncName = "Annoy"
		c.Limit = 1000
	case 23:
		c.GroupLimit = 1
		c.Timeout = 1
	}
}

func badCfg(op *Op, base uint64) *pb.DataConfig {
	c := &pb.DataConfig{Name: scratchNames[op.A[1]], Version: base, TargetN: 10, TargetUtilization: 0.4, ReplicationOnInsert: 1}
	switch op.A[0] {
	case 0:
		c.TargetN = math.MaxUint64
	case 1:
		c.TargetUtilization = math.NaN()
	case 2:
		c.TargetUtilization = -1
	case 3:
		c.TargetUtilization = math.Inf(1)
	case 4:
		c.TargetN = 0
	case 5:
		c.Retention = 1
	case 6:
		c.Retention = math.MaxUint64
	case 7:
		c.ReplicationOnInsert, c.EnforceReplicationOnInsert = math.MaxUint32, true
	case 8:
		c.Version = math.MaxUint64
	case 9:
		*c = pb.DataConfig{}
	}
	return c
}

func badPeer(e *Env, op *Op) *pb.Peer {
	now := uint64(e.node(op.N).Proc.Wall().Unix())
	scratch := []*pb.DataConfig{{Name: "scratch0", Version: 1, TargetN: 5, TargetUtilization: 0.4}, {Name: ""}, {}}
	p := &pb.Peer{AddressList: []string{"10.99.0.1:10000"}, Timestamp: now, DataList: scratch}
	switch op.A[0] {
	case 0:
		return nil
	case 1:
		return &pb.Peer{}
	case 2:
		p.Timestamp = 0
	case 3:
		p.AddressList = []string{""}
	case 4:
		p.AddressList = []string{"not an address", "%%:x"}
	case 5:
		p.AddressList = nil
	case 6:
		p.Timestamp = now + 250
	case 7:
		p.DataList = append(p.DataList, &pb.DataConfig{Name: dsName(0)})
	case 8: // a real node with more addresses than it has
		p.AddressList = []string{e.Nodes[op.N].Addr, "10.99.0.2:7"}
	case 9:
		p.ServiceList = []string{"", "10.99.0.3:1", "nonsense"}
	case 10:
		p.AddressList = []string{"a:1", "b:2", "c:3"}
	case 11:
		p.DataList = []*pb.DataConfig{{Name: dsName(0), Version: 0, TargetN: 1}}
	}
	return p
}

func doRobust(e *Env, c *Client, op *Op) {
	n := e.node(op.N)
	ds := dsName(0)
	cl := pb.NewVeriServiceClient(c.conn(n))
	e.Checked("request:" + op.Kind)
	switch op.Kind {
	case "ins":
		c.Insert(n, ds, mkL(0, op.Key, op.Val, 2), &pb.InsertConfig{}, Sec(12))
	case "badins":
		name, d, cfg := badIns(op)
		ctx, cancel := c.ctx(Sec(12))
		_, err := cl.Insert(ctx, &pb.InsertionRequest{DataName: name, Datum: d, Config: cfg})
		cancel()
		c.drop(n, err)
	case "search":
		c.Search(n, unpackQuery(op).Request(ds, 2000), Sec(12))
	case "badsearch":
		q := unpackQuery(&Op{S: op.S, A: op.A[3:]})
		req := q.Request(ds, 1500)
		if op.A[1] == 0 {
			req.Config.DataName = scratchNames[op.Key%len(scratchNames)]
		}
		mangle(req, op.A[0])
		if op.A[1] == 2 {
			mangle(req, op.A[2])
		}
		ctx, cancel := c.ctx(Sec(15))
		defer cancel()
		s, err := cl.SearchStream(ctx, req)
		for err == nil {
			_, err = s.Recv()
		}
	case "search1":
		ctx, cancel := c.ctx(Sec(12))
		defer cancel()
		cl.Search(ctx, &pb.SearchRequest{})
	case "badcreate":
		c.Create(n, badCfg(op, uint64(op.Val)), Sec(12))
	case "badname":
		name := []string{"", ".", "..", "/", "a/b", "x\x00y", strings.Repeat("n", 300), "ünï\n"}[op.A[1]]
		switch op.A[0] {
		case 0:
			c.Info(n, name, Sec(12))
		case 1:
			c.Stream(n, name, Sec(12), 0, 0)
		case 2:
			c.Create(n, &pb.DataConfig{Name: name, Version: 3, NoTarget: true}, Sec(12))
		case 3:
			c.Insert(n, name, mk(0, op.Key, op.Val, 2), &pb.InsertConfig{TTL: 30}, Sec(12))
		}
	case "badpeer":
		ctx, cancel := c.ctx(Sec(12))
		defer cancel()
		if op.A[1] == 0 {
			cl.AddPeer(ctx, &pb.AddPeerRequest{Peer: badPeer(e, op)})
		} else {
			cl.Join(ctx, &pb.JoinRequest{Peer: badPeer(e, op)})
		}
	case "stream":
		c.Stream(n, ds, Sec(20), Ms(op.A[0]), int(op.A[1]))
	case "info":
		c.Info(n, ds, Sec(12))
	}
}

// serves says what a node does not serve, or "".
func (e *Env) serves(c *Client, n *NodeH) string {
	if err := c.Ping(n, Sec(10)); err != nil {
		return fmt.Sprintf("node%d does not answer a ping: %v", n.I, err)
	}
	if _, err := c.Create(n, dsCfg(e.P, 0, 1), Sec(10)); err != nil {
		return fmt.Sprintf("node%d does not create: %v", n.I, err)
	}
	if _, err := c.Info(n, dsName(0), Sec(10)); err != nil {
		return fmt.Sprintf("node%d does not report: %v", n.I, err)
	}
	if _, err := c.Stream(n, dsName(0), Sec(60), 0, 0); err != nil {
		return fmt.Sprintf("node%d does not stream: %v", n.I, err)
	}
	ctx, cancel := c.ctx(Sec(10))
	defer cancel()
	cl := pb.NewVeriServiceClient(c.conn(n))
	if _, err := cl.AddPeer(ctx, &pb.AddPeerRequest{Peer: &pb.Peer{}}); err != nil {
		return fmt.Sprintf("node%d does not take a peer: %v", n.I, err)
	}
	if _, err := cl.Join(ctx, &pb.JoinRequest{Peer: &pb.Peer{}}); err != nil {
		return fmt.Sprintf("node%d does not answer a join: %v", n.I, err)
	}
	if code, _ := n.Proc.HTTPProbe("8000", "/ready", Sec(10)); code != 200 {
		return fmt.Sprintf("node%d answers its readiness probe with %d", n.I, code)
	}
	if code, _ := n.Proc.HTTPProbe("8000", "/health", Sec(10)); code != 200 {
		return fmt.Sprintf("node%d answers its health probe with %d", n.I, code)
	}
	return ""
}

func mainRobust(e *Env) {
	c := e.Clients[0]
	e.StartAll()
	simrt.Sleep(Sec(2))
	e.Go(c, func() {
		e.WaitServing(c, Sec(60))
		e.CreateAll(c, 1, 1)
		for i, n := range e.Nodes {
			c.Insert(n, dsName(0), mk(0, 2*i, 1, 2), &pb.InsertConfig{Count: 1}, Sec(10))
		}
	})
	e.WaitAll(Sec(300))
	base := simrt.Now()
	e.InjectFaults(base)
	e.RunOps(base, Sec(5000))
	e.WaitFaults()
	// a terminated node comes back when its shutdown is over
	for t := 0; t < 40; t++ {
		simrt.Sleep(Sec(30))
		up := true
		for _, n := range e.Nodes {
			up = up && n.Up() && !e.Expect[n.Proc]
		}
		if up {
			break
		}
		for _, n := range e.Nodes {
			if !n.Up() {
				n.Start()
			}
		}
	}
	e.W.Calm()
	healed := simrt.Now()
	e.Go(c, func() {
		msg := ""
		for k := 1; k < 30; k++ {
			msg = ""
			for _, n := range e.Nodes {
				if !n.Up() {
					msg = fmt.Sprintf("node%d is not running", n.I)
				} else if m := e.serves(c, n); m != "" {
					msg = m
				}
			}
			if msg == "" {
				msg = e.fresh(c, k)
			}
			if msg == "" || simrt.Now()-healed > Sec(540) {
				break
			}
			simrt.Sleep(Sec(20))
		}
		if msg != "" {
			e.Fail("not-served", "%v after the last fault and request: %s", simrt.Now()-healed, msg)
			return
		}
		e.Checked("all-served")
		e.Sample("%d nodes serve everything %v after the last fault", len(e.Nodes), simrt.Now()-healed)
	})
	if !e.WaitAll(Sec(3000)) {
		e.Fail("wedged", "requests are still unanswered an hour after the faults ended")
	}
}

func init() {
	Register(&Scenario{Name: "robust", Gen: genRobust, Main: mainRobust, Do: doRobust})
	AddProp(&Prop{ID: "C14", Scenarios: []string{"robust"}, Bounds: "1-4 nodes, up to 60 requests of which more than half are malformed or extreme, up to 10 faults of all kinds; everything served again within 9 min"})
}

// Package h is the harness: it turns a plan (explicit operations, faults and a
// schedule seed) into one simulated execution of a veri cluster and checks it.
package h

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"syscall"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	server "verisim/inst/server"
	pb "verisim/inst/veriservice"
	"verisim/sannoy"
	"verisim/sgrpc"
	"verisim/simrt"
)

const Port = 10000

// Plan is a complete description of one simulated execution.
type Plan struct {
	Property string           `json:"property"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Sched    simrt.Sched      `json:"sched"`
	Net      NetPlan          `json:"net"`
	Nodes    int              `json:"nodes"`
	Clients  int              `json:"clients"`
	K        map[string]int64 `json:"k,omitempty"`
	Ops      []Op             `json:"ops,omitempty"`
	Faults   []Fault          `json:"faults,omitempty"`
}

type NetPlan struct {
	LatUS    int64 `json:"lat_us"`
	JitterUS int64 `json:"jitter_us"`
	LossP    int   `json:"loss_p"`
	ResetP   int   `json:"reset_p"`
}

// Op is one client operation. Its meaning is up to the scenario.
type Op struct {
	At   int64   `json:"at"` // ms; earliest start
	C    int     `json:"c"`  // client
	N    int     `json:"n"`  // node
	Kind string  `json:"kind"`
	Key  int     `json:"key,omitempty"`
	Val  int     `json:"val,omitempty"`
	TTL  int64   `json:"ttl,omitempty"`
	DS   int     `json:"ds,omitempty"`
	A    []int64 `json:"a,omitempty"`
	S    string  `json:"s,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	At   int64  `json:"at"` // ms
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	Dur  int64  `json:"dur"` // ms
	Arg  int64  `json:"arg,omitempty"`
}

type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

type Outcome struct {
	Violations []Violation
	Hash       uint64
	Steps      uint64
	Sim        time.Duration
	Switches   uint64
	Preempts   int
	Stalls     int
	HotHits    int
	Counters   map[string]int
	Reason     string
	Err        string // harness problem
	Trace      []string
	Checks     int // oracle evaluations
	Samples    []string
	AnnoyBuilt int
}

var lastPairs map[uint64]struct{}

// LastPairs is the set of (switched from, switched to) code site pairs of the
// last run, within one process.
func LastPairs() map[uint64]struct{} { return lastPairs }

type NodeH struct {
	E     *Env
	I     int
	Host  *simrt.Host
	Proc  *simrt.Proc
	Addr  string
	Dir   string
	Gen   int
	Serv  string
	Bcast string
	// expected to be running (not stopped by a fault)
	Want  bool
	Terms int
	Last  *simrt.Proc
}

type Client struct {
	E     *Env
	I     int
	Proc  *simrt.Proc
	Host  *simrt.Host
	conns map[string]*sgrpc.ClientConn
}

type Env struct {
	W        *simrt.World
	P        *Plan
	Nodes    []*NodeH
	Clients  []*Client
	Viol     []Violation
	Checks   int
	Samples  []string
	scn      *Scenario
	X        interface{} // scenario state
	running  int
	doneQ    simrt.WaitQ
	opBusy   []bool
	Services func(i int) string
	Bcasts   func(i int) string
	Expect   map[*simrt.Proc]bool // processes allowed to exit
	FaultsOn bool
	faultEnd time.Duration
	NoPanic  bool
	uid      int
}

type Scenario struct {
	Name string
	// Gen draws a plan.
	Gen func(r *simrt.RNG, p *Plan)
	// Main runs in the harness task; the cluster is not started yet.
	Main func(e *Env)
	// Do executes one operation (in the client's task).
	Do func(e *Env, c *Client, op *Op)
}

var Scenarios = map[string]*Scenario{}

func Register(s *Scenario) { Scenarios[s.Name] = s }

// K reads a numeric parameter of the plan.
func (p *Plan) Get(k string) int64 { return p.K[k] }
func (p *Plan) Set(k string, v int64) {
	if p.K == nil {
		p.K = map[string]int64{}
	}
	p.K[k] = v
}

func (e *Env) K(k string) int64 { return e.P.K[k] }

// Fail records a violation.
func (e *Env) Fail(kind, f string, a ...interface{}) {
	d := fmt.Sprintf(f, a...)
	simrt.Tracef("VIOLATION %s: %s", kind, d)
	if len(e.Viol) < 20 {
		e.Viol = append(e.Viol, Violation{kind, d})
	}
}

// Checked counts an evaluated oracle with an outcome class.
func (e *Env) Checked(class string) {
	e.Checks++
	e.W.Counters["check:"+class]++
}

func (e *Env) Now() time.Duration { return simrt.Now() }

// RunPlan executes one plan.
func RunPlan(p *Plan, trace bool) (o *Outcome) {
	scn := Scenarios[p.Scenario]
	o = &Outcome{}
	if scn == nil {
		o.Err = "unknown scenario " + p.Scenario
		return
	}
	sgrpc.Reset()
	built := sannoy.Built
	sannoy.SlowUS = p.Get("annoy_us")
	w := simrt.NewWorld(p.Sched)
	w.Trace = trace
	w.Net.MinLat = time.Duration(p.Net.LatUS) * time.Microsecond
	w.Net.Jitter = time.Duration(p.Net.JitterUS) * time.Microsecond
	w.Net.LossP, w.Net.ResetP = p.Net.LossP, p.Net.ResetP
	e := &Env{W: w, P: p, scn: scn, Expect: map[*simrt.Proc]bool{}}
	w.Run(func() {
		for i := 0; i < p.Nodes; i++ {
			h := w.NewHost(fmt.Sprintf("node%d", i), fmt.Sprintf("10.0.0.%d", i+1))
			n := &NodeH{E: e, I: i, Host: h, Addr: fmt.Sprintf("10.0.0.%d:%d", i+1, Port), Dir: "/data/veri"}
			e.Nodes = append(e.Nodes, n)
		}
		for i := 0; i < p.Clients; i++ {
			h := w.NewHost(fmt.Sprintf("client%d", i), fmt.Sprintf("10.0.1.%d", i+1))
			c := &Client{E: e, I: i, Host: h, conns: map[string]*sgrpc.ClientConn{}}
			c.Proc = w.NewProc(h.Name, h)
			c.Proc.Harness = true
			e.Clients = append(e.Clients, c)
		}
		scn.Main(e)
	})
	sannoy.FreeAll()
	e.panics()
	switch w.Reason {
	case "done":
	case "deadlock":
		e.Viol = append(e.Viol, Violation{"deadlock", "nothing can run and no timer is pending"})
	case "steplimit":
		e.Viol = append(e.Viol, Violation{"livelock", fmt.Sprintf("the run does not end: %d steps in %v of simulated time", w.Steps, w.Elapsed())})
		w.Counters["steplimit"]++
	default:
		o.Err = w.Reason + ": " + w.HarnessPanic
	}
	o.Violations = e.Viol
	o.Hash, o.Steps, o.Sim = w.Hash, w.Steps, w.Elapsed()
	o.Switches, o.Preempts, o.Stalls, o.HotHits = w.Switches, w.Preempts, w.Stalls, w.HotHits
	o.Counters, o.Reason, o.Trace = w.Counters, w.Reason, w.TraceBuf
	o.Checks, o.Samples = e.Checks, e.Samples
	o.AnnoyBuilt = sannoy.Built - built
	lastPairs = w.PairSeen
	return o
}

// panics reports node processes that died by themselves.
func (e *Env) panics() {
	for _, p := range e.W.Procs {
		if p.Harness || e.NoPanic {
			continue
		}
		if p.Panic != "" {
			e.Viol = append([]Violation{{"node-panic", fmt.Sprintf("process %s died: %s (%s)", p.Name, firstLine(p.Panic), p.Stack)}}, e.Viol...)
		} else if p.Exited && !e.Expect[p] {
			e.Viol = append([]Violation{{"node-exit", fmt.Sprintf("process %s exited with code %d although nobody stopped it", p.Name, p.Code)}}, e.Viol...)
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---- nodes ---------------------------------------------------------------------------

func (n *NodeH) Start() {
	e := n.E
	n.Host.Boot()
	n.Gen++
	p := e.W.NewProc(fmt.Sprintf("node%d.%d", n.I, n.Gen), n.Host)
	p.SetSkew(time.Duration(e.P.Get(fmt.Sprintf("skew%d", n.I))) * time.Millisecond)
	n.Proc = p
	n.Want = true
	serv, bc := n.Serv, n.Bcast
	cfg := map[string]interface{}{
		"services":  serv,
		"port":      Port,
		"broadcast": bc,
		"directory": n.Dir,
		"evictable": false, "tls": false, "cert": "", "key": "", "memory": uint64(0),
	}
	simrt.Tracef("START %s services=%s broadcast=%s", p.Name, serv, bc)
	p.Start(func() { server.RunServer(cfg) })
}

func (n *NodeH) Up() bool { return n.Proc != nil && !n.Proc.Dead && !n.Host.Down }

// Kill crashes the process (or host).
func (n *NodeH) Kill(power bool) {
	n.Want = false
	if n.Proc != nil {
		n.E.W.CrashProc(n.Proc, power)
	}
}

func (n *NodeH) Term() {
	n.Want = false
	n.E.Expect[n.Proc] = true
	n.Terms++
	sig := syscall.SIGTERM
	if n.E.K("sigint") == 1 {
		sig = syscall.SIGINT
	}
	n.Proc.Signal(sig)
}

// StartAll boots the nodes with static seeds (every node knows all others)
// unless the scenario set Serv/Bcast.
func (e *Env) StartAll() {
	for i, n := range e.Nodes {
		if n.Bcast == "" && n.Serv == "" {
			name := func(m *NodeH) string {
				if e.K("names") == 0 {
					return m.Addr
				}
				e.W.Net.DNS[fmt.Sprintf("node%d.veri", m.I)] = []string{m.Host.IP}
				return fmt.Sprintf("node%d.veri:%d", m.I, Port)
			}
			if e.K("names") < 2 { // 1: they advertise a name, and are seen by address as well
				n.Bcast = name(n)
			}
			var l []string
			for j, m := range e.Nodes {
				if j != i {
					l = append(l, name(m))
				}
			}
			n.Serv = strings.Join(l, ",")
		}
		n.Start()
		if d := e.K("stagger_ms"); d > 0 && i+1 < len(e.Nodes) {
			simrt.Sleep(time.Duration(d) * time.Millisecond)
		}
	}
}

// ---- client calls -----------------------------------------------------------------------

func (c *Client) conn(n *NodeH) *sgrpc.ClientConn {
	cc := c.conns[n.Addr]
	if cc == nil {
		cc, _ = sgrpc.Dial(n.Addr, sgrpc.WithInsecure())
		c.conns[n.Addr] = cc
	}
	return cc
}

// drop forgets the connection so that the next call dials afresh.
func (c *Client) drop(n *NodeH, err error) {
	if err == nil {
		return
	}
	switch status.Code(err) {
	case codes.Unavailable, codes.DeadlineExceeded, codes.Canceled:
		if cc := c.conns[n.Addr]; cc != nil {
			delete(c.conns, n.Addr)
			cc.Close()
		}
	}
}

func (c *Client) ctx(d time.Duration) (context.Context, context.CancelFunc) {
	return simrt.ContextWithTimeout(context.Background(), d)
}

func (c *Client) Insert(n *NodeH, ds string, d *pb.Datum, cfg *pb.InsertConfig, timeout time.Duration) error {
	ctx, cancel := c.ctx(timeout)
	defer cancel()
	_, err := pb.NewVeriServiceClient(c.conn(n)).Insert(ctx, &pb.InsertionRequest{Config: cfg, Datum: d, DataName: ds})
	c.drop(n, err)
	simrt.Tracef("client%d insert %s@node%d %s ttl=%d -> %v", c.I, ds, n.I, DatumStr(d), cfg.GetTTL(), err)
	return err
}

func (c *Client) Create(n *NodeH, cfg *pb.DataConfig, timeout time.Duration) (*pb.DataInfo, error) {
	ctx, cancel := c.ctx(timeout)
	defer cancel()
	i, err := pb.NewVeriServiceClient(c.conn(n)).CreateDataIfNotExists(ctx, cfg)
	c.drop(n, err)
	simrt.Tracef("client%d create %s v%d@node%d -> %v", c.I, cfg.Name, cfg.Version, n.I, err)
	return i, err
}

func (c *Client) Info(n *NodeH, ds string, timeout time.Duration) (*pb.DataInfo, error) {
	ctx, cancel := c.ctx(timeout)
	defer cancel()
	i, err := pb.NewVeriServiceClient(c.conn(n)).GetDataInfo(ctx, &pb.GetDataRequest{Name: ds})
	c.drop(n, err)
	if err == nil {
		simrt.Tracef("client%d info %s@node%d -> N=%d v%d", c.I, ds, n.I, i.N, i.Version)
	} else {
		simrt.Tracef("client%d info %s@node%d -> %v", c.I, ds, n.I, err)
	}
	return i, err
}

func (c *Client) Ping(n *NodeH, timeout time.Duration) error {
	ctx, cancel := c.ctx(timeout)
	defer cancel()
	_, err := pb.NewVeriServiceClient(c.conn(n)).Ping(ctx, &pb.PingRequest{})
	c.drop(n, err)
	return err
}

// Stream reads everything the node itself holds in ds. think is slept between
// messages (slow consumer); max>0 cancels after that many.
func (c *Client) Stream(n *NodeH, ds string, timeout time.Duration, think time.Duration, max int) ([]*pb.Datum, error) {
	return c.StreamP(n, ds, timeout, func(int) time.Duration { return think }, max)
}

func (c *Client) StreamP(n *NodeH, ds string, timeout time.Duration, think func(i int) time.Duration, max int) ([]*pb.Datum, error) {
	ctx, cancel := c.ctx(timeout)
	defer cancel()
	s, err := pb.NewVeriServiceClient(c.conn(n)).DataStream(ctx, &pb.GetDataRequest{Name: ds})
	if err != nil {
		c.drop(n, err)
		return nil, err
	}
	var l []*pb.Datum
	for {
		d, err := s.Recv()
		if err == io.EOF {
			simrt.Tracef("client%d stream %s@node%d -> %d entries", c.I, ds, n.I, len(l))
			return l, nil
		}
		if err != nil {
			simrt.Tracef("client%d stream %s@node%d -> %v after %d", c.I, ds, n.I, err, len(l))
			c.drop(n, err)
			return l, err
		}
		l = append(l, d)
		if max > 0 && len(l) >= max {
			return l, context.Canceled
		}
		if t := think(len(l)); t > 0 {
			simrt.Sleep(t)
		}
	}
}

func (c *Client) Search(n *NodeH, req *pb.SearchRequest, timeout time.Duration) ([]*pb.ScoredDatum, error) {
	ctx, cancel := c.ctx(timeout)
	defer cancel()
	t0 := simrt.Now()
	s, err := pb.NewVeriServiceClient(c.conn(n)).SearchStream(ctx, req)
	if err != nil {
		c.drop(n, err)
		return nil, err
	}
	var l []*pb.ScoredDatum
	for {
		d, err := s.Recv()
		if err == io.EOF {
			simrt.Tracef("client%d search %s@node%d %s limit=%d -> %d results in %v", c.I, req.Config.DataName, n.I, req.Config.ScoreFuncName, req.Config.Limit, len(l), simrt.Now()-t0)
			return l, nil
		}
		if err != nil {
			simrt.Tracef("client%d search %s@node%d -> %v", c.I, req.Config.DataName, n.I, err)
			c.drop(n, err)
			return l, err
		}
		l = append(l, d)
	}
}

// StreamRetry reads a node's contents, retrying transport failures until the
// deadline (used by final checks once faults have stopped).
func (e *Env) StreamRetry(c *Client, n *NodeH, ds string, within time.Duration) ([]*pb.Datum, error) {
	end := simrt.Now() + within
	for {
		l, err := c.Stream(n, ds, 60*time.Second, 0, 0)
		if err == nil || simrt.Now() > end || !n.Up() {
			return l, err
		}
		simrt.Sleep(2 * time.Second)
	}
}

// Go runs fn as a task of the client and counts it.
func (e *Env) Go(c *Client, fn func()) {
	e.running++
	simrt.GoProc(c.Proc, "client", func() {
		fn()
		e.running--
		e.doneQ.WakeAll()
	})
}

// WaitAll waits for tasks started by Go, at most d.
func (e *Env) WaitAll(d time.Duration) bool {
	late := false
	t := simrt.After(d, func() { late = true; e.doneQ.WakeAll() })
	for e.running > 0 && !late {
		e.doneQ.Wait("harness wait")
	}
	t.Cancel()
	return e.running == 0
}

// RunOps executes the plan's operations, each client sequentially, beginning at
// time base; returns when all clients are done.
func (e *Env) RunOps(base time.Duration, limit time.Duration) bool {
	by := make([][]*Op, len(e.Clients))
	for i := range e.P.Ops {
		op := &e.P.Ops[i]
		if op.C < len(by) {
			by[op.C] = append(by[op.C], op)
		}
	}
	for i, l := range by {
		if len(l) == 0 {
			continue
		}
		c, l := e.Clients[i], l
		e.Go(c, func() {
			for _, op := range l {
				if at := base + time.Duration(op.At)*time.Millisecond; at > simrt.Now() {
					simrt.Sleep(at - simrt.Now())
				}
				e.scn.Do(e, c, op)
			}
		})
	}
	return e.WaitAll(limit)
}

// ---- faults -----------------------------------------------------------------------------

// InjectFaults arms the plan's faults relative to base and returns when the
// last of them is over, with the network healed and processes resumed. Nodes
// killed by a fault are restarted after its duration unless Dur is 0.
func (e *Env) InjectFaults(base time.Duration) {
	var end time.Duration
	for i := range e.P.Faults {
		f := &e.P.Faults[i]
		at := base + time.Duration(f.At)*time.Millisecond
		fin := at + time.Duration(f.Dur)*time.Millisecond
		if fin > end {
			end = fin
		}
		e.W.At(at, func() { e.fault(f) })
	}
	e.faultEnd = end
}

// WaitFaults sleeps until the fault window is over, then repairs everything.
func (e *Env) WaitFaults() {
	if d := e.faultEnd - simrt.Now(); d > 0 {
		simrt.Sleep(d + time.Millisecond)
	}
	e.Heal()
}

func (e *Env) Heal() {
	e.W.Net.HealAll()
	for _, n := range e.Nodes {
		n.Host.FS.FailP, n.Host.FS.Full, n.Host.FS.SlowMax = 0, false, 0
		if n.Proc != nil && n.Proc.Paused() {
			n.Proc.Resume()
		}
		if n.Proc != nil {
			n.Proc.CrashAtFSOp = 0
			n.Proc.Disarm()
		}
	}
}

func (e *Env) node(i int) *NodeH {
	if i < 0 || i >= len(e.Nodes) {
		return nil
	}
	return e.Nodes[i]
}

func (e *Env) fault(f *Fault) {
	a, b := e.node(f.A), e.node(f.B)
	if a == nil {
		return
	}
	w := e.W
	dur := time.Duration(f.Dur) * time.Millisecond
	w.Counters["fault:"+f.Kind]++
	simrt.Tracef("FAULT %s a=%d b=%d dur=%v arg=%d", f.Kind, f.A, f.B, dur, f.Arg)
	restart := func(p *simrt.Proc) {
		if f.Dur <= 0 {
			return
		}
		w.After(dur, func() {
			if n := a; n.Proc == p && !n.Up() {
				n.Start()
			}
		})
	}
	switch f.Kind {
	case "pause":
		p := a.Proc
		if p == nil {
			return
		}
		p.Pause()
		w.After(dur, func() { p.Resume() })
	case "part":
		if b == nil || a == b {
			return
		}
		w.Net.Block(a.Host, b.Host)
		w.Net.Block(b.Host, a.Host)
		w.After(dur, func() { w.Net.Unblock(a.Host, b.Host); w.Net.Unblock(b.Host, a.Host) })
	case "oneway":
		if b == nil || a == b {
			return
		}
		w.Net.Block(a.Host, b.Host)
		w.After(dur, func() { w.Net.Unblock(a.Host, b.Host) })
	case "isolate":
		for _, n := range e.Nodes {
			if n != a {
				n := n
				w.Net.Block(a.Host, n.Host)
				w.Net.Block(n.Host, a.Host)
				w.After(dur, func() { w.Net.Unblock(a.Host, n.Host); w.Net.Unblock(n.Host, a.Host) })
			}
		}
	case "reset":
		if b != nil && a != b {
			w.Net.ResetConns(a.Host, b.Host)
		} else {
			w.Net.ResetConns(a.Host, nil)
		}
	case "slow":
		a.Host.SetExtraLatency(time.Duration(f.Arg) * time.Microsecond)
		w.After(dur, func() { a.Host.SetExtraLatency(0) })
	case "loss":
		old := w.Net.LossP
		w.Net.LossP = int(f.Arg)
		w.After(dur, func() { w.Net.LossP = old })
	case "rstp":
		old := w.Net.ResetP
		w.Net.ResetP = int(f.Arg)
		w.After(dur, func() { w.Net.ResetP = old })
	case "kill", "power":
		p := a.Proc
		a.Kill(f.Kind == "power")
		restart(p)
	case "killstep":
		if a.Up() {
			p := a.Proc
			a.Want = false
			p.CrashAfterSteps(uint64(f.Arg), f.B == 1)
			p.OnDeath = func(*simrt.Proc) { w.After(0, func() { restart(p) }) }
		}
	case "killfs":
		if a.Up() {
			p := a.Proc
			a.Want = false
			p.CrashAtFSOp = p.FSOps + int(f.Arg)
			p.CrashPower = f.B == 1
			p.OnDeath = func(*simrt.Proc) { w.After(0, func() { restart(p) }) }
		}
	case "term":
		if a.Up() {
			p := a.Proc
			a.Term()
			restart(p)
		}
	case "jump":
		if a.Proc != nil {
			a.Proc.ClockJump(time.Duration(f.Arg) * time.Millisecond)
		}
	case "diskfail":
		a.Host.FS.FailP = int(f.Arg)
		w.After(dur, func() { a.Host.FS.FailP = 0 })
	case "diskfull":
		a.Host.FS.Full = true
		w.After(dur, func() { a.Host.FS.Full = false })
	case "diskslow":
		a.Host.FS.SlowMax = time.Duration(f.Arg) * time.Microsecond
		w.After(dur, func() { a.Host.FS.SlowMax = 0 })
	default:
		panic("unknown fault " + f.Kind)
	}
}

// ---- data ----------------------------------------------------------------------------------

func DatumStr(d *pb.Datum) string {
	if d == nil || d.Key == nil {
		return "nil"
	}
	f := d.Key.Feature
	if len(f) > 3 {
		f = f[:3]
	}
	return fmt.Sprintf("%v/%s=%s", f, d.Key.GroupLabel, clip(string(d.GetValue().GetLabel()), 40))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + ".."
	}
	return s
}

// KeyOf is the identity of a datum: every field of its key.
func KeyOf(d *pb.Datum) string {
	k := d.GetKey()
	return fmt.Sprintf("%v|%d|%d|%d|%d|%s", k.GetFeature(), k.GetSize1(), k.GetSize2(), k.GetDim1(), k.GetDim2(), k.GetGroupLabel())
}

func ValOf(d *pb.Datum) string {
	v := d.GetValue()
	return fmt.Sprintf("%d|%s", v.GetVersion(), v.GetLabel())
}

func SortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (e *Env) Sample(f string, a ...interface{}) {
	if len(e.Samples) < 6 {
		e.Samples = append(e.Samples, fmt.Sprintf(f, a...))
	}
}

func (e *Env) UID() string {
	e.uid++
	return fmt.Sprintf("q-%d-%d", e.P.Seed, e.uid)
}

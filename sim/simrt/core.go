// Package simrt is the deterministic simulation runtime: a cooperative
// scheduler over real goroutines of which exactly one runs at a time, a
// discrete event clock, simulated processes and hosts, and the seams (channels,
// locks, clocks, files, sockets, randomness, signals) that the instrumented
// code is rewritten to use. One integer seed decides every choice.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// ---- random streams -----------------------------------------------------------

type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *RNG) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *RNG) Int63n(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.Uint64() % uint64(n))
}
func (r *RNG) Float64() float64    { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *RNG) Bool(p float64) bool { return r.Float64() < p }
func (r *RNG) Pick(n ...int) int   { return n[r.Intn(len(n))] }
func (r *RNG) Range(a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + r.Int63n(b-a+1)
}

// LogDur draws a duration log-uniformly between a and b.
func (r *RNG) LogDur(a, b time.Duration) time.Duration {
	if b <= a {
		return a
	}
	f := r.Float64()
	x := float64(a)
	ratio := float64(b) / float64(a)
	// x * ratio^f without math.Pow (deterministic across platforms anyway)
	return time.Duration(x * pow(ratio, f))
}

// ---- scheduling configuration ---------------------------------------------------

// Sched is the schedule part of a run's configuration: everything the scheduler
// does is a function of it.
type Sched struct {
	Seed     uint64 `json:"seed"`
	Policy   string `json:"policy"`  // "random" or "pct"
	Quantum  int    `json:"quantum"` // mean number of steps between preemptions
	StepNS   int64  `json:"step_ns"` // simulated cost of one step
	StallP   int    `json:"stall_p"` // per-mille of preemptions that stall the task
	StallMax int64  `json:"stall_max_us"`
	HotSites int    `json:"hot_sites"` // number of code sites at which tasks are delayed
	HotP     int    `json:"hot_p"`     // per-mille probability of a delay at a hot site
	HotMax   int64  `json:"hot_max_us"`
	PCTDepth int    `json:"pct_depth"`
	// minimisation: no voluntary preemption/stall after this many (0: unlimited, -1: none)
	PreemptLimit int    `json:"preempt_limit"`
	MaxSteps     uint64 `json:"max_steps"`
	HotList      []int  `json:"hot_list,omitempty"`
}

// ---- tasks, processes -------------------------------------------------------------

type Task struct {
	hotN    int
	hotLast time.Duration
	ID      int
	proc    *Proc
	wake    chan struct{}
	site    int
	name    string
	killed  bool
	exit    bool
	dead    bool
	inq     bool
	why     string
	prio    uint64
	noPre   int
}

type Proc struct {
	ID      int
	Name    string
	Host    *Host
	Dead    bool
	Exited  bool // left by itself (os.Exit or main returned)
	Code    int
	Panic   string
	Stack   string
	Harness bool
	skew    time.Duration
	tasks   []*Task
	live    int
	vars    []interface{}
	paused  bool
	pausedQ []*Task
	sigs    []sigReg
	onExit  []func()
	Steps   uint64
	crashAt uint64
	FSOps   int
	Started time.Duration
	https   map[string]*HTTPEndpoint
	Logs    []string
	annoy   interface{}
	// crash when the fs op counter reaches this value (0: never)
	CrashAtFSOp int
	CrashPower  bool
	OnDeath     func(p *Proc)
}

type timer struct {
	when time.Duration
	seq  uint64
	fn   func()
	idx  int
	off  bool
	proc *Proc
}

type World struct {
	Cfg          Sched
	now          time.Duration
	nextT        time.Duration
	Steps        uint64
	seq          uint64
	heap         []*timer
	runq         []*Task
	zombies      []*Task
	tasks        []*Task
	Procs        []*Proc
	hosts        map[string]*Host
	hostList     []*Host
	RSched       *RNG
	RNet         *RNG
	RFS          *RNG
	RApp         *RNG
	RMap         *RNG
	count        int
	hot          []bool
	epoch        time.Duration
	stopping     bool
	Reason       string
	done         chan struct{}
	reap         chan struct{}
	taskSeq      int
	Hash         uint64
	Switches     uint64
	Preempts     int
	Stalls       int
	HotHits      int
	chans        map[uintptrKey]interface{}
	tickets      uint64
	Trace        bool
	TraceBuf     []string
	traceMax     int
	pctNext      uint64
	Net          *Net
	Counters     map[string]int
	HarnessPanic string
	pctLow       uint64
	PairSeen     map[uint64]struct{}
}

var W *World
var cur *Task

func Now() time.Duration { return W.now }
func Cur() *Task         { return cur }
func CurProc() *Proc {
	if cur == nil {
		return bootProc
	}
	return cur.proc
}

var bootProc = &Proc{Name: "boot"}

const farFuture = time.Duration(1<<62 - 1)

func NewWorld(cfg Sched) *World {
	if cfg.Quantum <= 0 {
		cfg.Quantum = 20
	}
	if cfg.StepNS <= 0 {
		cfg.StepNS = 500
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 150_000_000
	}
	w := &World{Cfg: cfg, nextT: farFuture, hosts: map[string]*Host{}, chans: map[uintptrKey]interface{}{},
		done: make(chan struct{}, 1), reap: make(chan struct{}), Counters: map[string]int{}, traceMax: 200000, PairSeen: map[uint64]struct{}{}}
	w.RSched = NewRNG(cfg.Seed ^ 0x51)
	w.RNet = NewRNG(cfg.Seed ^ 0xA2000)
	w.RFS = NewRNG(cfg.Seed ^ 0xB3000000)
	w.RApp = NewRNG(cfg.Seed ^ 0xC400000000)
	w.RMap = NewRNG(cfg.Seed ^ 0xD50000000000)
	w.epoch = time.Duration(1_700_000_000)*time.Second + time.Duration(NewRNG(cfg.Seed^0xE6).Int63n(int64(1000*time.Second)))
	w.hot = make([]bool, len(SiteNames)+1)
	if len(cfg.HotList) > 0 {
		for _, s := range cfg.HotList {
			if s >= 0 && s < len(w.hot) {
				w.hot[s] = true
			}
		}
	} else if cfg.HotSites > 0 && len(SiteNames) > 0 {
		r := NewRNG(cfg.Seed ^ 0xF7)
		for i := 0; i < cfg.HotSites; i++ {
			w.hot[r.Intn(len(SiteNames))] = true
		}
	}
	w.count = w.drawQuantum()
	w.pctLow = 1 << 30
	w.Net = newNet(w)
	return w
}

func (w *World) drawQuantum() int {
	q := w.Cfg.Quantum
	if q <= 1 {
		return 1
	}
	// roughly geometric: uniform in [1, 2q)
	return 1 + w.RSched.Intn(2*q-1)
}

func (w *World) NewProc(name string, h *Host) *Proc {
	p := &Proc{ID: len(w.Procs), Name: name, Host: h, https: map[string]*HTTPEndpoint{}, Started: w.now}
	w.Procs = append(w.Procs, p)
	if h != nil {
		h.procs = append(h.procs, p)
	}
	return p
}

// Run executes main as the harness task until it returns, the world deadlocks
// or the step budget runs out, then tears every task down.
func (w *World) Run(main func()) {
	W = w
	hp := w.NewProc("harness", nil)
	hp.Harness = true
	t := w.newTask(hp, "main", func() {
		main()
		w.stop("done")
	})
	w.ready(t)
	w.RNet.Uint64()
	n := w.pickNext()
	cur = n
	n.wake <- struct{}{}
	<-w.done
	// teardown
	w.stopping = true
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.dead {
			continue
		}
		t.killed = true
		cur = t
		t.wake <- struct{}{}
		<-w.reap
	}
	cur = nil
	W = nil
}

func (w *World) stop(reason string) {
	if !w.stopping {
		w.stopping = true
		w.Reason = reason
		w.done <- struct{}{}
	}
	t := cur
	if t != nil {
		cur = nil
		<-t.wake // until teardown
		t.exit = true
		runtime.Goexit()
	}
}

func (w *World) newTask(p *Proc, name string, fn func()) *Task {
	w.taskSeq++
	t := &Task{ID: w.taskSeq, proc: p, wake: make(chan struct{}, 1), name: name, prio: 1<<32 + w.RSched.Uint64()>>32}
	w.tasks = append(w.tasks, t)
	p.tasks = append(p.tasks, t)
	p.live++
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			if r != nil && !t.killed {
				st := string(debug.Stack())
				w.procPanic(p, fmt.Sprint(r), st)
			}
			t.dead = true
			p.live--
			if w.stopping {
				w.reap <- struct{}{}
				return
			}
			if len(p.tasks) > 64 && len(p.tasks) > 2*p.live {
				p.compact()
			}
			if len(w.tasks) > 4096 {
				w.compact()
			}
			cur = nil
			n := w.pickNext()
			if n == nil {
				// world stopped while this task was exiting
				w.reapWait(t)
				return
			}
			w.handoff(n)
		}()
		if t.killed {
			t.exit = true
			runtime.Goexit()
		}
		fn()
	}()
	return t
}

// reapWait: the dying task already counts as dead; teardown skips it.
func (w *World) reapWait(t *Task) {}

func (p *Proc) compact() {
	o := p.tasks[:0]
	for _, t := range p.tasks {
		if !t.dead {
			o = append(o, t)
		}
	}
	p.tasks = o
}

func (w *World) compact() {
	n := 0
	for _, t := range w.tasks {
		if !t.dead {
			n++
		}
	}
	if n > len(w.tasks)/2 {
		return
	}
	o := make([]*Task, 0, n*2)
	for _, t := range w.tasks {
		if !t.dead {
			o = append(o, t)
		}
	}
	w.tasks = o
}

func (w *World) handoff(n *Task) {
	w.Switches++
	w.Hash = (w.Hash ^ uint64(n.ID)<<24 ^ uint64(n.site)) * 0x100000001B3
	cur = n
	n.wake <- struct{}{}
}

func (w *World) ready(t *Task) {
	if t.dead || t.inq {
		return
	}
	if t.killed {
		return // already among the zombies
	}
	if t.proc.paused {
		t.inq = true
		t.proc.pausedQ = append(t.proc.pausedQ, t)
		return
	}
	t.inq = true
	w.runq = append(w.runq, t)
}

// pickNext chooses the next task to run, advancing the clock when nothing is
// runnable. nil: the world stopped.
func (w *World) pickNext() *Task {
	for {
		if w.stopping {
			return nil
		}
		if n := len(w.zombies); n > 0 {
			t := w.zombies[0]
			w.zombies = w.zombies[1:]
			if t.dead {
				continue
			}
			return t
		}
		if w.now >= w.nextT {
			w.fireDue()
			continue
		}
		if n := len(w.runq); n > 0 {
			i := 0
			if w.Cfg.Policy == "pct" {
				for j := 1; j < n; j++ {
					if w.runq[j].prio > w.runq[i].prio {
						i = j
					}
				}
			} else if n > 1 {
				i = w.RSched.Intn(n)
			}
			t := w.runq[i]
			w.runq[i] = w.runq[n-1]
			w.runq = w.runq[:n-1]
			t.inq = false
			if t.dead {
				continue
			}
			return t
		}
		if w.nextT == farFuture {
			w.Reason = "deadlock"
			w.stopping = true
			w.done <- struct{}{}
			return nil
		}
		w.now = w.nextT
	}
}

// switchAway gives up the processor; the caller has queued itself wherever it
// needs to be woken from.
func (w *World) switchAway(t *Task) {
	cur = nil
	n := w.pickNext()
	if n == nil {
		<-t.wake
		t.exit = true
		runtime.Goexit()
	}
	if n != t {
		if n.proc == t.proc && !t.proc.Harness {
			w.PairSeen[uint64(t.site)<<32|uint64(n.site)] = struct{}{}
		}
		w.handoff(n)
		<-t.wake
	} else {
		cur = t
	}
	if t.killed && !t.exit {
		t.exit = true
		runtime.Goexit()
	}
}

// block parks the current task until ready() is called on it.
func (w *World) block(why string) {
	t := cur
	if t.killed {
		return
	}
	t.why = why
	w.switchAway(t)
	t.why = ""
}

// zombie reports whether the current task has been killed and is only running
// its deferred calls, in which every operation is void.
func zombie() bool {
	t := cur
	if t == nil {
		return true
	}
	if t.killed {
		if !t.exit {
			t.exit = true
			runtime.Goexit()
		}
		return true
	}
	return false
}

// Y is a scheduling point; the instrumenter puts one before every statement.
func Y(site int) {
	t := cur
	if t == nil {
		return
	}
	if t.killed {
		if !t.exit {
			t.exit = true
			runtime.Goexit()
		}
		return
	}
	w := W
	t.site = site
	w.Steps++
	w.now += time.Duration(w.Cfg.StepNS)
	w.count--
	p := t.proc
	p.Steps++
	if w.count > 0 && w.now < w.nextT && !w.hot[site] && p.Steps != p.crashAt {
		return
	}
	w.slowY(t, site)
}

// YV is a scheduling point between the evaluation of a value and its store.
func YV[T any](v T) T {
	t := cur
	if t != nil {
		Y(t.site)
	}
	return v
}

func yop() {
	if t := cur; t != nil {
		Y(t.site)
	}
}

func (w *World) slowY(t *Task, site int) {
	p := t.proc
	if w.Steps > w.Cfg.MaxSteps {
		w.stop("steplimit")
	}
	if p.crashAt != 0 && p.Steps == p.crashAt {
		w.Counters["crash_at_step"]++
		w.CrashProc(p, p.CrashPower)
		zombie()
	}
	if w.now >= w.nextT {
		w.fireDue()
		if t.killed {
			zombie()
			return
		}
	}
	limited := w.Cfg.PreemptLimit != 0 && (w.Cfg.PreemptLimit < 0 || w.Preempts >= w.Cfg.PreemptLimit)
	if p.paused {
		w.ready(t)
		w.switchAway(t)
		return
	}
	if w.hot[site] && !p.Harness && !limited {
		// a loop over a hot site is delayed a few times, not in every round
		if w.now-t.hotLast > 5*time.Second {
			t.hotN = 0
		}
		t.hotLast = w.now
		if t.hotN < 12 && w.RSched.Intn(1000) < w.Cfg.HotP {
			t.hotN++
			w.HotHits++
			w.Preempts++
			d := w.RSched.LogDur(time.Millisecond, time.Duration(w.Cfg.HotMax)*time.Microsecond)
			w.stall(t, d)
			return
		}
	}
	if w.count > 0 {
		return
	}
	w.count = w.drawQuantum()
	if limited {
		return
	}
	if p.Harness {
		// harness steps do not count as preemptions of the system
		if len(w.runq) > 0 {
			w.ready(t)
			w.switchAway(t)
		}
		return
	}
	if w.Cfg.StallP > 0 && w.RSched.Intn(1000) < w.Cfg.StallP {
		w.Stalls++
		w.Preempts++
		w.stall(t, w.RSched.LogDur(10*time.Microsecond, time.Duration(w.Cfg.StallMax)*time.Microsecond))
		return
	}
	if w.Cfg.Policy == "pct" {
		// priority change point: this task drops below everyone else
		if w.RSched.Intn(8) == 0 {
			w.pctLow--
			t.prio = w.pctLow
		}
	}
	if len(w.runq) == 0 {
		return
	}
	w.Preempts++
	w.ready(t)
	w.switchAway(t)
}

func (w *World) stall(t *Task, d time.Duration) {
	w.After(d, func() { w.ready(t) })
	w.block("stalled")
}

// ---- timers -----------------------------------------------------------------------

func (w *World) After(d time.Duration, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	return w.At(w.now+d, fn)
}

func (w *World) At(when time.Duration, fn func()) *timer {
	w.seq++
	t := &timer{when: when, seq: w.seq, fn: fn}
	w.push(t)
	return t
}

func less(a, b *timer) bool {
	return a.when < b.when || (a.when == b.when && a.seq < b.seq)
}

func (w *World) push(t *timer) {
	h := append(w.heap, t)
	i := len(h) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !less(h[i], h[p]) {
			break
		}
		h[i], h[p] = h[p], h[i]
		i = p
	}
	w.heap = h
	w.nextT = h[0].when
}

func (w *World) pop() *timer {
	h := w.heap
	t := h[0]
	n := len(h) - 1
	h[0] = h[n]
	h[n] = nil
	h = h[:n]
	i := 0
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && less(h[c+1], h[c]) {
			c++
		}
		if !less(h[c], h[i]) {
			break
		}
		h[c], h[i] = h[i], h[c]
		i = c
	}
	w.heap = h
	if n > 0 {
		w.nextT = h[0].when
	} else {
		w.nextT = farFuture
	}
	return t
}

func (w *World) fireDue() {
	saved := cur
	cur = nil
	defer func() { cur = saved }()
	for len(w.heap) > 0 && w.heap[0].when <= w.now && !w.stopping {
		t := w.pop()
		if t.off {
			continue
		}
		t.off = true
		if t.proc != nil && t.proc.Dead {
			continue
		}
		t.fn()
	}
}

// ---- process life cycle ---------------------------------------------------------------

// Go starts a task in the current process.
func Go(site int, fn func()) {
	if zombie() {
		return
	}
	t := W.newTask(cur.proc, "", fn)
	t.site = site
	W.ready(t)
	yop()
}

// GoProc starts a task in process p (from the harness or the network).
func GoProc(p *Proc, name string, fn func()) *Task {
	if p.Dead {
		return nil
	}
	t := W.newTask(p, name, fn)
	W.ready(t)
	return t
}

// Start runs fn as the main function of process p: when it returns the process
// exits.
func (p *Proc) Start(fn func()) {
	p.Started = W.now
	GoProc(p, "main", func() {
		for _, f := range initFns {
			f()
		}
		fn()
		W.exitProc(p, 0)
		zombie()
	})
}

var initFns []func()

// RegisterInit is called by instrumented packages for each init function.
func RegisterInit(f func()) { initFns = append(initFns, f) }

func (w *World) killTasks(p *Proc) {
	if p.Dead {
		return
	}
	p.Dead = true
	for _, t := range p.tasks {
		if t.dead || t.killed {
			continue
		}
		t.killed = true
		if t != cur {
			w.zombies = append(w.zombies, t)
		}
		// leave run queue entries alone; they are skipped (inq) once dead
		if t.inq {
			w.unqueue(t)
		}
	}
	for _, f := range p.onExit {
		f()
	}
	p.onExit = nil
	if p.OnDeath != nil {
		p.OnDeath(p)
	}
}

func (w *World) unqueue(t *Task) {
	for i, x := range w.runq {
		if x == t {
			w.runq[i] = w.runq[len(w.runq)-1]
			w.runq = w.runq[:len(w.runq)-1]
			break
		}
	}
	t.inq = false
}

func (w *World) exitProc(p *Proc, code int) {
	if p.Dead {
		return
	}
	p.Exited = true
	p.Code = code
	w.Tracef("process %s exits with code %d", p.Name, code)
	w.killTasks(p)
}

func (w *World) procPanic(p *Proc, msg, stack string) {
	if p.Harness {
		w.HarnessPanic = msg + "\n" + stack
		if !w.stopping {
			w.stopping = true
			w.Reason = "harness panic"
			w.done <- struct{}{}
		}
		return
	}
	if p.Dead {
		return
	}
	p.Panic = msg
	p.Stack = trimStack(stack)
	w.Tracef("process %s PANICS: %s", p.Name, msg)
	w.killTasks(p)
}

func trimStack(s string) string {
	var o []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") || strings.Contains(l, "verisim/simrt") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if l != "" {
			o = append(o, strings.TrimPrefix(l, "verisim/inst/"))
		}
		if len(o) > 8 {
			break
		}
	}
	return strings.Join(o, " < ")
}

// Fatal is a Go runtime fatal error: the process dies, recover does not help.
func fatal(msg string) {
	p := cur.proc
	W.procPanic(p, "fatal error: "+msg, string(debug.Stack()))
	zombie()
}

// Segv is a memory fault in native code: the process dies.
func Segv(msg string) {
	if zombie() {
		return
	}
	fatal("memory fault: " + msg)
}

// CrashProc kills the process abruptly (kill -9), and with power=true the whole
// host: unsynced file data is lost as well.
func (w *World) CrashProc(p *Proc, power bool) {
	if p.Dead {
		return
	}
	w.Tracef("CRASH %s power=%v", p.Name, power)
	if power && p.Host != nil {
		p.Host.Down = true
		for _, q := range p.Host.procs {
			w.killTasks(q)
		}
		p.Host.FS.powerFail()
		w.Counters["host_crash"]++
	} else {
		w.killTasks(p)
		w.Counters["process_crash"]++
	}
}

// CrashAfterSteps arms a crash of p after n more of its own steps.
func (p *Proc) CrashAfterSteps(n uint64, power bool) {
	p.crashAt = p.Steps + n
	p.CrashPower = power
}

func (p *Proc) Pause() {
	if p.Dead || p.paused {
		return
	}
	w := W
	w.Tracef("PAUSE %s", p.Name)
	w.Counters["process_pause"]++
	p.paused = true
	o := w.runq[:0]
	for _, t := range w.runq {
		if t.proc == p {
			p.pausedQ = append(p.pausedQ, t)
		} else {
			o = append(o, t)
		}
	}
	w.runq = o
}

func (p *Proc) Resume() {
	if !p.paused {
		return
	}
	W.Tracef("RESUME %s", p.Name)
	p.paused = false
	q := p.pausedQ
	p.pausedQ = nil
	for _, t := range q {
		t.inq = false
		W.ready(t)
	}
}

func (p *Proc) Paused() bool { return p.paused }

// ClockJump moves the process's wall clock; timers are unaffected.
func (p *Proc) ClockJump(d time.Duration) {
	p.skew += d
	W.Counters["clock_jump"]++
	W.Tracef("CLOCK %s %+v", p.Name, d)
}
func (p *Proc) SetSkew(d time.Duration) { p.skew = d }
func (p *Proc) Skew() time.Duration     { return p.skew }
func (p *Proc) Live() int               { return p.live }

// LiveBut counts the live tasks that do not stand in one of the named functions.
func (p *Proc) LiveBut(not ...string) (n int) {
next:
	for _, t := range p.tasks {
		if t.dead {
			continue
		}
		if t.site < len(SiteNames) {
			for _, x := range not {
				if strings.HasSuffix(SiteNames[t.site], x) {
					continue next
				}
			}
		}
		n++
	}
	return
}

// Tasks describes the live tasks of p and where they stand.
func (p *Proc) TaskDump() []string {
	m := map[string]int{}
	for _, t := range p.tasks {
		if t.dead {
			continue
		}
		s := "?"
		if t.site < len(SiteNames) {
			s = SiteNames[t.site]
		}
		m[s+" "+t.why]++
	}
	var o []string
	for k, n := range m {
		o = append(o, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(o)
	return o
}

// ---- trace -----------------------------------------------------------------------

func (w *World) Tracef(f string, a ...interface{}) {
	if !w.Trace || len(w.TraceBuf) >= w.traceMax {
		return
	}
	who := "-"
	if cur != nil {
		who = fmt.Sprintf("%s#%d", cur.proc.Name, cur.ID)
	}
	w.TraceBuf = append(w.TraceBuf, fmt.Sprintf("%12.6f %-14s %s", w.now.Seconds(), who, fmt.Sprintf(f, a...)))
}

func Tracef(f string, a ...interface{}) {
	if W != nil {
		W.Tracef(f, a...)
	}
}

// Mix adds harness-visible events to the run's event hash.
func (w *World) Mix(x uint64) { w.Hash = (w.Hash ^ x) * 0x100000001B3 }
func (w *World) MixStr(s string) {
	for i := 0; i < len(s); i++ {
		w.Hash = (w.Hash ^ uint64(s[i])) * 0x100000001B3
	}
}

func Count(name string) {
	if W != nil {
		W.Counters[name]++
	}
}

// NextTicket is the global event sequence number used to stamp histories.
func NextTicket() uint64 { W.tickets++; return W.tickets }

// ---- wait queues for shims ---------------------------------------------------------

type WaitQ struct{ q []*Task }

func (q *WaitQ) Wait(why string) {
	if zombie() {
		return
	}
	q.q = append(q.q, cur)
	W.block(why)
}

func (q *WaitQ) WakeAll() {
	l := q.q
	q.q = nil
	for _, t := range l {
		W.ready(t)
	}
}

func (q *WaitQ) Empty() bool { return len(q.q) == 0 }

// Zombie lets shims outside this package honour a kill.
func Zombie() bool { return zombie() }
func Yop()         { yop() }

// Sleep for harness code and shims.
func Sleep(d time.Duration) {
	if zombie() {
		return
	}
	t := cur
	tm := W.After(d, func() { W.ready(t) })
	W.block("sleep")
	tm.off = true
}
func After(d time.Duration, fn func()) *timer { return W.After(d, fn) }
func (t *timer) Cancel()                      { t.off = true }

// Elapsed is the simulated time covered so far.
func (w *World) Elapsed() time.Duration { return w.now }

// Disarm removes an armed crash.
func (p *Proc) Disarm() { p.crashAt = 0 }

// Calm ends the delays the schedule adds (interleavings stay random), for
// liveness checks once the faults have stopped.
func (w *World) Calm() {
	w.Cfg.StallP, w.Cfg.HotP = 0, 0
	if w.Cfg.StepNS > 300 {
		w.Cfg.StepNS = 300
	}
}

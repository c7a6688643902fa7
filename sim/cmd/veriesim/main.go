// veriesim drives the simulation: check (seeded search, minimisation, evidence),
// worker (one process of a check), replay (re-execute a reported failure).
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verisim/h"
	"verisim/simrt"
)

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // fixed or open
	Kind     string `json:"kind,omitempty"`
	Match    string `json:"match,omitempty"` // regular expression over the violation's detail
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type WorkerResult struct {
	Runs        int            `json:"runs"`
	Checks      int            `json:"checks"`
	NonTrivial  int            `json:"nontrivial"`
	SimNS       int64          `json:"sim_ns"`
	Steps       uint64         `json:"steps"`
	MaxSteps    uint64         `json:"max_steps"`
	Switches    uint64         `json:"switches"`
	Preempts    int            `json:"preempts"`
	Stalls      int            `json:"stalls"`
	HotHits     int            `json:"hot"`
	AnnoyBuilt  int            `json:"annoy_built"`
	Counters    map[string]int `json:"counters"`
	Hashes      []uint64       `json:"hashes"`
	Pairs       []uint64       `json:"pairs"`
	Samples     []string       `json:"samples"`
	Rechecked   int            `json:"rechecked"`
	NonDet      []string       `json:"nondet"`
	Errs        []string       `json:"errs"`
	Known       map[string]int `json:"known"`
	Viol        *h.Violation   `json:"viol,omitempty"`
	Plan        *h.Plan        `json:"plan,omitempty"`
	K           uint64         `json:"k"`
	WallS       float64        `json:"wall_s"`
	ByScen      map[string]int `json:"by_scenario"`
	MaxRunMS    int64          `json:"max_run_ms"`
	SlowestSeed uint64         `json:"slowest_k"`
}

type Replay struct {
	Property  string      `json:"property"`
	Violation h.Violation `json:"violation"`
	Hash      string      `json:"hash"`
	BaseSeed  uint64      `json:"base_seed"`
	K         uint64      `json:"k"`
	Minimised string      `json:"minimised"`
	Plan      *h.Plan     `json:"plan"`
	Crash     bool        `json:"crash,omitempty"`
	Trace     []string    `json:"trace"`
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "veriesim: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: veriesim check|worker|replay|one ...")
	}
	debug.SetGCPercent(200)
	h.Init()
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "min":
		minCmd(os.Args[2:])
	default:
		die("unknown command %s", os.Args[1])
	}
}

// one: run a single generated plan, for development.
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	k := fs.Uint64("k", 0, "")
	tr := fs.Bool("trace", false, "")
	pl := fs.Bool("plan", false, "")
	fs.Parse(args)
	p := h.GenPlan(*prop, *seed, *k)
	t := time.Now()
	o := h.RunPlan(p, *tr)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	if *pl {
		b, _ := json.Marshal(p)
		fmt.Println(string(b))
	}
	fmt.Printf("%s err=%q hash=%x steps=%d sim=%v switches=%d checks=%d wall=%v\n", o.Reason, o.Err, o.Hash, o.Steps, o.Sim, o.Switches, o.Checks, time.Since(t))
	fmt.Println(o.Counters)
	for _, s := range o.Samples {
		fmt.Println("sample:", s)
	}
	for _, v := range o.Violations {
		fmt.Println("VIOL", v.Kind, v.Detail)
	}
}

func loadKnown(path, prop string) (open []Finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var d struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		die("known findings: %v", err)
	}
	for _, f := range d.Findings {
		if f.Status == "open" && f.Property == prop {
			open = append(open, f)
		}
	}
	return open
}

func matchKnown(open []Finding, v h.Violation) *Finding {
	for i := range open {
		f := &open[i]
		if f.Kind == v.Kind && regexp.MustCompile(f.Match).MatchString(v.Detail) {
			return f
		}
	}
	return nil
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Uint64("idx", 0, "")
	n := fs.Uint64("n", 1, "")
	secs := fs.Float64("secs", 10, "")
	cur := fs.String("cur", "", "")
	known := fs.String("known", "", "")
	max := fs.Int("max", 0, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	open := loadKnown(*known, *prop)
	res := &WorkerResult{Counters: map[string]int{}, Known: map[string]int{}, ByScen: map[string]int{}}
	hashes := map[uint64]bool{}
	pairs := map[uint64]struct{}{}
	start := time.Now()
	curf, _ := os.Create(*cur)
	for k := *idx; time.Since(start).Seconds() < *secs; k += *n {
		if *max > 0 && res.Runs >= *max {
			break
		}
		if curf != nil {
			b := []byte(fmt.Sprintf("%d\n", k))
			curf.Truncate(0)
			curf.WriteAt(b, 0)
		}
		p := h.GenPlan(*prop, *seed, k)
		t := time.Now()
		o := h.RunPlan(p, false)
		if ms := time.Since(t).Milliseconds(); ms > res.MaxRunMS {
			res.MaxRunMS, res.SlowestSeed = ms, k
		}
		res.Runs++
		res.ByScen[p.Scenario]++
		res.Checks += o.Checks
		if o.Checks > 0 && !hashes[o.Hash] {
			res.NonTrivial++
		}
		hashes[o.Hash] = true
		for q := range h.LastPairs() {
			pairs[q] = struct{}{}
		}
		res.SimNS += int64(o.Sim)
		res.Steps += o.Steps
		if o.Steps > res.MaxSteps {
			res.MaxSteps = o.Steps
		}
		res.Switches += o.Switches
		res.Preempts += o.Preempts
		res.Stalls += o.Stalls
		res.HotHits += o.HotHits
		res.AnnoyBuilt += o.AnnoyBuilt
		for c, v := range o.Counters {
			res.Counters[c] += v
		}
		if len(res.Samples) < 3 && len(o.Samples) > 0 {
			res.Samples = append(res.Samples, fmt.Sprintf("seed=%d k=%d scenario=%s nodes=%d ops=%d faults=%d: %s", p.Seed, k, p.Scenario, p.Nodes, len(p.Ops), len(p.Faults), strings.Join(o.Samples, "; ")))
		}
		if o.Err != "" {
			res.Errs = append(res.Errs, fmt.Sprintf("k=%d: %s", k, o.Err))
			if len(res.Errs) > 20 {
				break
			}
			continue
		}
		if len(o.Violations) > 0 {
			var fresh *h.Violation
			for i := range o.Violations {
				if f := matchKnown(open, o.Violations[i]); f != nil {
					res.Known[f.What]++
				} else if fresh == nil {
					fresh = &o.Violations[i]
				}
			}
			if fresh != nil {
				res.Viol, res.Plan, res.K = fresh, p, k
				break
			}
		}
		if res.Runs%40 == 7 {
			o2 := h.RunPlan(p, false)
			res.Rechecked++
			if o2.Hash != o.Hash || o2.Steps != o.Steps {
				res.NonDet = append(res.NonDet, fmt.Sprintf("k=%d", k))
			}
		}
	}
	for x := range hashes {
		res.Hashes = append(res.Hashes, x)
	}
	for x := range pairs {
		res.Pairs = append(res.Pairs, x)
	}
	res.WallS = time.Since(start).Seconds()
	w := bufio.NewWriter(os.Stdout)
	json.NewEncoder(w).Encode(res)
	w.Flush()
}

type wproc struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	errb bytes.Buffer
	cur  string
	err  error
	hung bool
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	secs := fs.Float64("secs", 40, "")
	workers := fs.Int("workers", 8, "")
	outDir := fs.String("out", "out", "")
	evid := fs.String("evidence", "", "")
	known := fs.String("known", "", "")
	max := fs.Int("max", 0, "")
	fs.Parse(args)
	pr := h.Props[*prop]
	if pr == nil {
		die("unknown property %s", *prop)
	}
	start := time.Now()
	self, _ := os.Executable()
	os.MkdirAll(*outDir, 0o755)
	procs := make([]*wproc, *workers)
	done := make(chan int, *workers)
	for i := range procs {
		p := &wproc{cur: filepath.Join(*outDir, fmt.Sprintf(".cur-%s-%d-%d", *prop, os.Getpid(), i))}
		p.cmd = exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-idx", fmt.Sprint(i), "-n", fmt.Sprint(*workers),
			"-secs", fmt.Sprint(*secs), "-cur", p.cur, "-known", *known, "-max", fmt.Sprint(*max))
		p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.errb
		p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
		if err := p.cmd.Start(); err != nil {
			die("start worker: %v", err)
		}
		procs[i] = p
		go func(i int) {
			procs[i].err = procs[i].cmd.Wait()
			done <- i
		}(i)
	}
	watchdog := time.After(time.Duration(*secs*float64(time.Second)) + 90*time.Second)
	left := *workers
	tot := &WorkerResult{Counters: map[string]int{}, Known: map[string]int{}, ByScen: map[string]int{}}
	hashes, pairs := map[uint64]bool{}, map[uint64]bool{}
	var viol *WorkerResult
	var crashed []*wproc
	var workerTrouble []string
	stopRest := func() {
		for _, p := range procs {
			p.cmd.Process.Kill()
		}
	}
loop:
	for left > 0 {
		select {
		case i := <-done:
			left--
			p := procs[i]
			var r WorkerResult
			if p.err != nil || json.Unmarshal(p.out.Bytes(), &r) != nil {
				if viol == nil {
					crashed = append(crashed, p)
				}
				continue
			}
			merge(tot, &r, hashes, pairs)
			if r.Viol != nil && (viol == nil || r.K < viol.K) {
				viol = &r
				// the others' results are not needed any more
				go func() { time.Sleep(1500 * time.Millisecond); stopRest() }()
			}
		case <-watchdog:
			for _, p := range procs {
				if p.cmd.ProcessState == nil {
					p.hung = true
					p.cmd.Process.Kill()
				}
			}
			for left > 0 {
				i := <-done
				left--
				if procs[i].hung && viol == nil {
					crashed = append(crashed, procs[i])
				}
			}
			break loop
		}
	}
	for _, p := range procs {
		defer os.Remove(p.cur)
	}
	explored := time.Since(start)
	var rep *Replay
	if viol != nil {
		rep = minimise(viol.Plan, viol.Viol, 60*time.Second)
		rep.BaseSeed, rep.K = *seed, viol.K
	} else if len(crashed) > 0 {
		// did the code under test take the process down? the same plan must do it again
		for _, p := range crashed {
			b, _ := os.ReadFile(p.cur)
			var k uint64
			fmt.Sscan(string(b), &k)
			plan := h.GenPlan(*prop, *seed, k)
			rp := &Replay{Property: *prop, Plan: plan, BaseSeed: *seed, K: k, Crash: true, Minimised: "not minimised",
				Violation: h.Violation{Kind: "process-crash", Detail: "the process running the nodes died or hung: " + tail(p.errb.String(), 600)}}
			f := filepath.Join(*outDir, fmt.Sprintf("%s-crash-%d.json", *prop, k))
			writeJSON(f, rp)
			if runReplay(self, f, 120*time.Second) == 1 {
				rep = rp
				break
			}
			os.Remove(f)
			workerTrouble = append(workerTrouble, fmt.Sprintf("worker died at k=%d (%v, hung=%v) but the plan alone does not: %s", k, p.err, p.hung, tail(p.errb.String(), 300)))
		}
	}
	violations := 0
	code := 0
	if rep != nil {
		violations = 1
		f := filepath.Join(*outDir, fmt.Sprintf("%s-%d-%d.json", *prop, *seed, rep.K))
		writeJSON(f, rep)
		ok := rep.Crash
		if !ok {
			ok = runReplay(self, f, 240*time.Second) == 1
			if !ok && viol != nil {
				// fall back to the unminimised plan
				o := h.RunPlan(viol.Plan, true)
				rep.Plan, rep.Hash, rep.Trace, rep.Minimised = viol.Plan, fmt.Sprintf("%x", o.Hash), clipTrace(o.Trace), "no"
				rep.Violation = *viol.Viol
				writeJSON(f, rep)
				ok = runReplay(self, f, 240*time.Second) == 1
			}
		}
		if ok {
			fmt.Printf("%s: %s\n", rep.Violation.Kind, rep.Violation.Detail)
			fmt.Printf("seed=%d k=%d scenario=%s nodes=%d ops=%d faults=%d (%s)\n", *seed, rep.K, rep.Plan.Scenario, rep.Plan.Nodes, len(rep.Plan.Ops), len(rep.Plan.Faults), rep.Minimised)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
			code = 1
		} else {
			fmt.Fprintf(os.Stderr, "a violation did not replay in a fresh process: %s %s (%s)\n", rep.Violation.Kind, rep.Violation.Detail, f)
			code = 2
		}
	}
	for w, n := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", *prop, w, n)
	}
	if code == 0 {
		if len(tot.Errs) > 0 {
			fmt.Fprintf(os.Stderr, "harness errors: %v\n", tot.Errs)
			code = 2
		}
		if len(workerTrouble) > 0 {
			// A worker that died for a reason its plan does not repeat (out of
			// memory, say) only costs its share of the exploration.
			fmt.Fprintln(os.Stderr, strings.Join(workerTrouble, "\n"))
			tot.Counters["worker_died"] += len(workerTrouble)
			if 2*len(workerTrouble) > *workers {
				code = 2
			}
		}
		if tot.Runs == 0 || tot.Checks == 0 {
			fmt.Fprintf(os.Stderr, "nothing was checked (%d runs)\n", tot.Runs)
			code = 2
		}
	}
	writeEvidence(*evid, pr, *tier, *seed, *workers, tot, hashes, pairs, violations, explored, time.Since(start))
	fmt.Printf("%s %s: %d runs, %d oracle evaluations, %d distinct schedules, %.1f h simulated, %.0f runs/h, %.1fs, exit %d\n", *prop, *tier, tot.Runs, tot.Checks, len(hashes),
		float64(tot.SimNS)/3.6e12, float64(tot.Runs)/explored.Hours(), time.Since(start).Seconds(), code)
	for _, p := range procs {
		os.Remove(p.cur)
	}
	os.Exit(code)
}

func merge(t, r *WorkerResult, hashes, pairs map[uint64]bool) {
	t.Runs += r.Runs
	t.Checks += r.Checks
	t.NonTrivial += r.NonTrivial
	t.SimNS += r.SimNS
	t.Steps += r.Steps
	if r.MaxSteps > t.MaxSteps {
		t.MaxSteps = r.MaxSteps
	}
	if r.MaxRunMS > t.MaxRunMS {
		t.MaxRunMS, t.SlowestSeed = r.MaxRunMS, r.SlowestSeed
	}
	t.Switches += r.Switches
	t.Preempts += r.Preempts
	t.Stalls += r.Stalls
	t.HotHits += r.HotHits
	t.AnnoyBuilt += r.AnnoyBuilt
	t.Rechecked += r.Rechecked
	for c, v := range r.Counters {
		t.Counters[c] += v
	}
	for c, v := range r.ByScen {
		t.ByScen[c] += v
	}
	for c, v := range r.Known {
		t.Known[c] += v
	}
	for _, x := range r.Hashes {
		hashes[x] = true
	}
	for _, x := range r.Pairs {
		pairs[x] = true
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	t.NonDet = append(t.NonDet, r.NonDet...)
	t.Errs = append(t.Errs, r.Errs...)
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		// the head of a crash report says what happened
		return s[:n]
	}
	return s
}

func writeJSON(f string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// runReplay executes a replay file in a fresh process: 1 reproduced, 0 not.
func runReplay(self, f string, limit time.Duration) int {
	c := exec.Command(self, "replay", "-quiet", f)
	c.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	if err := c.Start(); err != nil {
		return 2
	}
	ch := make(chan error, 1)
	go func() { ch <- c.Wait() }()
	select {
	case <-ch:
	case <-time.After(limit):
		c.Process.Kill()
		<-ch
		return 1 // only used for hangs of crash replays
	}
	code := c.ProcessState.ExitCode()
	if code != 0 && code != 1 {
		// died: for crash replays this is the reproduction
		var r Replay
		b, _ := os.ReadFile(f)
		json.Unmarshal(b, &r)
		if r.Crash {
			return 1
		}
	}
	return code
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("quiet", false, "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		die("usage: veriesim replay FILE")
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	o := h.RunPlan(r.Plan, !*quiet)
	if !*quiet {
		for _, l := range o.Trace {
			fmt.Println(l)
		}
	}
	for _, v := range o.Violations {
		if v.Kind == r.Violation.Kind {
			same := fmt.Sprintf("%x", o.Hash) == r.Hash
			fmt.Printf("reproduced %s: %s\nsame execution: %v\n", v.Kind, v.Detail, same)
			os.Exit(1)
		}
	}
	fmt.Printf("not reproduced (%d other violations, err=%q)\n", len(o.Violations), o.Err)
	os.Exit(0)
}

func minCmd(args []string) {
	fs := flag.NewFlagSet("min", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	k := fs.Uint64("k", 0, "")
	fs.Parse(args)
	p := h.GenPlan(*prop, *seed, *k)
	o := h.RunPlan(p, false)
	if len(o.Violations) == 0 {
		die("no violation")
	}
	r := minimise(p, &o.Violations[0], 120*time.Second)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	b, _ := json.Marshal(r.Plan)
	fmt.Println(string(b))
	fmt.Println(r.Violation, r.Minimised)
}

// minimise shrinks a failing plan while the same class of violation persists.
func minimise(p *h.Plan, v *h.Violation, budget time.Duration) *Replay {
	end := time.Now().Add(budget)
	best := clone(p)
	tries := 0
	fails := func(q *h.Plan) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		o := h.RunPlan(q, false)
		for _, w := range o.Violations {
			if w.Kind == v.Kind {
				return true
			}
		}
		return false
	}
	try := func(f func(q *h.Plan)) bool {
		q := clone(best)
		f(q)
		if fails(q) {
			best = q
			return true
		}
		return false
	}
	// faults
	for chunk := (len(best.Faults) + 1) / 2; chunk >= 1 && len(best.Faults) > 0; {
		removed := false
		for i := 0; i < len(best.Faults); {
			j := i + chunk
			if j > len(best.Faults) {
				j = len(best.Faults)
			}
			i0 := i
			if try(func(q *h.Plan) { q.Faults = append(append([]h.Fault{}, q.Faults[:i0]...), q.Faults[j:]...) }) {
				removed = true
			} else {
				i += chunk
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 {
			chunk /= 2
		} else if !removed {
			break
		}
	}
	// operations
	for chunk := (len(best.Ops) + 1) / 2; chunk >= 1 && len(best.Ops) > 0; {
		removed := false
		for i := 0; i < len(best.Ops); {
			j := i + chunk
			if j > len(best.Ops) {
				j = len(best.Ops)
			}
			i0 := i
			if try(func(q *h.Plan) { q.Ops = append(append([]h.Op{}, q.Ops[:i0]...), q.Ops[j:]...) }) {
				removed = true
			} else {
				i += chunk
			}
			if time.Now().After(end) {
				break
			}
		}
		if chunk > 1 {
			chunk /= 2
		} else if !removed || time.Now().After(end) {
			break
		}
	}
	// schedule noise
	try(func(q *h.Plan) { q.Sched.StallP = 0 })
	try(func(q *h.Plan) { q.Sched.HotSites, q.Sched.HotList = 0, nil })
	try(func(q *h.Plan) { q.Net.LossP, q.Net.ResetP = 0, 0 })
	try(func(q *h.Plan) { q.Net.JitterUS = 0 })
	if !try(func(q *h.Plan) { q.Sched.PreemptLimit = -1 }) {
		o := h.RunPlan(best, false)
		lo, hi := 0, o.Preempts
		for lo+1 < hi && time.Now().Before(end) {
			mid := (lo + hi) / 2
			if mid > 0 && try(func(q *h.Plan) { q.Sched.PreemptLimit = mid }) {
				hi = mid
			} else {
				lo = mid
			}
		}
	}
	o := h.RunPlan(best, true)
	r := &Replay{Property: p.Property, Plan: best, Hash: fmt.Sprintf("%x", o.Hash), Trace: clipTrace(o.Trace), Violation: *v}
	for _, w := range o.Violations {
		if w.Kind == v.Kind {
			r.Violation = w
			break
		}
	}
	r.Minimised = fmt.Sprintf("minimised in %d runs from %d ops, %d faults to %d ops, %d faults, %d preemptions", tries, len(p.Ops), len(p.Faults), len(best.Ops), len(best.Faults), o.Preempts)
	return r
}

func clipTrace(t []string) []string {
	const n = 1500
	if len(t) > n {
		return append(append([]string{}, t[:100]...), append([]string{fmt.Sprintf("... %d lines ...", len(t)-n)}, t[len(t)-(n-100):]...)...)
	}
	return t
}

func clone(p *h.Plan) *h.Plan {
	b, _ := json.Marshal(p)
	var q h.Plan
	if err := json.Unmarshal(b, &q); err != nil {
		die("%v", err)
	}
	return &q
}

func writeEvidence(f string, pr *h.Prop, tier string, seed uint64, workers int, t *WorkerResult, hashes, pairs map[uint64]bool, violations int, explored, wall time.Duration) {
	if f == "" {
		return
	}
	faults, probes, checks := map[string]int{}, map[string]int{}, map[string]int{}
	for c, n := range t.Counters {
		switch {
		case strings.HasPrefix(c, "fault:"):
			faults[c[6:]] = n
		case strings.HasPrefix(c, "check:"):
			checks[c[6:]] = n
		default:
			probes[c] = n
		}
	}
	sort.Strings(t.Samples)
	if len(t.Samples) > 6 {
		t.Samples = t.Samples[:6]
	}
	if t.Samples == nil {
		t.Samples = []string{}
	}
	hours := explored.Hours()
	ev := map[string]interface{}{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall.Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":         t.Runs,
			"distinct_nontrivial": t.NonTrivial,
			"rule": "A case is one simulated execution of the whole system drawn from a seed (cluster size, workload, configuration, schedule policy, network character, faults). " +
				"It is counted as distinct and non-trivial if at least one oracle of this property was evaluated in it and the hash of its complete schedule (every task switch, time advance, delivery) was not seen before in the same worker.",
			"samples":                        t.Samples,
			"oracle_evaluations":             t.Checks,
			"oracle_evaluations_by_class":    checks,
			"runs_per_hour":                  float64(t.Runs) / hours,
			"seeds_per_hour":                 float64(t.Runs) / hours,
			"simulated_hours":                float64(t.SimNS) / 3.6e12,
			"runs_by_scenario":               t.ByScen,
			"faults_injected":                faults,
			"scheduler":                      map[string]interface{}{"steps": t.Steps, "task_switches": t.Switches, "preemptions": t.Preempts, "stalled_tasks": t.Stalls, "hot_site_delays": t.HotHits, "max_steps_in_a_run": t.MaxSteps},
			"distinct_schedules":             len(hashes),
			"distinct_preemption_site_pairs": len(pairs),
			"reach_probes":                   probes,
			"determinism_rechecks":           t.Rechecked,
			"determinism_mismatches":         len(t.NonDet),
			"ann_indexes_built":              t.AnnoyBuilt,
			"workers":                        workers,
			"real_code":                      []string{"/repo: main packages server, node, data, data/gencoder, util, state, veriservice (rewritten at build time to use the simulator's seams)", "/repo/annoyindex C++ library", "github.com/bgokden/go-cache, github.com/goburrow/cache (rewritten likewise)", "protobuf, gjson, copier, uuid"},
			"stubs":                          append([]string{"gRPC transport (simulated: connection states, deadlines, flow control, resets)", "network", "disk", "clock and timers", "Go scheduler, channels, locks, atomics, sync.Map, sync.Pool", "signals and process exit", "randomness", "HTTP server (handlers run for real)"}, pr.Stub...),
			"bounds":                         pr.Bounds,
			"exhaustive":                     false,
		},
		"assumptions": []string{
			"code between two instrumented operations (synchronisation, shared field and map accesses, calls into seams) executes atomically; weak-memory effects are not simulated",
			"the simulated transport, disk and Go runtime primitives behave like the modelled ones",
			"seeded sampling: a clean batch is evidence, not proof",
		},
	}
	os.MkdirAll(filepath.Dir(f), 0o755)
	writeJSON(f, ev)
}

var _ = simrt.Now

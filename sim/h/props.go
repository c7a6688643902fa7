package h

import (
	"verisim/simrt"
)

// Prop says which scenarios decide a property.
type Prop struct {
	ID        string
	Scenarios []string // round robin; repeat a name to weight it
	Stub      []string
	Bounds    string // bounds of the explored space, for the evidence
}

// repeat concatenates the names n times.
func repeat(args ...interface{}) (l []string) {
	n := args[len(args)-1].(int)
	for i := 0; i < n; i++ {
		for _, a := range args[:len(args)-1] {
			l = append(l, a.(string))
		}
	}
	return
}

var Props = map[string]*Prop{}

func AddProp(p *Prop) { Props[p.ID] = p }

// scenarios on library level; left out when the packages' exported functions
// have other signatures than the harness expects
var libScenarios [][2]string

// Init completes the registry.
func Init() {
	for _, l := range libScenarios {
		Props[l[0]].Scenarios = append(Props[l[0]].Scenarios, l[1])
	}
}

func mix(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x + 0x9E3779B97F4A7C15 + h<<6 + h>>2
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h = (h ^ (h >> 27)) * 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// GenPlan draws the k-th plan of a property for a base seed.
func GenPlan(prop string, base, k uint64) *Plan {
	pr := Props[prop]
	seed := mix(base, strHash(prop), k)
	r := simrt.NewRNG(seed)
	p := &Plan{Property: prop, Scenario: pr.Scenarios[int(k%uint64(len(pr.Scenarios)))], Seed: seed}
	GenSched(r, p)
	Scenarios[p.Scenario].Gen(r, p)
	if _, ok := p.K["names"]; !ok && p.Nodes > 1 && r.Bool(0.12) {
		p.Set("names", 1) // nodes are known by a name and by their address
	}
	return p
}

// GenSched draws the schedule and network character of a run (swarm style).
func GenSched(r *simrt.RNG, p *Plan) {
	s := &p.Sched
	s.Seed = r.Uint64()
	s.Policy = "random"
	if r.Bool(0.3) {
		s.Policy = "pct"
		s.PCTDepth = r.Pick(1, 2, 3, 5, 8)
	}
	s.Quantum = r.Pick(2, 5, 10, 30, 100, 1000)
	s.StepNS = int64(r.Pick(100, 300, 1000))
	if r.Bool(0.4) {
		s.StallP = r.Pick(2, 10, 50)
		s.StallMax = int64(r.Pick(200, 2000, 20000, 200000))
	}
	if r.Bool(0.5) {
		s.HotSites = r.Pick(1, 3, 10, 40)
		s.HotP = r.Pick(20, 200, 1000)
		s.HotMax = int64(r.Pick(500, 5000, 50000, 500000))
	}
	p.Net.LatUS = int64(r.Pick(50, 200, 1000))
	p.Net.JitterUS = int64(r.Pick(50, 500, 3000, 20000))
}

// CalmSched bounds the delays a schedule may add, for oracles with deadlines.
func CalmSched(p *Plan, maxUS int64) {
	s := &p.Sched
	if s.StallMax > maxUS {
		s.StallMax = maxUS
	}
	if s.HotMax > maxUS {
		s.HotMax = maxUS
	}
	if s.StallP > 10 {
		s.StallP = 10
	}
	if s.HotP > 100 {
		s.HotP = 100
	}
	if s.StepNS > 300 {
		s.StepNS = 300
	}
	if p.Net.JitterUS > 3000 {
		p.Net.JitterUS = 3000
	}
}

// GenFaults draws n faults of the given kinds in [from,to) ms.
func GenFaults(r *simrt.RNG, p *Plan, n int, from, to int64, kinds ...string) {
	// a random subset of kinds per run
	var ks []string
	for _, k := range kinds {
		if r.Bool(0.6) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		ks = append(ks, kinds[r.Intn(len(kinds))])
	}
	for i := 0; i < n; i++ {
		f := Fault{At: r.Range(from, to), Kind: ks[r.Intn(len(ks))], A: r.Intn(p.Nodes), B: r.Intn(p.Nodes)}
		if f.B == f.A && p.Nodes > 1 {
			f.B = (f.A + 1 + r.Intn(p.Nodes-1)) % p.Nodes
		}
		switch f.Kind {
		case "pause", "part", "oneway", "isolate":
			f.Dur = int64(r.LogDur(50, 90000))
		case "slow":
			f.Dur, f.Arg = int64(r.LogDur(1000, 90000)), int64(r.LogDur(1000, 12000000))
		case "loss":
			f.Dur, f.Arg = int64(r.LogDur(500, 40000)), int64(r.Pick(5, 20, 100, 300))
		case "rstp":
			f.Dur, f.Arg = int64(r.LogDur(500, 40000)), int64(r.Pick(2, 10, 50))
		case "diskfail":
			f.Dur, f.Arg = int64(r.LogDur(1000, 90000)), int64(r.Pick(50, 300, 1000))
		case "diskfull":
			f.Dur = int64(r.LogDur(1000, 90000))
		case "diskslow":
			f.Dur, f.Arg = int64(r.LogDur(1000, 90000)), int64(r.Pick(1000, 100000, 2000000))
		case "kill", "power":
			f.Dur = int64(r.LogDur(10, 60000))
		case "killstep":
			f.Dur, f.Arg, f.B = int64(r.LogDur(10, 60000)), int64(r.LogDur(1, 20000)), r.Intn(2)
		case "killfs":
			f.Dur, f.Arg, f.B = int64(r.LogDur(10, 60000)), r.Range(1, 12), r.Intn(2)
		case "jump":
			f.Arg = r.Range(-4000, 4000)
		}
		p.Faults = append(p.Faults, f)
	}
}

// pickStr is a convenience of RNG for strings.
func pickStr(r *simrt.RNG, s ...string) string { return s[r.Intn(len(s))] }

package h

import (
	"context"
	"verisim/sgrpc"

	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// Sec and Ms build durations.
func Sec(n float64) time.Duration { return time.Duration(n * float64(time.Second)) }
func Ms(n int64) time.Duration    { return time.Duration(n) * time.Millisecond }

// vec is the feature vector of key k: distinct for distinct keys, spread over
// the unit cube, never zero.
func vec(k, dim int) []float32 {
	f := make([]float32, dim)
	h := mix(uint64(k), 77)
	for i := range f {
		h = mix(h, uint64(i))
		f[i] = float32(int(h%2001)-1000) / 1000
	}
	f[0] = float32(k%997)/100 + 0.001*float32(k/997) + 0.5
	return f
}

// mk builds datum number k of dataset ds with value number v. Some keys differ
// from each other only in the group label or one bit of another component.
var pad = strings.Repeat("pad ", 400)

func mk(ds, k, v, dim int) *pb.Datum {
	key := &pb.DatumKey{Feature: vec(k/2, dim), GroupLabel: []byte(fmt.Sprintf(`{"g":%d}`, (k/2)%5))}
	if k%2 == 1 {
		bit := uint32(1) << (mix(uint64(k), 5) % 32)
		switch (k / 2) % 7 {
		case 0:
			key.GroupLabel = []byte(fmt.Sprintf(`{"g":%d,"x":1}`, (k/2)%5))
		case 1:
			key.Size1 = bit
		case 2:
			key.Dim2 = bit
		case 3:
			key.Size2 = bit
		case 4:
			key.Dim1 = bit
		case 5: // the smallest possible difference
			key.Feature[dim-1] = math.Nextafter32(key.Feature[dim-1], 9)
		case 6:
			key.GroupLabel = append(key.GroupLabel, 0)
		}
	}
	d := &pb.Datum{Key: key, Value: &pb.DatumValue{Version: uint64(v), Label: []byte(fmt.Sprintf(`{"d":%d,"k":%d,"v":%d}`, ds, k, v))}}
	switch {
	case k%34 == 12: // long, different at the end
		d.Value.Label = []byte(fmt.Sprintf(`{"pad":%q,"d":%d,"k":%d,"v":%d}`, pad, ds, k, v))
	case k%38 == 20: // not text
		d.Value.Label = append(d.Value.Label, 0, 0xff, 0xfe, byte(v))
	case k%34 == 24:
		key.GroupLabel = []byte(fmt.Sprintf(`{"pad":%q,"g":%d}`, pad[:600], (k/2)%5))
	}
	if k%22 == 16 { // without a label, without a group
		d.Value.Label = nil
	}
	if k%26 == 18 {
		key.GroupLabel = nil
	}
	return d
}

func dsName(d int) string { return fmt.Sprintf("set%d", d) }

// dsCfg is the configuration of dataset d in the plan.
func dsCfg(p *Plan, d int, version uint64) *pb.DataConfig {
	g := func(s string) int64 { return p.Get(fmt.Sprintf("ds%d_%s", d, s)) }
	return &pb.DataConfig{
		Name: dsName(d), Version: version, TargetN: uint64(g("target")), TargetUtilization: float64(g("util")) / 1000,
		NoTarget: g("notarget") != 0, ReplicationOnInsert: uint32(g("r")), EnforceReplicationOnInsert: g("enf") != 0, Retention: uint64(g("ret")),
	}
}

func setDS(p *Plan, d int, target int64, util int64, notarget bool, r int64, enf bool) {
	b := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	s := func(k string, v int64) { p.Set(fmt.Sprintf("ds%d_%s", d, k), v) }
	s("target", target)
	s("util", util)
	s("notarget", b(notarget))
	s("r", r)
	s("enf", b(enf))
}

// CreateAll submits every dataset's configuration to the nodes (retrying).
func (e *Env) CreateAll(c *Client, nds int, version uint64, nodes ...*NodeH) {
	if len(nodes) == 0 {
		nodes = e.Nodes
	}
	for _, n := range nodes {
		for d := 0; d < nds; d++ {
			for try := 0; try < 20; try++ {
				if _, err := c.Create(n, dsCfg(e.P, d, version), Sec(5)); err == nil {
					break
				}
				simrt.Sleep(Sec(1))
			}
		}
	}
}

// WaitServing waits until every node answers a ping.
func (e *Env) WaitServing(c *Client, within time.Duration) bool {
	end := simrt.Now() + within
	for _, n := range e.Nodes {
		for n.Up() && c.Ping(n, Sec(2)) != nil {
			if simrt.Now() > end {
				return false
			}
			simrt.Sleep(Ms(300))
		}
	}
	return true
}

// SleepUntil sleeps until the simulated instant t.
func SleepUntil(t time.Duration) {
	if d := t - simrt.Now(); d > 0 {
		simrt.Sleep(d)
	}
}

// Ins is one recorded insert.
type Ins struct {
	DS, K, V int
	Key, Val string
	Node     int
	TTL      int64
	Inv, Ret time.Duration
	Acked    bool
	Err      string
}

// Union reads every node's contents of ds; nil error only if all running nodes
// could be read.
func (e *Env) Union(c *Client, ds string, within time.Duration) (all map[string][]*pb.Datum, per []map[string]string, err error) {
	all = map[string][]*pb.Datum{}
	per = make([]map[string]string, len(e.Nodes))
	for i, n := range e.Nodes {
		if !n.Up() {
			continue
		}
		l, er := e.StreamRetry(c, n, ds, within)
		if er != nil {
			if n.Up() {
				err = fmt.Errorf("node%d cannot be read: %v", i, er)
			}
			continue
		}
		per[i] = map[string]string{}
		for _, d := range l {
			all[KeyOf(d)] = append(all[KeyOf(d)], d)
			per[i][KeyOf(d)] = ValOf(d)
		}
	}
	return
}

// ---- reference score functions (written from their mathematical definitions) ----

func refScore(name string, a, b []float32) float64 {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	switch name {
	case "VectorMultiplication":
		s := 0.0
		for i := 0; i < n; i++ {
			s += float64(a[i]) * float64(b[i])
		}
		return s
	case "QuickVectorDistance":
		s := 0.0
		for i := 0; i < n; i++ {
			s += math.Abs(float64(a[i]) - float64(b[i]))
		}
		return s
	case "CosineSimilarity", "AnnoyCosineSimilarity":
		return refCos(a, b)
	case "AngularDistance", "AnnoyAngularDistance":
		return 1 - math.Acos(refCos(a, b))/math.Pi
	}
	s := 0.0
	for i := 0; i < n; i++ {
		d := float64(a[i]) - float64(b[i])
		s += d * d
	}
	return math.Sqrt(s)
}

func refCos(a, b []float32) float64 {
	var ab, aa, bb float64
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y float64
		if i < len(a) {
			x = float64(a[i])
		}
		if i < len(b) {
			y = float64(b[i])
		}
		ab, aa, bb = ab+x*y, aa+x*x, bb+y*y
	}
	if aa == 0 || bb == 0 {
		return 0
	}
	return math.Max(-1, math.Min(1, ab/math.Sqrt(aa*bb)))
}

// scoreEps bounds the rounding difference between the code's float32
// arithmetic and the reference.
func scoreEps(name string, x float64) float64 {
	switch name {
	case "AngularDistance", "AnnoyAngularDistance":
		return 2e-3 // acos is steep near one
	case "VectorDistance", "AnnoyVectorDistance", "":
		return 2e-3 + 1e-4*math.Abs(x)
	}
	return 2e-4 + 1e-4*math.Abs(x)
}

type scored struct {
	key   string
	score float64
	d     *pb.Datum
}

// rank sorts best first.
func rank(l []scored, higher bool) {
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].score != l[j].score {
			return (l[i].score > l[j].score) == higher
		}
		return l[i].key < l[j].key
	})
}

// better: a is better than b by more than eps.
func better(a, b, eps float64, higher bool) bool {
	if higher {
		return a > b+eps
	}
	return a < b-eps
}

// topK checks that got is a correct best-k answer over cand: sorted, unique,
// right scores, nothing better left out.
func topK(got []*pb.ScoredDatum, cand []scored, k int, name string, higher bool) string {
	by := map[string]scored{}
	for _, s := range cand {
		by[s.key] = s
	}
	want := len(cand)
	if want > k {
		want = k
	}
	if len(got) != want {
		return fmt.Sprintf("%d results, expected %d", len(got), want)
	}
	seen := map[string]bool{}
	for i, g := range got {
		key := KeyOf(g.Datum)
		if seen[key] {
			return fmt.Sprintf("entry %s is listed twice", DatumStr(g.Datum))
		}
		seen[key] = true
		s, ok := by[key]
		if !ok {
			return fmt.Sprintf("entry %s is not a candidate", DatumStr(g.Datum))
		}
		if math.Abs(s.score-g.Score) > scoreEps(name, s.score) {
			return fmt.Sprintf("entry %s has score %v, expected %v", DatumStr(g.Datum), g.Score, s.score)
		}
		if i > 0 && better(g.Score, got[i-1].Score, 1e-9, higher) {
			return fmt.Sprintf("results are not sorted: %v before %v", got[i-1].Score, g.Score)
		}
	}
	if len(got) > 0 && want < len(cand) {
		worst := by[KeyOf(got[len(got)-1].Datum)].score
		for _, s := range cand {
			if !seen[s.key] && better(s.score, worst, 2*scoreEps(name, worst), higher) {
				return fmt.Sprintf("entry %s with score %v is missing although %v is listed", DatumStr(s.d), s.score, worst)
			}
		}
	}
	return ""
}

// joinSink is a seed that only records what nodes tell it about themselves.
type joinSink struct {
	pb.UnimplementedVeriServiceServer
	f func(p *pb.Peer)
}

func (s *joinSink) Join(ctx context.Context, q *pb.JoinRequest) (*pb.JoinResponse, error) {
	s.f(q.GetPeer())
	return &pb.JoinResponse{}, nil
}

// Sink starts such a seed and returns its address.
func (e *Env) Sink(f func(p *pb.Peer)) string {
	h := e.W.NewHost("sink", "10.0.2.1")
	p := e.W.NewProc("sink", h)
	p.Harness = true
	simrt.GoProc(p, "sink", func() {
		l, err := simrt.NetListen("tcp", fmt.Sprintf("0.0.0.0:%d", Port))
		if err != nil {
			panic(err)
		}
		s := sgrpc.NewServer()
		pb.RegisterVeriServiceServer(s, &joinSink{f: f})
		s.Serve(l)
	})
	return fmt.Sprintf("10.0.2.1:%d", Port)
}

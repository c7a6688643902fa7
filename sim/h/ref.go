package h

import (
	"fmt"
	"math"
	"strings"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// Reference model of the search: written from the documented meaning of the
// parameters, not from the code.

// Query is a search in the plan.
type Query struct {
	AnyVal                         map[string]bool // other values (key=value) that nodes may hold
	Limit, ResultLimit, GroupLimit int64
	Higher                         bool
	Func                           string
	Filter, GFilter                int64 // index into the filter tables, 0 none
	Vecs, Ctx                      []int64
	Prio                           bool
	Dim                            int
}

var filterTab = [][]string{nil, {"t0"}, {"t1"}, {"t2.u"}, {"k", "t0"}, {"t0", "t1"}, {"none"}}
var gfilterTab = [][]string{nil, {"g"}, {"x"}, {"h.a"}, {"g", "x"}, {"none"}}

// mkL builds entries with labels worth filtering.
func mkL(ds, k, v, dim int) *pb.Datum {
	d := mk(ds, k, v, dim)
	switch k % 7 {
	case 5:
		d.Key.GroupLabel = []byte(fmt.Sprintf(`{"h":{"a":1},"x":%d}`, (k/7)%3)) // differ late
	case 6:
		d.Key.GroupLabel = []byte("plain")
		if (k/7)%3 == 0 {
			d.Key.GroupLabel = []byte(strings.Repeat("plain ", 60) + string(rune('a'+(k/21)%2)))
		}
	}
	switch k % 5 {
	case 0:
		d.Value.Label = []byte(fmt.Sprintf(`{"k":%d,"v":%d,"t0":true}`, k, v))
	case 1:
		d.Value.Label = []byte(fmt.Sprintf(`{"k":%d,"v":%d,"t1":"s"}`, k, v))
	case 2:
		d.Value.Label = []byte(fmt.Sprintf(`{"k":%d,"v":%d,"t2":{"u":0}}`, k, v))
	case 3:
		d.Value.Label = []byte(fmt.Sprintf(`{"v":%d,"t0":1,"t1":2}`, v))
	}
	return d
}

// field says whether a path exists in a label built by mkL.
func field(label, path string) bool {
	p := strings.Split(path, ".")
	s := label
	for _, f := range p {
		i := strings.Index(s, `"`+f+`":`)
		if i < 0 {
			return false
		}
		s = s[i:]
	}
	return true
}

func (q *Query) passes(d *pb.Datum) bool {
	for _, f := range filterTab[q.Filter] {
		if !field(string(d.GetValue().GetLabel()), f) {
			return false
		}
	}
	for _, f := range gfilterTab[q.GFilter] {
		if !field(string(d.GetKey().GetGroupLabel()), f) {
			return false
		}
	}
	return true
}

// qvec is query vector number i: sometimes exactly a stored one.
func qvec(i int64, dim int) []float32 {
	if v := abs64(i) >> 20; v > 0 { // differs from another query vector in one component
		f := append([]float32{}, qvec(i%(1<<20), dim)...)
		f[len(f)-1-int(v-1)%len(f)] += 0.75
		return f
	}
	if i < 0 {
		f := vec(int(-i)/2, dim)
		return f
	}
	return vec(int(i)+5000, dim)
}

func (q *Query) Request(ds string, timeoutMS uint64) *pb.SearchRequest {
	c := &pb.SearchConfig{DataName: ds, ScoreFuncName: q.Func, HigherIsBetter: q.Higher, Limit: uint32(q.Limit), ResultLimit: uint64(q.ResultLimit),
		GroupLimit: uint32(q.GroupLimit), Timeout: timeoutMS, Filters: filterTab[q.Filter], GroupFilters: gfilterTab[q.GFilter]}
	r := &pb.SearchRequest{Config: c}
	for _, v := range q.Vecs {
		r.Datum = append(r.Datum, &pb.Datum{Key: &pb.DatumKey{Feature: qvec(v, q.Dim)}})
	}
	if len(q.Ctx) > 0 || q.Prio {
		r.Context = &pb.SearchContext{Prioritize: q.Prio}
		for _, v := range q.Ctx {
			r.Context.Datum = append(r.Context.Datum, &pb.Datum{Key: &pb.DatumKey{Feature: qvec(v, q.Dim)}})
		}
	}
	return r
}

func (q *Query) String() string {
	return fmt.Sprintf("%s higher=%v limit=%d/%d group=%d filters=%d/%d vecs=%v ctx=%v prio=%v", q.Func, q.Higher, q.Limit, q.ResultLimit, q.GroupLimit, q.Filter, q.GFilter, q.Vecs, q.Ctx, q.Prio)
}

// GenQuery draws a query over keys below nkeys.
func GenQuery(r *simrt.RNG, nkeys int, dim int, limits ...int) Query {
	q := Query{Dim: dim}
	q.Func = pickStr(r, "VectorDistance", "VectorDistance", "QuickVectorDistance", "VectorMultiplication", "CosineSimilarity", "AngularDistance", "")
	switch q.Func {
	case "VectorMultiplication", "CosineSimilarity", "AngularDistance":
		q.Higher = true
	}
	if r.Bool(0.15) {
		q.Higher = !q.Higher
	}
	q.Limit = int64(limits[r.Intn(len(limits))])
	if r.Bool(0.2) {
		q.ResultLimit = r.Range(1, q.Limit+2)
	}
	if r.Bool(0.3) {
		q.Filter = int64(r.Intn(len(filterTab)))
	}
	if r.Bool(0.3) {
		q.GFilter = int64(r.Intn(len(gfilterTab)))
	}
	nv := r.Pick(1, 1, 1, 2, 3, 5)
	v := func() int64 {
		if r.Bool(0.3) {
			return -r.Range(1, int64(nkeys)+1)
		}
		return r.Range(0, 50)
	}
	for i := 0; i < nv; i++ {
		q.Vecs = append(q.Vecs, v())
	}
	if r.Bool(0.2) {
		for i := 0; i < r.Pick(1, 2, 3); i++ {
			q.Ctx = append(q.Ctx, v())
		}
		q.Prio = r.Bool(0.4)
	}
	if r.Bool(0.1) {
		q.Dim = r.Pick(1, 2, dim+1)
	}
	return q
}

// pack and unpack put a query into an operation of the plan.
func (q *Query) pack(op *Op) {
	b := func(x bool) int64 {
		if x {
			return 1
		}
		return 0
	}
	op.S = q.Func
	op.A = []int64{q.Limit, q.ResultLimit, q.GroupLimit, b(q.Higher), q.Filter, q.GFilter, b(q.Prio), int64(q.Dim), int64(len(q.Vecs))}
	op.A = append(op.A, q.Vecs...)
	op.A = append(op.A, q.Ctx...)
}

func unpackQuery(op *Op) *Query {
	a := op.A
	q := &Query{Limit: a[0], ResultLimit: a[1], GroupLimit: a[2], Higher: a[3] == 1, Filter: a[4], GFilter: a[5], Prio: a[6] == 1, Dim: int(a[7]), Func: op.S}
	n := a[8]
	q.Vecs = a[9 : 9+n]
	q.Ctx = a[9+n:]
	return q
}

// max number of entries of the answer
func (q *Query) m() int {
	if q.ResultLimit > 0 && q.ResultLimit < q.Limit {
		return int(q.ResultLimit)
	}
	return int(q.Limit)
}

// Expect computes the candidates with their final scores. ok is false when
// nearly equal scores at a cutoff leave the answer open.
func (q *Query) Expect(all []*pb.Datum) (cand []scored, ok bool) {
	m := q.m()
	best := map[string]*scored{}
	ctx := len(q.Ctx) > 0
	cut := ctx || q.GroupLimit > 0
	for _, v := range q.Vecs {
		var l []scored
		f := qvec(v, q.Dim)
		for _, d := range all {
			if q.passes(d) {
				l = append(l, scored{KeyOf(d), refScore(q.Func, d.Key.Feature, f), d})
			}
		}
		if cut {
			// rescoring and grouping work on the best entries of every vector
			rank(l, q.Higher)
			if len(l) > m {
				if m > 0 && !better(l[m-1].score, l[m].score, 2*scoreEps(q.Func, l[m].score), q.Higher) {
					return nil, false
				}
				l = l[:m]
			}
		}
		for i := range l {
			s := l[i]
			if b := best[s.key]; b == nil {
				best[s.key] = &s
			} else if better(s.score, b.score, 0, q.Higher) {
				b.score = s.score
			}
		}
	}
	for _, d := range all { // deterministic order
		s := best[KeyOf(d)]
		if s == nil {
			continue
		}
		if ctx {
			first := q.Prio
			for _, v := range q.Ctx {
				x := refScore(q.Func, d.Key.Feature, qvec(v, q.Dim))
				if first || better(x, s.score, 0, q.Higher) {
					s.score, first = x, false
				}
			}
		}
		cand = append(cand, *s)
		delete(best, s.key)
	}
	return cand, true
}

// Check compares an answer with the reference; "" if correct. open means the
// reference leaves the answer open.
func (q *Query) Check(got []*pb.ScoredDatum, all []*pb.Datum) (msg string, open bool) {
	vals := map[string]string{}
	for _, d := range all {
		vals[KeyOf(d)] = ValOf(d)
	}
	for _, g := range got {
		if v, ok := vals[KeyOf(g.Datum)]; ok && v != ValOf(g.Datum) && !q.AnyVal[KeyOf(g.Datum)+"="+ValOf(g.Datum)] {
			return fmt.Sprintf("entry %s has value %s, stored is %s", DatumStr(g.Datum), ValOf(g.Datum), v), false
		}
	}
	cand, ok := q.Expect(all)
	if !ok {
		return "", true
	}
	if q.GroupLimit > 0 {
		return q.checkGroups(got, cand), false
	}
	return topK(got, cand, q.m(), q.Func, q.Higher), false
}

func (q *Query) checkGroups(got []*pb.ScoredDatum, cand []scored) string {
	groups := map[string][]scored{}
	for _, s := range cand {
		g := string(s.d.Key.GroupLabel)
		groups[g] = append(groups[g], s)
	}
	score := map[string]float64{}
	for g, l := range groups {
		rank(l, q.Higher)
		if int64(len(l)) > q.GroupLimit {
			l = l[:q.GroupLimit]
		}
		groups[g] = l
		sum := 0.0
		for _, s := range l {
			sum += s.score
		}
		if !q.Higher {
			sum /= float64(len(l) * len(l))
		}
		score[g] = sum
	}
	want := len(groups)
	if want > q.m() {
		want = q.m()
	}
	if len(got) != want {
		return fmt.Sprintf("%d groups, expected %d", len(got), want)
	}
	eps := func(g string) float64 {
		return scoreEps(q.Func, score[g]) * float64(len(groups[g])+1)
	}
	seen := map[string]bool{}
	for i, r := range got {
		g := string(r.Datum.Key.GroupLabel)
		if seen[g] {
			return fmt.Sprintf("group %s is listed twice", g)
		}
		seen[g] = true
		l, ok := groups[g]
		if !ok {
			return fmt.Sprintf("group %s is not a candidate", g)
		}
		if math.Abs(score[g]-r.Score) > eps(g) {
			return fmt.Sprintf("group %s has score %v, expected %v", g, r.Score, score[g])
		}
		own := math.NaN()
		for _, s := range cand {
			if s.key == KeyOf(r.Datum) {
				own = s.score
			}
		}
		if math.IsNaN(own) || better(l[0].score, own, 2*scoreEps(q.Func, own), q.Higher) {
			return fmt.Sprintf("group %s is represented by %s, its best entry is %s", g, DatumStr(r.Datum), DatumStr(l[0].d))
		}
		if i > 0 && better(r.Score, got[i-1].Score, 1e-9, q.Higher) {
			return fmt.Sprintf("groups are not sorted: %v before %v", got[i-1].Score, r.Score)
		}
	}
	if len(got) > 0 && want < len(groups) {
		worst := got[len(got)-1].Score
		for g := range groups {
			if !seen[g] && better(score[g], worst, 2*eps(g), q.Higher) {
				return fmt.Sprintf("group %s with score %v is missing although %v is listed", g, score[g], worst)
			}
		}
	}
	return ""
}

func abs64(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

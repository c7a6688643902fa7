// Package sannoy wraps the repository's real ANN index (the C++ code, in memory)
// so that lifetime errors which would be memory corruption become deterministic
// process crashes, and the on-disk file lives in the simulated file system.
package sannoy

import (
	"os"
	"time"

	real "github.com/bgokden/veri/annoyindex"

	"verisim/simrt"
)

type AnnoyIndexAngular interface {
	AddItem(int, []float32)
	Build(int)
	Save(a ...interface{}) bool
	Unload()
	Load(a ...interface{}) bool
	GetDistance(int, int) float32
	GetNnsByItem(a ...interface{})
	GetNnsByVector(a ...interface{})
	GetNItems() int
	Verbose(bool)
	GetItem(int, *[]float32)
	OnDiskBuild(string) bool
}

type AnnoyIndex = AnnoyIndexAngular
type AnnoyIndexEuclidean = AnnoyIndexAngular
type AnnoyIndexManhattan = AnnoyIndexAngular
type AnnoyIndexDotProduct = AnnoyIndexAngular

type ann struct {
	r      AnnoyIndexAngular
	del    func()
	dim    int
	freed  bool
	built  bool
	inUse  int
	writer int
	items  int
	file   string
	proc   *simrt.Proc
}

var all = map[*ann]struct{}{}

var Built, Queries int

// Live counts the indexes of a process that are allocated and not freed.
func Live(p *simrt.Proc) (n int) {
	for a := range all {
		if a.proc == p {
			n++
		}
	}
	return
}

// SlowUS is the longest time an index operation may take in the current run.
var SlowUS int64

func FreeAll() {
	for a := range all {
		a.del()
	}
	all = map[*ann]struct{}{}
}

func mk(dim int, r AnnoyIndexAngular, del func()) AnnoyIndexAngular {
	simrt.Yop()
	a := &ann{r: r, dim: dim, del: del, proc: simrt.CurProc()}
	all[a] = struct{}{}
	simrt.Count("annoy_new")
	return a
}

func NewAnnoyIndexAngular(dim int) AnnoyIndexAngular {
	x := real.NewAnnoyIndexAngular(dim)
	return mk(dim, x, func() { real.DeleteAnnoyIndexAngular(x) })
}
func NewAnnoyIndexEuclidean(dim int) AnnoyIndexAngular {
	x := real.NewAnnoyIndexEuclidean(dim)
	return mk(dim, x, func() { real.DeleteAnnoyIndexEuclidean(x) })
}
func NewAnnoyIndexManhattan(dim int) AnnoyIndexAngular {
	x := real.NewAnnoyIndexManhattan(dim)
	return mk(dim, x, func() { real.DeleteAnnoyIndexManhattan(x) })
}
func NewAnnoyIndexDotProduct(dim int) AnnoyIndexAngular {
	x := real.NewAnnoyIndexDotProduct(dim)
	return mk(dim, x, func() { real.DeleteAnnoyIndexDotProduct(x) })
}

func del(i AnnoyIndexAngular) {
	simrt.Yop()
	if simrt.Zombie() {
		return
	}
	a, _ := i.(*ann)
	if a == nil {
		simrt.Segv("delete of a nil ANN index")
		return
	}
	if a.freed {
		simrt.Segv("double free of an ANN index")
		return
	}
	if a.inUse > 0 {
		simrt.Segv("ANN index freed while a search is using it")
		return
	}
	a.freed = true
	a.del()
	delete(all, a)
}

func DeleteAnnoyIndex(i AnnoyIndexAngular)           { del(i) }
func DeleteAnnoyIndexAngular(i AnnoyIndexAngular)    { del(i) }
func DeleteAnnoyIndexEuclidean(i AnnoyIndexAngular)  { del(i) }
func DeleteAnnoyIndexManhattan(i AnnoyIndexAngular)  { del(i) }
func DeleteAnnoyIndexDotProduct(i AnnoyIndexAngular) { del(i) }

// use guards one operation; false: the process is gone.
func (a *ann) use(op string, exclusive bool) bool {
	simrt.Yop()
	if simrt.Zombie() {
		return false
	}
	if a == nil || a.freed {
		simrt.Segv("ANN index used after it was freed: " + op)
		return false
	}
	if exclusive && a.inUse > 0 || a.writer > 0 {
		simrt.Segv("ANN index modified while in use: " + op)
		return false
	}
	if exclusive {
		a.writer++
	}
	a.inUse++
	simrt.Yop()
	if SlowUS > 0 && op != "AddItem" && op != "GetNItems" {
		simrt.Sleep(time.Duration(simrt.W.RApp.Int63n(SlowUS)) * time.Microsecond)
	}
	simrt.Yop()
	if simrt.Zombie() {
		return false
	}
	return true
}

func (a *ann) done(exclusive bool) {
	if exclusive {
		a.writer--
	}
	a.inUse--
}

func (a *ann) fit(v []float32) []float32 {
	if len(v) == a.dim {
		return v
	}
	simrt.Count("annoy_dim_mismatch")
	if len(v) < a.dim { // the C++ code gets a pointer and no length
		simrt.Segv("ANN index reads past the end of a vector")
	}
	w := make([]float32, a.dim)
	copy(w, v)
	return w
}

func (a *ann) AddItem(i int, v []float32) {
	if !a.use("AddItem", true) {
		return
	}
	if !a.built && i >= 0 {
		a.r.AddItem(i, a.fit(v))
		if i >= a.items {
			a.items = i + 1
		}
	}
	a.done(true)
}

func (a *ann) Build(q int) {
	if !a.use("Build", true) {
		return
	}
	if !a.built {
		a.r.Build(q)
		a.built = true
		Built++
	}
	a.done(true)
}

func (a *ann) Unload() {
	if !a.use("Unload", true) {
		return
	}
	a.r.Unload()
	a.items = 0
	a.built = false
	a.done(true)
}

func (a *ann) GetNnsByVector(x ...interface{}) {
	if !a.use("GetNnsByVector", false) {
		return
	}
	v := x[0].([]float32)
	x[0] = a.fit(v)
	a.r.GetNnsByVector(x...)
	Queries++
	a.done(false)
}

func (a *ann) GetNnsByItem(x ...interface{}) {
	if !a.use("GetNnsByItem", false) {
		return
	}
	if i := x[0].(int); i >= 0 && i < a.items {
		a.r.GetNnsByItem(x...)
	}
	a.done(false)
}

func (a *ann) GetDistance(i, j int) float32 {
	if !a.use("GetDistance", false) {
		return 0
	}
	defer a.done(false)
	if i < 0 || j < 0 || i >= a.items || j >= a.items {
		return 0
	}
	return a.r.GetDistance(i, j)
}

func (a *ann) GetNItems() int {
	if !a.use("GetNItems", false) {
		return 0
	}
	defer a.done(false)
	return a.items
}
func (a *ann) Verbose(bool) {}
func (a *ann) GetItem(i int, v *[]float32) {
	if !a.use("GetItem", false) {
		return
	}
	defer a.done(false)
	if i >= 0 && i < a.items {
		a.r.GetItem(i, v)
	}
}

// OnDiskBuild creates the build file in the simulated file system; the index
// itself stays in memory.
func (a *ann) OnDiskBuild(name string) bool {
	if !a.use("OnDiskBuild", true) {
		return false
	}
	defer a.done(true)
	f, err := simrt.OSOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		return false
	}
	f.Close()
	a.file = name
	return true
}
func (a *ann) Save(x ...interface{}) bool { return false }
func (a *ann) Load(x ...interface{}) bool { return false }

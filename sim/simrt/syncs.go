package simrt

import (
	"fmt"
	"math"
	"sort"
	"sync"
	"unsafe"
)

func pow(a, b float64) float64 { return math.Pow(a, b) }

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		strs := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			strs[i] = canonical(any(k))
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
		o := make([]K, len(keys))
		for i, j := range idx {
			o[i] = keys[j]
		}
		copy(keys, o)
	}
}

func canonical(v interface{}) string {
	switch x := v.(type) {
	case string:
		return "s" + x
	case int:
		return fmt.Sprintf("i%020d", x)
	case uint64:
		return fmt.Sprintf("u%020d", x)
	}
	s := fmt.Sprintf("%T:%#v", v, v)
	for i := 0; i+3 < len(s); i++ {
		if s[i] == '(' && s[i+1] == '0' && s[i+2] == 'x' {
			panic("simrt: map with pointer keys has no deterministic order: " + s)
		}
	}
	return s
}

// ---- Mutex ---------------------------------------------------------------------------

type Mutex struct {
	locked bool
	q      []*Task
}

func wakeOne(q *[]*Task) {
	for len(*q) > 0 {
		i := 0
		if W.RSched.Intn(4) == 0 {
			i = W.RSched.Intn(len(*q))
		}
		t := (*q)[i]
		*q = append((*q)[:i:i], (*q)[i+1:]...)
		if t.dead || t.killed {
			continue
		}
		W.ready(t)
		return
	}
}

func (m *Mutex) Lock() {
	yop()
	if zombie() {
		return
	}
	for m.locked {
		m.q = append(m.q, cur)
		W.block("mutex")
		if zombie() {
			return
		}
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	yop()
	if zombie() || m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if zombie() {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
		return
	}
	m.locked = false
	wakeOne(&m.q)
	yop()
}

// ---- RWMutex -------------------------------------------------------------------------

type RWMutex struct {
	w       bool
	readers int
	wwait   int
	q       WaitQ
}

func (m *RWMutex) Lock() {
	yop()
	if zombie() {
		return
	}
	m.wwait++
	for m.w || m.readers > 0 {
		m.q.Wait("rwmutex lock")
		if zombie() {
			return
		}
	}
	m.wwait--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	yop()
	if zombie() || m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if zombie() {
		return
	}
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.w = false
	m.q.WakeAll()
	yop()
}

func (m *RWMutex) RLock() {
	yop()
	if zombie() {
		return
	}
	for m.w || m.wwait > 0 {
		m.q.Wait("rwmutex rlock")
		if zombie() {
			return
		}
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	yop()
	if zombie() || m.w || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if zombie() {
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.readers--
	m.q.WakeAll()
	yop()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()                 { r.m.RLock() }
func (r rlocker) Unlock()               { r.m.RUnlock() }
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// ---- WaitGroup -----------------------------------------------------------------------

type WaitGroup struct {
	n       int
	waiters int
	q       WaitQ
}

func (g *WaitGroup) Add(d int) {
	yop()
	if zombie() {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.waiters > 0 && d > 0 && g.n == d {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if g.n == 0 {
		g.waiters = 0
		g.q.WakeAll()
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	yop()
	if zombie() {
		return
	}
	if g.n == 0 {
		return
	}
	g.waiters++
	g.q.Wait("waitgroup")
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(curSite(), func() {
		defer g.Done()
		f()
	})
}

func curSite() int {
	if cur == nil {
		return 0
	}
	return cur.site
}

// ---- Once ----------------------------------------------------------------------------

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	yop()
	if zombie() {
		return
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// ---- Cond ----------------------------------------------------------------------------

type Cond struct {
	L sync.Locker
	q []*Task
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if zombie() {
		return
	}
	c.q = append(c.q, cur)
	t := cur
	c.L.Unlock()
	// a signal between Unlock and block has already made t runnable
	for _, x := range c.q {
		if x == t {
			W.block("cond")
			break
		}
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	yop()
	if zombie() {
		return
	}
	wakeOne(&c.q)
}
func (c *Cond) Broadcast() {
	yop()
	if zombie() {
		return
	}
	q := c.q
	c.q = nil
	for _, t := range q {
		W.ready(t)
	}
}

// ---- Pool ----------------------------------------------------------------------------

// Pool keeps the contract of sync.Pool and no more: Get returns any stored
// item, or calls New although some are stored, and stored items may vanish.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	yop()
	if zombie() {
		return nil
	}
	if n := len(p.items); n > 0 {
		x := W.RSched.Intn(64)
		if x == 0 {
			p.items = nil // garbage collection emptied the pool
			W.Counters["pool_gc"]++
		} else if x > 4 {
			i := W.RSched.Intn(n)
			v := p.items[i]
			p.items[i] = p.items[n-1]
			p.items[n-1] = nil
			p.items = p.items[:n-1]
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	yop()
	if zombie() || x == nil {
		return
	}
	p.items = append(p.items, x)
}

// ---- Map -----------------------------------------------------------------------------

type mapEnt struct {
	k, v interface{}
	live bool
}

// Map has the contract of sync.Map; Range visits in seeded order, sees each
// key at most once with the value current at the visit, and may or may not
// see keys stored while it runs.
type Map struct {
	m    map[interface{}]*mapEnt
	list []*mapEnt
	dead int
}

func (m *Map) get(k interface{}) *mapEnt {
	if m.m == nil {
		return nil
	}
	return m.m[k]
}

func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]*mapEnt{}
	}
	if e := m.m[k]; e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k, v, true}
	m.m[k] = e
	m.list = append(m.list, e)
}

func (m *Map) del(k interface{}) {
	if e := m.get(k); e != nil {
		e.live = false
		delete(m.m, k)
		m.dead++
		if m.dead > 32 && m.dead > len(m.list)/2 {
			o := make([]*mapEnt, 0, len(m.list)-m.dead)
			for _, x := range m.list {
				if x.live {
					o = append(o, x)
				}
			}
			m.list = o
			m.dead = 0
		}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	yop()
	if zombie() {
		return nil, false
	}
	if e := m.get(k); e != nil {
		return e.v, true
	}
	return nil, false
}
func (m *Map) Store(k, v interface{}) {
	yop()
	if zombie() {
		return
	}
	m.put(k, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	yop()
	if zombie() {
		return v, false
	}
	if e := m.get(k); e != nil {
		return e.v, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	yop()
	if zombie() {
		return nil, false
	}
	if e := m.get(k); e != nil {
		v := e.v
		m.del(k)
		return v, true
	}
	return nil, false
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	yop()
	if zombie() {
		return nil, false
	}
	if e := m.get(k); e != nil {
		o := e.v
		e.v = v
		return o, true
	}
	m.put(k, v)
	return nil, false
}
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	yop()
	if zombie() {
		return false
	}
	if e := m.get(k); e != nil && e.v == old {
		e.v = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	yop()
	if zombie() {
		return false
	}
	if e := m.get(k); e != nil && e.v == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	yop()
	if zombie() {
		return
	}
	for _, e := range m.list {
		e.live = false
	}
	m.m, m.list, m.dead = nil, nil, 0
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	yop()
	if zombie() {
		return
	}
	snap := make([]*mapEnt, 0, len(m.list))
	seen := make(map[interface{}]bool, len(m.list))
	for _, e := range m.list {
		if e.live {
			snap = append(snap, e)
		}
	}
	shuffle(W.RMap, len(snap), func(i, j int) { snap[i], snap[j] = snap[j], snap[i] })
	for _, e := range snap {
		yop()
		if cur.killed {
			return
		}
		c := m.get(e.k)
		if c == nil {
			continue
		}
		seen[e.k] = true
		if !f(c.k, c.v) {
			return
		}
	}
	if W.RMap.Intn(2) == 0 {
		return
	}
	// keys stored meanwhile may be visited too
	var extra []*mapEnt
	for _, e := range m.list {
		if e.live && !seen[e.k] {
			in := false
			for _, s := range snap {
				if s.k == e.k {
					in = true
					break
				}
			}
			if !in {
				extra = append(extra, e)
			}
		}
		if len(extra) > 8 {
			break
		}
	}
	for _, e := range extra {
		yop()
		if cur.killed {
			return
		}
		c := m.get(e.k)
		if c == nil {
			continue
		}
		if !f(c.k, c.v) {
			return
		}
	}
}

// ---- atomics: a scheduling point before each operation ---------------------------------

func AtomicAddInt32(p *int32, d int32) int32                 { yop(); *p += d; return *p }
func AtomicAddInt64(p *int64, d int64) int64                 { yop(); *p += d; return *p }
func AtomicAddUint32(p *uint32, d uint32) uint32             { yop(); *p += d; return *p }
func AtomicAddUint64(p *uint64, d uint64) uint64             { yop(); *p += d; return *p }
func AtomicLoadInt32(p *int32) int32                         { yop(); return *p }
func AtomicLoadInt64(p *int64) int64                         { yop(); return *p }
func AtomicLoadUint32(p *uint32) uint32                      { yop(); return *p }
func AtomicLoadUint64(p *uint64) uint64                      { yop(); return *p }
func AtomicLoadPointer(p *unsafe.Pointer) unsafe.Pointer     { yop(); return *p }
func AtomicStoreInt32(p *int32, v int32)                     { yop(); *p = v }
func AtomicStoreInt64(p *int64, v int64)                     { yop(); *p = v }
func AtomicStoreUint32(p *uint32, v uint32)                  { yop(); *p = v }
func AtomicStoreUint64(p *uint64, v uint64)                  { yop(); *p = v }
func AtomicStorePointer(p *unsafe.Pointer, v unsafe.Pointer) { yop(); *p = v }
func AtomicAddUintptr(p *uintptr, d uintptr) uintptr         { yop(); *p += d; return *p }
func AtomicLoadUintptr(p *uintptr) uintptr                   { yop(); return *p }
func AtomicStoreUintptr(p *uintptr, v uintptr)               { yop(); *p = v }
func AtomicSwapUintptr(p *uintptr, v uintptr) uintptr {
	yop()
	o := *p
	*p = v
	return o
}
func AtomicCompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func AtomicSwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	yop()
	o := *p
	*p = v
	return o
}
func AtomicSwapInt32(p *int32, v int32) int32     { yop(); o := *p; *p = v; return o }
func AtomicSwapInt64(p *int64, v int64) int64     { yop(); o := *p; *p = v; return o }
func AtomicSwapUint32(p *uint32, v uint32) uint32 { yop(); o := *p; *p = v; return o }
func AtomicSwapUint64(p *uint64, v uint64) uint64 { yop(); o := *p; *p = v; return o }

func cas[T comparable](p *T, o, n T) bool {
	yop()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func AtomicCompareAndSwapInt32(p *int32, o, n int32) bool    { return cas(p, o, n) }
func AtomicCompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func AtomicCompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func AtomicCompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }
func AtomicCompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return cas(p, o, n)
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}
type atomicNum[T num] struct{ v T }

func (a *atomicNum[T]) Load() T                    { yop(); return a.v }
func (a *atomicNum[T]) Store(v T)                  { yop(); a.v = v }
func (a *atomicNum[T]) Add(d T) T                  { yop(); a.v += d; return a.v }
func (a *atomicNum[T]) Swap(v T) T                 { yop(); o := a.v; a.v = v; return o }
func (a *atomicNum[T]) CompareAndSwap(o, n T) bool { return cas(&a.v, o, n) }

type AtomicInt32 struct{ atomicNum[int32] }
type AtomicInt64 struct{ atomicNum[int64] }
type AtomicUint32 struct{ atomicNum[uint32] }
type AtomicUint64 struct{ atomicNum[uint64] }
type AtomicUintptr struct{ atomicNum[uintptr] }

type AtomicBool struct{ v bool }

func (a *AtomicBool) Load() bool                    { yop(); return a.v }
func (a *AtomicBool) Store(v bool)                  { yop(); a.v = v }
func (a *AtomicBool) Swap(v bool) bool              { yop(); o := a.v; a.v = v; return o }
func (a *AtomicBool) CompareAndSwap(o, n bool) bool { return cas(&a.v, o, n) }

type AtomicValue struct{ v interface{} }

func (a *AtomicValue) Load() interface{} { yop(); return a.v }
func (a *AtomicValue) Store(v interface{}) {
	yop()
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	a.v = v
}
func (a *AtomicValue) Swap(v interface{}) interface{} { yop(); o := a.v; a.v = v; return o }
func (a *AtomicValue) CompareAndSwap(o, n interface{}) bool {
	yop()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicPointer[T any] struct{ v *T }

func (a *AtomicPointer[T]) Load() *T                    { yop(); return a.v }
func (a *AtomicPointer[T]) Store(v *T)                  { yop(); a.v = v }
func (a *AtomicPointer[T]) Swap(v *T) *T                { yop(); o := a.v; a.v = v; return o }
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool { return cas(&a.v, o, n) }

// ---- per process package variables --------------------------------------------------------

type PV[T any] struct {
	id   int
	init func() T
}

var pvCount int

func NewPV[T any](f func() T) *PV[T] {
	v := &PV[T]{pvCount, f}
	pvCount++
	return v
}

func (v *PV[T]) P() *T {
	p := CurProc()
	for len(p.vars) <= v.id {
		p.vars = append(p.vars, nil)
	}
	if p.vars[v.id] == nil {
		x := new(T)
		p.vars[v.id] = x
		*x = v.init()
	}
	return p.vars[v.id].(*T)
}

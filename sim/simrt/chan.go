package simrt

import (
	"unsafe"
)

type uintptrKey = unsafe.Pointer

// chanT is the simulated state of a channel; the real channel only serves as
// its identity (and is kept alive so that identities are never reused).
type chanT[T any] struct {
	keep   interface{}
	cap    int
	buf    []T
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
}

type selWait struct {
	t     *Task
	fired bool
	idx   int
}

type waiter[T any] struct {
	s   *selWait
	idx int
	v   T
	ok  bool
}

func chKey[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func stateR[T any](ch <-chan T) *chanT[T] {
	k := chKey(ch)
	if s, ok := W.chans[k]; ok {
		return s.(*chanT[T])
	}
	s := &chanT[T]{keep: ch, cap: cap(ch)}
	W.chans[k] = s
	return s
}

func stateS[T any](ch chan<- T) *chanT[T] {
	k := chKey(ch)
	if s, ok := W.chans[k]; ok {
		return s.(*chanT[T])
	}
	s := &chanT[T]{keep: ch, cap: cap(ch)}
	W.chans[k] = s
	return s
}

func popLive[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if w.s.fired || w.s.t.killed || w.s.t.dead {
			continue
		}
		return w
	}
	return nil
}

func (w *waiter[T]) fire() {
	w.s.fired = true
	w.s.idx = w.idx
	W.ready(w.s.t)
}

func (c *chanT[T]) tryRecv() (v T, ok bool, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		var zero T
		c.buf[0] = zero
		c.buf = c.buf[1:]
		if s := popLive(&c.sendq); s != nil {
			c.buf = append(c.buf, s.v)
			s.ok = true
			s.fire()
		}
		return v, true, true
	}
	if s := popLive(&c.sendq); s != nil {
		s.ok = true
		s.fire()
		return s.v, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

func (c *chanT[T]) trySend(v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if r := popLive(&c.recvq); r != nil {
		r.v = v
		r.ok = true
		r.fire()
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *chanT[T]) close() {
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		r := popLive(&c.recvq)
		if r == nil {
			break
		}
		r.ok = false
		r.fire()
	}
	for {
		s := popLive(&c.sendq)
		if s == nil {
			break
		}
		s.ok = false
		s.fire()
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	yop()
	if zombie() {
		return
	}
	if ch == nil {
		W.block("nil channel")
		return
	}
	c := stateR(ch)
	v, ok, done := c.tryRecv()
	if done {
		return v, ok
	}
	w := &waiter[T]{s: &selWait{t: cur}}
	c.recvq = append(c.recvq, w)
	W.block("chan receive")
	return w.v, w.ok
}

// SendTo evaluates the channel, then takes the value.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	yop()
	if zombie() {
		return
	}
	if ch == nil {
		W.block("nil channel")
		return
	}
	c := stateS(ch)
	if c.trySend(v) {
		return
	}
	w := &waiter[T]{s: &selWait{t: cur}, v: v}
	c.sendq = append(c.sendq, w)
	W.block("chan send")
	if !w.ok && w.s.fired {
		panic("send on closed channel")
	}
}

func Close[T any](ch chan<- T) {
	yop()
	if zombie() {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	stateS(ch).close()
}

// closeNow closes without a scheduling point (runtime internal events).
func closeNow[T any](ch chan T) {
	c := stateS[T](ch)
	if !c.closed {
		c.close()
	}
}

func Len[T any](ch <-chan T) int {
	if cur == nil || ch == nil {
		return 0
	}
	return len(stateR(ch).buf)
}

// ---- select -------------------------------------------------------------------------

type Case interface {
	ready() bool
	run()
	enq(s *selWait, idx int)
	deq()
	take()
}

type RecvCase[T any] struct {
	ch <-chan T
	w  *waiter[T]
	V  T
	OK bool
}

type SendCase[T any] struct {
	ch chan<- T
	w  *waiter[T]
	v  T
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func liveIn[T any](q []*waiter[T]) bool {
	for _, w := range q {
		if !w.s.fired && !w.s.t.killed && !w.s.t.dead {
			return true
		}
	}
	return false
}

func (c *RecvCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	s := stateR(c.ch)
	return len(s.buf) > 0 || s.closed || liveIn(s.sendq)
}
func (c *RecvCase[T]) run() { c.V, c.OK, _ = stateR(c.ch).tryRecv() }
func (c *RecvCase[T]) enq(s *selWait, idx int) {
	if c.ch == nil {
		return
	}
	c.w = &waiter[T]{s: s, idx: idx}
	st := stateR(c.ch)
	st.recvq = append(st.recvq, c.w)
}
func (c *RecvCase[T]) deq() {
	if c.w != nil {
		st := stateR(c.ch)
		remove(&st.recvq, c.w)
	}
}
func (c *RecvCase[T]) take() { c.V, c.OK = c.w.v, c.w.ok }

func (c *SendCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	s := stateS(c.ch)
	return s.closed || len(s.buf) < s.cap || liveIn(s.recvq)
}
func (c *SendCase[T]) run() { stateS(c.ch).trySend(c.v) }
func (c *SendCase[T]) enq(s *selWait, idx int) {
	if c.ch == nil {
		return
	}
	c.w = &waiter[T]{s: s, idx: idx, v: c.v}
	st := stateS(c.ch)
	st.sendq = append(st.sendq, c.w)
}
func (c *SendCase[T]) deq() {
	if c.w != nil {
		st := stateS(c.ch)
		remove(&st.sendq, c.w)
	}
}
func (c *SendCase[T]) take() {
	if !c.w.ok {
		panic("send on closed channel")
	}
}

func remove[T any](q *[]*waiter[T], w *waiter[T]) {
	for i, x := range *q {
		if x == w {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			return
		}
	}
}

func Select(hasDefault bool, cases ...Case) int {
	yop()
	if zombie() {
		if hasDefault {
			return -1
		}
		return 0
	}
	var rdy [16]int
	r := rdy[:0]
	for i, c := range cases {
		if c.ready() {
			r = append(r, i)
		}
	}
	if len(r) > 0 {
		i := r[0]
		if len(r) > 1 {
			i = r[W.RSched.Intn(len(r))]
		}
		cases[i].run()
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selWait{t: cur}
	for i, c := range cases {
		c.enq(s, i)
	}
	W.block("select")
	for _, c := range cases {
		c.deq()
	}
	cases[s.idx].take()
	return s.idx
}

// ---- ranges --------------------------------------------------------------------------

type ChanIter[T any] struct{ ch <-chan T }

func RangeChan[T any](ch <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{ch}, z
}

func (c *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(c.ch)
	if ok {
		*v = x
	}
	return ok
}

type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap iterates a map in an order drawn from the run's seed.
func RangeMap[K comparable, V any](m map[K]V) (*MapIter[K, V], K, V) {
	var k K
	var v V
	it := &MapIter[K, V]{m: m}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for x := range m {
			it.keys = append(it.keys, x)
		}
		sortKeys(it.keys)
		if W != nil {
			shuffle(W.RMap, len(it.keys), func(i, j int) { it.keys[i], it.keys[j] = it.keys[j], it.keys[i] })
		}
	}
	return it, k, v
}

func shuffle(r *RNG, n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	if cur != nil && cur.killed {
		return false
	}
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		if val, ok := it.m[x]; ok {
			*k, *v = x, val
			return true
		}
	}
	return false
}

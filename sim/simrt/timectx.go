package simrt

import (
	"context"
	"time"
)

// ---- clocks and timers -------------------------------------------------------------------

func TimeNow() time.Time {
	if W == nil {
		return time.Unix(1_700_000_000, 0).UTC()
	}
	return time.Unix(0, int64(W.epoch+W.now+CurProc().skew)).UTC()
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	yop()
	if zombie() || d <= 0 {
		return
	}
	Sleep(d)
}

// SkewedAt is the wall clock of p at simulated instant d.
func (p *Proc) Wall() time.Time { return time.Unix(0, int64(W.epoch+W.now+p.skew)).UTC() }

type TimeTimer struct {
	C  <-chan time.Time
	ch chan time.Time
	t  *timer
	f  func()
	p  *Proc
}

func trySendTime(ch chan time.Time, p *Proc) {
	c := stateS[time.Time](ch)
	if c.closed {
		return
	}
	c.trySend(p.Wall())
}

func TimeNewTimer(d time.Duration) *TimeTimer {
	yop()
	ch := make(chan time.Time, 1)
	t := &TimeTimer{C: ch, ch: ch, p: CurProc()}
	if zombie() {
		return t
	}
	t.arm(d)
	return t
}

func (t *TimeTimer) arm(d time.Duration) {
	t.t = W.After(d, func() {
		if t.f != nil {
			f := t.f
			GoProc(t.p, "timerfunc", f)
			return
		}
		trySendTime(t.ch, t.p)
	})
	t.t.proc = t.p
}

func (t *TimeTimer) Stop() bool {
	yop()
	if t.t == nil || zombie() {
		return false
	}
	was := !t.t.off
	t.t.off = true
	return was
}

func (t *TimeTimer) Reset(d time.Duration) bool {
	yop()
	if zombie() {
		return false
	}
	was := t.t != nil && !t.t.off
	if t.t != nil {
		t.t.off = true
	}
	t.arm(d)
	return was
}

func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

func TimeAfterFunc(d time.Duration, f func()) *TimeTimer {
	yop()
	t := &TimeTimer{f: f, p: CurProc()}
	if zombie() {
		return t
	}
	t.arm(d)
	return t
}

type TimeTicker struct {
	C  <-chan time.Time
	ch chan time.Time
	t  *timer
	d  time.Duration
	p  *Proc
}

func TimeNewTicker(d time.Duration) *TimeTicker {
	yop()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &TimeTicker{C: ch, ch: ch, d: d, p: CurProc()}
	if zombie() {
		return t
	}
	t.arm()
	return t
}

func (t *TimeTicker) arm() {
	t.t = W.After(t.d, func() {
		t.arm()
		trySendTime(t.ch, t.p)
	})
	t.t.proc = t.p
}

func (t *TimeTicker) Stop() {
	yop()
	if t.t != nil {
		t.t.off = true
	}
}

func (t *TimeTicker) Reset(d time.Duration) {
	yop()
	if zombie() {
		return
	}
	if t.t != nil {
		t.t.off = true
	}
	t.d = d
	t.arm()
}

func TimeTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return TimeNewTicker(d).C
}

// ---- context ---------------------------------------------------------------------------------

type ctxKey struct{}

type SimCtx struct {
	parent   context.Context
	deadline time.Time
	hasDL    bool
	mono     time.Duration // deadline in simulated time
	done     chan struct{}
	err      error
	cause    error
	kids     []*SimCtx
	cbs      []func()
	tm       *timer
	p        *Proc
}

func ContextBackground() context.Context { return context.Background() }
func ContextTODO() context.Context       { return context.TODO() }

func (c *SimCtx) Deadline() (time.Time, bool) { return c.deadline, c.hasDL }
func (c *SimCtx) Done() <-chan struct{}       { return c.done }
func (c *SimCtx) Err() error                  { return c.err }
func (c *SimCtx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

// FindCtx returns the nearest simulated context of ctx, or nil.
func FindCtx(ctx context.Context) *SimCtx {
	c, _ := ctx.Value(ctxKey{}).(*SimCtx)
	return c
}

func (c *SimCtx) OnDone(f func()) {
	if c.err != nil {
		f()
		return
	}
	c.cbs = append(c.cbs, f)
}

// MonoDeadline is the deadline in simulated time.
func (c *SimCtx) MonoDeadline() (time.Duration, bool) {
	return c.mono, c.hasDL
}

func NewSimCtx(parent context.Context) *SimCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &SimCtx{parent: parent, done: make(chan struct{}), p: CurProc()}
	if pc := FindCtx(parent); pc != nil {
		if pc.hasDL {
			c.deadline, c.mono, c.hasDL = pc.deadline, pc.mono, true
		}
		if pc.err != nil {
			c.Cancel(pc.err, pc.cause)
		} else {
			pc.kids = append(pc.kids, c)
		}
	}
	return c
}

func (c *SimCtx) Cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.tm != nil {
		c.tm.off = true
	}
	closeNow(c.done)
	for _, k := range c.kids {
		k.Cancel(err, cause)
	}
	c.kids = nil
	cbs := c.cbs
	c.cbs = nil
	for _, f := range cbs {
		f()
	}
	if pc := FindCtx(c.parent); pc != nil {
		for i, k := range pc.kids {
			if k == c {
				pc.kids = append(pc.kids[:i:i], pc.kids[i+1:]...)
				break
			}
		}
	}
}

// SetTimeout arms the deadline d from now.
func (c *SimCtx) SetTimeout(d time.Duration) {
	m := W.now + d
	if c.hasDL && c.mono <= m {
		return
	}
	c.mono, c.hasDL = m, true
	c.deadline = c.p.Wall().Add(d)
	if c.err != nil {
		return
	}
	if d <= 0 {
		c.Cancel(context.DeadlineExceeded, nil)
		return
	}
	c.tm = W.After(d, func() { c.Cancel(context.DeadlineExceeded, nil) })
}

func cancelFn(c *SimCtx) context.CancelFunc {
	return func() {
		if zombie() {
			return
		}
		c.Cancel(context.Canceled, nil)
	}
}

func ContextWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if zombie() {
		return parent, func() {}
	}
	c := NewSimCtx(parent)
	return c, cancelFn(c)
}

func ContextWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if zombie() {
		return parent, func() {}
	}
	c := NewSimCtx(parent)
	c.SetTimeout(d)
	return c, cancelFn(c)
}

func ContextWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return ContextWithTimeout(parent, TimeUntil(t))
}

func ContextWithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return ContextWithTimeout(parent, d)
}

func ContextWithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return ContextWithTimeout(parent, TimeUntil(t))
}

func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	s := FindCtx(ctx)
	if zombie() || s == nil {
		return func() bool { return true }
	}
	const armed, stopped, fired = 0, 1, 2
	state := armed
	s.OnDone(func() {
		if state == armed {
			state = fired
			GoProc(s.p, "afterfunc", f)
		}
	})
	return func() bool {
		if state == armed {
			state = stopped
			return true
		}
		return false
	}
}

func ContextWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if zombie() {
		return parent, func(error) {}
	}
	c := NewSimCtx(parent)
	return c, func(e error) {
		if !zombie() {
			c.Cancel(context.Canceled, e)
		}
	}
}

type noCancel struct{ context.Context }

func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (n noCancel) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return n.Context.Value(k)
}

func ContextWithoutCancel(parent context.Context) context.Context { return noCancel{parent} }

func ContextCause(c context.Context) error {
	if s := FindCtx(c); s != nil {
		return s.cause
	}
	return c.Err()
}

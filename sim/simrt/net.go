package simrt

import (
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"syscall"
	"time"
)

// Net is the simulated network: TCP-like connections (reliable, FIFO per
// direction while they live) over links with latency, jitter, loss (seen as
// retransmission delay), partitions and resets.
type Net struct {
	w        *World
	MinLat   time.Duration
	Jitter   time.Duration
	LossP    int // per-mille of segments that need retransmission
	ResetP   int // per-100000 segments that reset the connection instead
	DNS      map[string][]string
	conns    []*NetConn
	ConnSeq  int
	Dials    []DialRec
	LogDials bool
	// observers
	OnMessage func(m *RPCRec)
}

type DialRec struct {
	At   time.Duration
	From string
	To   string
}

// RPCRec describes an RPC seen on the wire.
type RPCRec struct {
	At     time.Duration
	From   *Proc
	To     *Proc
	Method string
	Req    interface{}
}

func newNet(w *World) *Net {
	return &Net{w: w, MinLat: 200 * time.Microsecond, Jitter: 800 * time.Microsecond, DNS: map[string][]string{}}
}

type NetListener struct {
	Proc    *Proc
	Host    *Host
	Port    string
	closed  bool
	Accept_ func(c *NetConn) // installed by the grpc or http server
	q       WaitQ
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (l *NetListener) Accept() (net.Conn, error) {
	return nil, errors.New("simulated listeners are served by the gRPC or HTTP shim only")
}
func (l *NetListener) Close() error {
	if l.closed {
		return nil
	}
	l.closed = true
	if l.Host.ports[l.Port] == l {
		delete(l.Host.ports, l.Port)
	}
	l.q.WakeAll()
	return nil
}
func (l *NetListener) Addr() net.Addr { return simAddr(l.Host.IP + ":" + l.Port) }
func (l *NetListener) Closed() bool   { return l.closed }

// WaitClosed blocks until the listener is closed.
func (l *NetListener) WaitClosed() {
	for !l.closed {
		l.q.Wait("accept")
		if zombie() {
			return
		}
	}
}

func NetListen(network, address string) (net.Listener, error) {
	yop()
	if zombie() {
		return nil, errors.New("killed")
	}
	i := strings.LastIndex(address, ":")
	if i < 0 {
		return nil, errors.New("missing port in address")
	}
	port := address[i+1:]
	h := cur.proc.Host
	if h.ports[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	l := &NetListener{Proc: cur.proc, Host: h, Port: port}
	h.ports[port] = l
	p := cur.proc
	p.onExit = append(p.onExit, func() { l.Close() })
	return l, nil
}

// ---- connections -------------------------------------------------------------------------------

// Endpoint is one side of a connection.
type Endpoint struct {
	Proc    *Proc
	Host    *Host
	OnReset func(err error) // called once when this side learns the connection is gone
	gone    bool            // process or host disappeared, or closed locally
	told    bool
}

type NetConn struct {
	ID    int
	n     *Net
	C, S  *Endpoint // client, server
	dead  bool
	last  [2]time.Duration
	held  [2][]func()
	heldT [2]time.Duration
	Laddr string
	Raddr string
}

func (n *Net) Resolve(name string) (ip string, ok bool) {
	if n.w.hosts[name] != nil {
		return name, true
	}
	if l := n.DNS[name]; len(l) > 0 {
		return l[n.w.RNet.Intn(len(l))], true
	}
	return "", false
}

func splitHP(a string) (string, string) {
	i := strings.LastIndex(a, ":")
	if i < 0 {
		return a, ""
	}
	return a[:i], a[i+1:]
}

func (n *Net) latency(a, b *Host) time.Duration {
	d := n.MinLat + time.Duration(n.w.RNet.Int63n(int64(n.Jitter)+1)) + a.extra + b.extra
	if n.LossP > 0 {
		rto := 200 * time.Millisecond
		for i := 0; i < 6 && n.w.RNet.Intn(1000) < n.LossP; i++ {
			d += rto
			rto *= 2
			n.w.Counters["segment_loss"]++
		}
	}
	return d
}

// Reachable: can segments from a arrive at b right now?
func (n *Net) Reachable(a, b *Host) bool {
	if a == b {
		return !a.Down
	}
	return !a.Down && !b.Down && !a.blocked[b.IP]
}

// Dial attempts a TCP connection from the current or given process; exactly one
// of ok/fail runs later, in event context.
func (n *Net) Dial(p *Proc, addr string, timeout time.Duration, ok func(c *NetConn, l *NetListener), fail func(err error)) {
	w := n.w
	name, port := splitHP(addr)
	if n.LogDials {
		n.Dials = append(n.Dials, DialRec{w.now, p.Host.IP, addr})
	}
	if name == "localhost" || name == "127.0.0.1" || name == "[::1]" {
		name = p.Host.IP
	}
	ip, found := n.Resolve(name)
	if !found {
		w.After(time.Millisecond, func() { fail(errors.New("no such host")) })
		return
	}
	dst := w.hosts[ip]
	start := w.now
	var attempt func()
	rto := time.Second
	attempt = func() {
		if p.Dead {
			return
		}
		if w.now-start >= timeout {
			w.Counters["dial_timeout"]++
			fail(errors.New("i/o timeout"))
			return
		}
		if !n.Reachable(p.Host, dst) || !n.Reachable(dst, p.Host) {
			d := rto
			rto *= 2
			if left := timeout - (w.now - start); d > left {
				d = left
			}
			w.After(d, attempt)
			return
		}
		lat := n.latency(p.Host, dst)
		w.After(lat, func() {
			if p.Dead {
				return
			}
			l := dst.ports[port]
			if dst.Down {
				w.After(rto, attempt)
				return
			}
			if l == nil || l.closed || l.Accept_ == nil || l.Proc.Dead {
				w.After(n.latency(dst, p.Host), func() {
					w.Counters["conn_refused"]++
					fail(errors.New("connection refused"))
				})
				return
			}
			n.ConnSeq++
			c := &NetConn{ID: n.ConnSeq, n: n, C: &Endpoint{Proc: p, Host: p.Host}, S: &Endpoint{Proc: l.Proc, Host: dst}}
			c.Laddr = fmt.Sprintf("%s:%d", p.Host.IP, 30000+n.ConnSeq%20000)
			c.Raddr = ip + ":" + port
			p.onExit = append(p.onExit, func() { c.procGone(c.C) })
			l.Proc.onExit = append(l.Proc.onExit, func() { c.procGone(c.S) })
			n.conns = append(n.conns, c)
			if len(n.conns) > 256 {
				n.gc()
			}
			l.Accept_(c)
			w.After(n.latency(dst, p.Host), func() {
				if p.Dead {
					return
				}
				ok(c, l)
			})
		})
	}
	attempt()
}

// OpenBy counts the connections p has opened and not closed.
func (n *Net) OpenBy(p *Proc) (k int) {
	for _, c := range n.conns {
		if !c.dead && !c.C.gone && c.C.Proc == p {
			k++
		}
	}
	return
}

func (n *Net) gc() {
	o := n.conns[:0]
	for _, c := range n.conns {
		if !c.dead {
			o = append(o, c)
		}
	}
	n.conns = o
}

func (c *NetConn) side(e *Endpoint) (int, *Endpoint) {
	if e == c.C {
		return 0, c.S
	}
	return 1, c.C
}

// Send transmits one segment from endpoint e; fn runs at the other side.
func (c *NetConn) Send(e *Endpoint, fn func()) {
	if c.dead || e.gone {
		return
	}
	w := c.n.w
	dir, to := c.side(e)
	if c.n.ResetP > 0 && w.RNet.Intn(100000) < c.n.ResetP {
		w.Counters["conn_reset"]++
		c.Reset()
		return
	}
	if !c.n.Reachable(e.Host, to.Host) || len(c.held[dir]) > 0 {
		if len(c.held[dir]) == 0 {
			c.heldT[dir] = w.now
			c.scheduleRetry(dir, e, to, 200*time.Millisecond)
		}
		c.held[dir] = append(c.held[dir], fn)
		w.Counters["segment_held"]++
		return
	}
	c.transmit(dir, e, to, fn)
}

func (c *NetConn) transmit(dir int, e, to *Endpoint, fn func()) {
	w := c.n.w
	at := w.now + c.n.latency(e.Host, to.Host)
	if at <= c.last[dir] {
		at = c.last[dir] + 1
	}
	c.last[dir] = at
	w.At(at, func() {
		if c.dead {
			return
		}
		if to.Host.Down {
			return
		}
		if to.gone || to.Proc.Dead {
			// the kernel on the other side answers with a reset
			w.After(c.n.latency(to.Host, e.Host), func() { c.Reset() })
			return
		}
		if to.Proc.paused {
			// socket buffer: processed when the process runs again (the
			// handler task will sit in its paused queue)
		}
		w.Mix(uint64(c.ID)<<8 ^ uint64(dir) ^ 0x77)
		fn()
	})
}

// retransmission with backoff while the path is down; after ~15 minutes TCP
// gives up.
func (c *NetConn) scheduleRetry(dir int, e, to *Endpoint, rto time.Duration) {
	w := c.n.w
	w.After(rto, func() {
		if c.dead || e.gone || e.Host.Down {
			return
		}
		if c.n.Reachable(e.Host, to.Host) {
			h := c.held[dir]
			c.held[dir] = nil
			for _, f := range h {
				c.transmit(dir, e, to, f)
			}
			return
		}
		if w.now-c.heldT[dir] > 900*time.Second {
			w.Counters["tcp_give_up"]++
			c.lose(e)
			return
		}
		if rto < 30*time.Second {
			rto *= 2
		}
		c.scheduleRetry(dir, e, to, rto)
	})
}

func (c *NetConn) lose(e *Endpoint) {
	if !e.told && !e.gone {
		e.told = true
		if e.OnReset != nil && !e.Proc.Dead {
			e.OnReset(errors.New("connection reset by peer"))
		}
	}
}

// Reset breaks the connection now; both sides notice.
func (c *NetConn) Reset() {
	if c.dead {
		return
	}
	c.dead = true
	c.lose(c.C)
	c.lose(c.S)
}

// CloseBy: endpoint e closes in an orderly way.
func (c *NetConn) CloseBy(e *Endpoint) {
	if c.dead || e.gone {
		return
	}
	_, to := c.side(e)
	e.told = true
	c.Send(e, func() {
		c.lose(to)
		c.dead = true
	})
	e.gone = true
}

// procGone: the process owning e died. The kernel resets the peer unless the
// whole host went down.
func (c *NetConn) procGone(e *Endpoint) {
	if c.dead || e.gone {
		return
	}
	_, to := c.side(e)
	if e.Host.Down {
		e.gone = true
		return
	}
	e.told = true
	c.Send(e, func() {
		c.lose(to)
		c.dead = true
	})
	e.gone = true
}

func (c *NetConn) Dead() bool { return c.dead }

// ---- fault controls ---------------------------------------------------------------------------

func (n *Net) Block(a, b *Host) {
	a.blocked[b.IP] = true
	n.w.Tracef("BLOCK %s->%s", a.Name, b.Name)
	n.w.Counters["partition"]++
}
func (n *Net) Unblock(a, b *Host) {
	delete(a.blocked, b.IP)
	n.w.Tracef("UNBLOCK %s->%s", a.Name, b.Name)
}
func (n *Net) HealAll() {
	for _, h := range n.w.hostList {
		h.blocked = map[string]bool{}
		h.extra = 0
	}
	n.LossP, n.ResetP = 0, 0
	n.w.Tracef("HEAL")
}
func (h *Host) SetExtraLatency(d time.Duration) { h.extra = d }

// ResetConns resets the connections between two hosts.
func (n *Net) ResetConns(a, b *Host) int {
	k := 0
	for _, c := range append([]*NetConn(nil), n.conns...) {
		if c.dead {
			continue
		}
		if (c.C.Host == a && c.S.Host == b) || (c.C.Host == b && c.S.Host == a) || b == nil && (c.C.Host == a || c.S.Host == a) {
			n.w.Counters["conn_reset"]++
			n.w.Tracef("RESET conn %d %s->%s", c.ID, c.C.Host.Name, c.S.Host.Name)
			c.Reset()
			k++
		}
	}
	return k
}

func (h *Host) Boot() { h.Down = false }

// ---- HTTP -------------------------------------------------------------------------------------

type HTTPEndpoint struct {
	Handler http.Handler
	q       WaitQ
	down    bool
}

type HTTPServer struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	MaxHeaderBytes    int
	ep                *HTTPEndpoint
}

func (s *HTTPServer) ListenAndServe() error {
	yop()
	if zombie() {
		return errors.New("killed")
	}
	p := cur.proc
	_, port := splitHP(s.Addr)
	if p.https[port] != nil {
		return errors.New("bind: address already in use")
	}
	h := s.Handler
	if h == nil {
		h = http.NewServeMux()
	}
	s.ep = &HTTPEndpoint{Handler: h}
	p.https[port] = s.ep
	for !s.ep.down {
		s.ep.q.Wait("http serve")
		if zombie() {
			return errors.New("killed")
		}
	}
	return http.ErrServerClosed
}
func (s *HTTPServer) Close() error {
	if s.ep != nil {
		s.ep.down = true
		s.ep.q.WakeAll()
	}
	return nil
}

func HTTPListenAndServe(addr string, h http.Handler) error {
	return (&HTTPServer{Addr: addr, Handler: h}).ListenAndServe()
}

type HTTPClient struct{ Timeout time.Duration }

var HTTPDefaultClient = &HTTPClient{}

func HTTPGet(url string) (*http.Response, error) {
	return nil, errors.New("no outbound http in simulation")
}
func HTTPPost(url, ct string, b interface{}) (*http.Response, error) {
	return nil, errors.New("no outbound http in simulation")
}

// HTTPProbe performs GET path against process p's HTTP server on port from the
// current (harness) task; 0 means no answer within the timeout.
func (p *Proc) HTTPProbe(port, url string, timeout time.Duration) (code int, body string) {
	if p.Dead {
		return 0, ""
	}
	ep := p.https[port]
	if ep == nil {
		return 0, ""
	}
	var q WaitQ
	done, timedOut := false, false
	GoProc(p, "http", func() {
		defer func() {
			if r := recover(); r != nil { // net/http recovers handler panics
				code = 500
			}
			done = true
			q.WakeAll()
		}()
		req := httptest.NewRequest("GET", url, nil)
		rec := httptest.NewRecorder()
		ep.Handler.ServeHTTP(rec, req)
		code, body = rec.Code, rec.Body.String()
	})
	After(timeout, func() { timedOut = true; q.WakeAll() })
	for !done && !timedOut && !p.Dead {
		q.Wait("http probe")
	}
	return code, body
}

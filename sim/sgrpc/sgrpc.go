// Package sgrpc stands in for google.golang.org/grpc inside the simulation: the
// same client connection state machine, failure semantics, deadlines, flow
// control and wire encoding, over the simulated network.
package sgrpc

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	protov1 "github.com/golang/protobuf/proto"

	"verisim/simrt"
)

const (
	SupportPackageIsVersion4 = true
	SupportPackageIsVersion5 = true
	SupportPackageIsVersion6 = true
	SupportPackageIsVersion7 = true
	Version                  = "sim"
	maxMsg                   = 4 << 20
	window                   = 128 << 10
)

// ---- interfaces used by generated code ---------------------------------------------------

type ClientConnInterface interface {
	Invoke(ctx context.Context, method string, args interface{}, reply interface{}, opts ...CallOption) error
	NewStream(ctx context.Context, desc *StreamDesc, method string, opts ...CallOption) (ClientStream, error)
}
type ClientStream interface {
	Header() (metadata.MD, error)
	Trailer() metadata.MD
	CloseSend() error
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}
type ServerStream interface {
	SetHeader(metadata.MD) error
	SendHeader(metadata.MD) error
	SetTrailer(metadata.MD)
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}
type StreamHandler func(srv interface{}, stream ServerStream) error
type UnaryHandler func(ctx context.Context, req interface{}) (interface{}, error)
type UnaryServerInfo struct {
	Server     interface{}
	FullMethod string
}
type StreamServerInfo struct {
	FullMethod     string
	IsClientStream bool
	IsServerStream bool
}
type UnaryServerInterceptor func(ctx context.Context, req interface{}, info *UnaryServerInfo, handler UnaryHandler) (resp interface{}, err error)
type StreamServerInterceptor func(srv interface{}, ss ServerStream, info *StreamServerInfo, handler StreamHandler) error
type StreamDesc struct {
	StreamName    string
	Handler       StreamHandler
	ServerStreams bool
	ClientStreams bool
}
type MethodDesc struct {
	MethodName string
	Handler    func(srv interface{}, ctx context.Context, dec func(interface{}) error, interceptor UnaryServerInterceptor) (interface{}, error)
}
type ServiceDesc struct {
	ServiceName string
	HandlerType interface{}
	Methods     []MethodDesc
	Streams     []StreamDesc
	Metadata    interface{}
}
type ServiceRegistrar interface {
	RegisterService(desc *ServiceDesc, impl interface{})
}

type callOpts struct {
	waitReady bool
	maxRecv   int
}
type CallOption interface{ apply(*callOpts) }
type callOptFn func(*callOpts)

func (f callOptFn) apply(o *callOpts) { f(o) }

func WaitForReady(b bool) CallOption { return callOptFn(func(o *callOpts) { o.waitReady = b }) }
func FailFast(b bool) CallOption     { return callOptFn(func(o *callOpts) { o.waitReady = !b }) }
func MaxCallRecvMsgSize(n int) CallOption {
	return callOptFn(func(o *callOpts) { o.maxRecv = n })
}
func MaxCallSendMsgSize(n int) CallOption { return callOptFn(func(o *callOpts) {}) }

type dialOpts struct {
	block   bool
	timeout time.Duration
	call    []CallOption
	fail    bool
}
type DialOption interface{ applyDial(*dialOpts) }
type dialOptFn func(*dialOpts)

func (f dialOptFn) applyDial(o *dialOpts) { f(o) }

func WithInsecure() DialOption                        { return dialOptFn(func(o *dialOpts) {}) }
func WithTransportCredentials(interface{}) DialOption { return dialOptFn(func(o *dialOpts) {}) }
func WithTimeout(d time.Duration) DialOption          { return dialOptFn(func(o *dialOpts) { o.timeout = d }) }
func WithBlock() DialOption                           { return dialOptFn(func(o *dialOpts) { o.block = true }) }
func FailOnNonTempDialError(b bool) DialOption        { return dialOptFn(func(o *dialOpts) { o.fail = b }) }
func WithReturnConnectionError() DialOption           { return dialOptFn(func(o *dialOpts) { o.block = true }) }
func WithUserAgent(string) DialOption                 { return dialOptFn(func(o *dialOpts) {}) }
func WithKeepaliveParams(interface{}) DialOption      { return dialOptFn(func(o *dialOpts) {}) }
func WithDefaultCallOptions(c ...CallOption) DialOption {
	return dialOptFn(func(o *dialOpts) { o.call = append(o.call, c...) })
}

// ---- encoding -----------------------------------------------------------------------------

func encode(m interface{}) ([]byte, error) {
	switch x := m.(type) {
	case proto.Message:
		return proto.MarshalOptions{Deterministic: true}.Marshal(x)
	case protov1.Message:
		return proto.MarshalOptions{Deterministic: true}.Marshal(protov1.MessageV2(x))
	}
	return nil, fmt.Errorf("cannot marshal %T", m)
}

func decode(b []byte, m interface{}) error {
	switch x := m.(type) {
	case proto.Message:
		return proto.Unmarshal(b, x)
	case protov1.Message:
		return proto.Unmarshal(b, protov1.MessageV2(x))
	}
	return fmt.Errorf("cannot unmarshal %T", m)
}

func isNilMsg(m interface{}) bool {
	if m == nil {
		return true
	}
	if x, ok := m.(proto.Message); ok && x != nil && !x.ProtoReflect().IsValid() {
		return true
	}
	return false
}

// ---- client connection ---------------------------------------------------------------------

type ClientConn struct {
	target  string
	p       *simrt.Proc
	state   connectivity.State
	err     error
	conn    *simrt.NetConn
	half    *simrt.NetConn // connected, not greeted yet
	q       simrt.WaitQ
	closed  bool
	tries   int
	gen     int
	streams []*cstream
	opts    dialOpts
	nextID  int
	used    bool
}

func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

func NewClient(target string, opts ...DialOption) (*ClientConn, error) { return Dial(target, opts...) }

func DialContext(ctx context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	simrt.Yop()
	if simrt.Zombie() {
		return nil, errors.New("killed")
	}
	cc := &ClientConn{target: target, p: simrt.CurProc(), state: connectivity.Idle}
	for _, o := range opts {
		o.applyDial(&cc.opts)
	}
	simrt.Count("grpc_dial")
	cc.connect()
	if cc.opts.block {
		timedOut := false
		if cc.opts.timeout > 0 {
			simrt.After(cc.opts.timeout, func() { timedOut = true; cc.q.WakeAll() })
		}
		if c := simrt.FindCtx(ctx); c != nil {
			c.OnDone(func() { timedOut = true; cc.q.WakeAll() })
		}
		for cc.state != connectivity.Ready && !timedOut {
			cc.q.Wait("grpc dial")
			if simrt.Zombie() {
				return nil, errors.New("killed")
			}
		}
		if cc.state != connectivity.Ready {
			cc.shutdown()
			return nil, context.DeadlineExceeded
		}
	}
	return cc, nil
}

func (cc *ClientConn) Target() string { return cc.target }

func (cc *ClientConn) GetState() connectivity.State {
	simrt.Yop()
	if cc.closed {
		return connectivity.Shutdown
	}
	return cc.state
}

func (cc *ClientConn) Connect() {
	if !cc.closed && cc.state == connectivity.Idle {
		cc.connect()
	}
}

func (cc *ClientConn) WaitForStateChange(ctx context.Context, s connectivity.State) bool {
	for cc.state == s && ctx.Err() == nil {
		if c := simrt.FindCtx(ctx); c != nil {
			c.OnDone(func() { cc.q.WakeAll() })
		}
		cc.q.Wait("grpc state")
		if simrt.Zombie() {
			return false
		}
	}
	return cc.state != s
}

func (cc *ClientConn) set(s connectivity.State) {
	cc.state = s
	cc.q.WakeAll()
}

// connect starts one connection attempt (event context safe).
func (cc *ClientConn) connect() {
	if cc.closed {
		return
	}
	cc.gen++
	gen := cc.gen
	if cc.state != connectivity.TransientFailure {
		cc.set(connectivity.Connecting)
	}
	timeout := 20 * time.Second
	settled := false
	fail := func(err error) {
		if settled || gen != cc.gen || cc.closed {
			return
		}
		settled = true
		cc.err = err
		cc.set(connectivity.TransientFailure)
		d := time.Duration(float64(time.Second) * math.Pow(1.6, float64(cc.tries)))
		if d > 120*time.Second {
			d = 120 * time.Second
		}
		// +-20% jitter
		d = time.Duration(float64(d) * (0.8 + 0.4*simrt.W.RNet.Float64()))
		cc.tries++
		simrt.After(d, func() {
			if gen == cc.gen && !cc.closed && !cc.p.Dead {
				cc.connect()
			}
		})
	}
	simrt.W.Net.Dial(cc.p, cc.target, timeout, func(c *simrt.NetConn, l *simrt.NetListener) {
		if settled || gen != cc.gen || cc.closed {
			c.CloseBy(c.C)
			return
		}
		c.C.OnReset = func(err error) {
			if !settled {
				fail(err)
				return
			}
			cc.lost(c)
		}
		// READY only once the server's SETTINGS frame arrives
		sc := serverConns[c]
		if sc == nil {
			fail(errors.New("connection closed"))
			return
		}
		sc.hello = func() {
			if settled || gen != cc.gen || cc.closed {
				return
			}
			settled = true
			cc.conn, cc.half = c, nil
			cc.tries = 0
			cc.err = nil
			cc.set(connectivity.Ready)
		}
		cc.half = c // closed with the client
		sc.greet()
		simrt.After(timeout, func() {
			if !settled && gen == cc.gen && !cc.closed {
				c.CloseBy(c.C)
				fail(errors.New("handshake timeout"))
			}
		})
	}, fail)
}

func (cc *ClientConn) lost(c *simrt.NetConn) {
	if cc.conn != c {
		return
	}
	cc.conn = nil
	l := cc.streams
	cc.streams = nil
	for _, s := range l {
		s.finish(status.New(codes.Unavailable, "error reading from server: EOF"))
	}
	if !cc.closed {
		cc.gen++
		cc.set(connectivity.Idle)
	}
}

func (cc *ClientConn) shutdown() {
	if cc.closed {
		return
	}
	cc.closed = true
	cc.gen++
	if h := cc.half; h != nil {
		cc.half = nil
		h.CloseBy(h.C)
	}
	c := cc.conn
	cc.conn = nil
	l := cc.streams
	cc.streams = nil
	for _, s := range l {
		s.finish(status.New(codes.Canceled, "grpc: the client connection is closing"))
	}
	if c != nil {
		c.CloseBy(c.C)
	}
	cc.set(connectivity.Shutdown)
}

func (cc *ClientConn) Close() error {
	simrt.Yop()
	if simrt.Zombie() {
		return nil
	}
	if cc.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	cc.shutdown()
	return nil
}

func ctxStatus(ctx context.Context) *status.Status { return status.FromContextError(ctx.Err()) }

// pick waits for a usable connection as the picker would.
func (cc *ClientConn) pick(ctx context.Context, wait bool) (*simrt.NetConn, error) {
	armed := false
	for {
		if cc.closed {
			return nil, status.Error(codes.Canceled, "grpc: the client connection is closing")
		}
		if ctx.Err() != nil {
			return nil, ctxStatus(ctx).Err()
		}
		switch cc.state {
		case connectivity.Ready:
			return cc.conn, nil
		case connectivity.Idle:
			cc.connect()
			continue
		case connectivity.TransientFailure:
			if !wait {
				return nil, status.Errorf(codes.Unavailable, "connection error: %v", cc.err)
			}
		}
		if !armed {
			armed = true
			if c := simrt.FindCtx(ctx); c != nil {
				c.OnDone(func() { cc.q.WakeAll() })
			}
		}
		cc.q.Wait("grpc pick")
		if simrt.Zombie() {
			return nil, status.Error(codes.Canceled, "killed")
		}
	}
}

type cstream struct {
	cc     *ClientConn
	conn   *simrt.NetConn
	ctx    *simrt.SimCtx
	q      simrt.WaitQ
	in     [][]byte
	st     *status.Status
	ss     *sstream
	method string
	closed bool
	sent   bool
	co     callOpts
	opened bool
}

// finish ends the stream for the client (event context safe).
func (s *cstream) finish(st *status.Status) {
	if s.st != nil {
		return
	}
	s.st = st
	for i, x := range s.cc.streams {
		if x == s {
			s.cc.streams = append(s.cc.streams[:i:i], s.cc.streams[i+1:]...)
			break
		}
	}
	s.q.WakeAll()
}

func (s *cstream) abort(st *status.Status) {
	if s.st != nil {
		return
	}
	s.finish(st)
	s.in = nil // a cancelled stream delivers nothing more
	c, ss := s.conn, s.ss
	if ss != nil && !c.Dead() {
		c.Send(c.C, func() { ss.rst() })
	}
}

func (cc *ClientConn) NewStream(ctx context.Context, desc *StreamDesc, method string, opts ...CallOption) (ClientStream, error) {
	return cc.newStream(ctx, method, opts)
}

func (cc *ClientConn) newStream(ctx context.Context, method string, opts []CallOption) (*cstream, error) {
	simrt.Yop()
	if simrt.Zombie() {
		return nil, status.Error(codes.Canceled, "killed")
	}
	var co callOpts
	for _, o := range cc.opts.call {
		o.apply(&co)
	}
	for _, o := range opts {
		o.apply(&co)
	}
	if co.maxRecv == 0 {
		co.maxRecv = maxMsg
	}
	for {
		c, err := cc.pick(ctx, co.waitReady)
		if err != nil {
			return nil, err
		}
		s := &cstream{cc: cc, conn: c, method: method, co: co}
		s.ctx = simrt.NewSimCtx(ctx)
		s.ss = &sstream{cs: s, conn: c, method: method, win: window}
		s.ctx.OnDone(func() { s.abort(ctxStatus(s.ctx)) })
		if s.ctx.Err() != nil {
			return nil, ctxStatus(s.ctx).Err()
		}
		cc.streams = append(cc.streams, s)
		var left time.Duration = -1
		if m, ok := s.ctx.MonoDeadline(); ok {
			left = m - simrt.Now()
		}
		ss := s.ss
		from := cc.p
		s.opened = true
		c.Send(c.C, func() {
			sc := serverConns[c]
			if sc == nil || sc.srv.stopped {
				c.Send(c.S, func() { s.finish(status.New(codes.Unavailable, "server stopped")) })
				return
			}
			ss.start(sc, left, from)
		})
		return s, nil
	}
}

func (s *cstream) Header() (metadata.MD, error) { return nil, nil }
func (s *cstream) Trailer() metadata.MD         { return nil }
func (s *cstream) Context() context.Context     { return s.ctx }

func (s *cstream) CloseSend() error {
	simrt.Yop()
	if simrt.Zombie() || s.closed || s.st != nil {
		return nil
	}
	s.closed = true
	ss := s.ss
	s.conn.Send(s.conn.C, func() { ss.eof = true; ss.q.WakeAll() })
	return nil
}

func (s *cstream) SendMsg(m interface{}) error {
	simrt.Yop()
	if simrt.Zombie() {
		return io.EOF
	}
	if s.st != nil {
		return io.EOF
	}
	b, err := encode(m)
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	ss := s.ss
	s.conn.Send(s.conn.C, func() { ss.in = append(ss.in, b); ss.q.WakeAll() })
	return nil
}

func (s *cstream) RecvMsg(m interface{}) error {
	simrt.Yop()
	if simrt.Zombie() {
		return io.EOF
	}
	for len(s.in) == 0 && s.st == nil {
		s.q.Wait("grpc recv")
		if simrt.Zombie() {
			return io.EOF
		}
	}
	if len(s.in) > 0 {
		b := s.in[0]
		s.in = s.in[1:]
		ss := s.ss
		n := len(b) + 5
		if !s.conn.Dead() {
			s.conn.Send(s.conn.C, func() { ss.win += n; ss.q.WakeAll() })
		}
		if len(b) > s.co.maxRecv {
			st := status.Newf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(b), s.co.maxRecv)
			s.abort(st)
			return st.Err()
		}
		return decode(b, m)
	}
	if s.st.Code() == codes.OK {
		return io.EOF
	}
	return s.st.Err()
}

func (cc *ClientConn) Invoke(ctx context.Context, method string, args, reply interface{}, opts ...CallOption) error {
	s, err := cc.newStream(ctx, method, opts)
	if err != nil {
		return err
	}
	if err := s.SendMsg(args); err != nil {
		if err != io.EOF {
			s.abort(status.New(codes.Canceled, "send"))
			return err
		}
	} else {
		s.CloseSend()
	}
	err = s.RecvMsg(reply)
	if err == nil {
		// wait for the trailers
		for s.st == nil {
			s.q.Wait("grpc trailers")
			if simrt.Zombie() {
				return errors.New("killed")
			}
		}
		if s.st.Code() != codes.OK {
			return s.st.Err()
		}
		return nil
	}
	if err == io.EOF {
		return status.Error(codes.Internal, "cardinality violation")
	}
	return err
}

// ---- server ------------------------------------------------------------------------------

type ServerOption interface{}

func MaxRecvMsgSize(n int) ServerOption                        { return nil }
func MaxSendMsgSize(n int) ServerOption                        { return nil }
func MaxConcurrentStreams(n uint32) ServerOption               { return nil }
func KeepaliveParams(interface{}) ServerOption                 { return nil }
func KeepaliveEnforcementPolicy(interface{}) ServerOption      { return nil }
func Creds(interface{}) ServerOption                           { return nil }
func UnaryInterceptor(i UnaryServerInterceptor) ServerOption   { return i }
func StreamInterceptor(i StreamServerInterceptor) ServerOption { return i }

type service struct {
	impl    interface{}
	methods map[string]*MethodDesc
	streams map[string]*StreamDesc
}

type Server struct {
	p       *simrt.Proc
	svcs    map[string]*service
	lis     []*simrt.NetListener
	conns   []*serverConn
	stopped bool
	q       simrt.WaitQ
	active  int
	ui      UnaryServerInterceptor
	si      StreamServerInterceptor
}

var serverConns = map[*simrt.NetConn]*serverConn{}

// Reset forgets state of finished runs.
func Reset() { serverConns = map[*simrt.NetConn]*serverConn{} }

type serverConn struct {
	srv     *Server
	c       *simrt.NetConn
	hello   func()
	up      bool
	streams []*sstream
}

func NewServer(opts ...ServerOption) *Server {
	s := &Server{p: simrt.CurProc(), svcs: map[string]*service{}}
	for _, o := range opts {
		switch x := o.(type) {
		case UnaryServerInterceptor:
			s.ui = x
		case StreamServerInterceptor:
			s.si = x
		}
	}
	return s
}

func (s *Server) RegisterService(d *ServiceDesc, impl interface{}) {
	v := &service{impl: impl, methods: map[string]*MethodDesc{}, streams: map[string]*StreamDesc{}}
	for i := range d.Methods {
		v.methods[d.Methods[i].MethodName] = &d.Methods[i]
	}
	for i := range d.Streams {
		v.streams[d.Streams[i].StreamName] = &d.Streams[i]
	}
	s.svcs[d.ServiceName] = v
}

func (s *Server) Serve(l net.Listener) error {
	simrt.Yop()
	if simrt.Zombie() {
		return errors.New("killed")
	}
	nl, ok := l.(*simrt.NetListener)
	if !ok {
		return errors.New("not a simulated listener")
	}
	s.p = nl.Proc
	s.lis = append(s.lis, nl)
	nl.Accept_ = func(c *simrt.NetConn) {
		sc := &serverConn{srv: s, c: c}
		s.conns = append(s.conns, sc)
		serverConns[c] = sc
		c.S.OnReset = func(err error) { sc.down() }
	}
	nl.WaitClosed()
	if simrt.Zombie() || s.stopped {
		return nil
	}
	return errors.New("use of closed network connection")
}

// greet: the server side of the handshake runs in the server process, so a
// paused or stalled server does not complete it.
func (sc *serverConn) greet() {
	simrt.GoProc(sc.srv.p, "handshake", func() {
		sc.up = true
		sc.c.Send(sc.c.S, func() {
			if sc.hello != nil {
				sc.hello()
			}
		})
	})
}

func (sc *serverConn) down() {
	delete(serverConns, sc.c)
	for i, x := range sc.srv.conns {
		if x == sc {
			sc.srv.conns = append(sc.srv.conns[:i:i], sc.srv.conns[i+1:]...)
			break
		}
	}
	for _, ss := range append([]*sstream(nil), sc.streams...) {
		ss.rst()
	}
}

func (s *Server) Stop() {
	simrt.Yop()
	if simrt.Zombie() {
		return
	}
	s.stopped = true
	for _, l := range s.lis {
		l.Close()
	}
	for _, sc := range append([]*serverConn(nil), s.conns...) {
		sc.c.CloseBy(sc.c.S)
		sc.down()
	}
}

func (s *Server) GracefulStop() {
	simrt.Yop()
	if simrt.Zombie() {
		return
	}
	for _, l := range s.lis {
		l.Close()
	}
	s.stopped = true
	for s.active > 0 {
		s.q.Wait("graceful stop")
		if simrt.Zombie() {
			return
		}
	}
	s.Stop()
}

type sstream struct {
	cs     *cstream
	conn   *simrt.NetConn
	sc     *serverConn
	ctx    *simrt.SimCtx
	method string
	in     [][]byte
	eof    bool
	q      simrt.WaitQ
	win    int
	done   bool
	reset  bool
	early  bool
}

func (ss *sstream) rst() {
	ss.reset = true
	if ss.ctx != nil {
		ss.ctx.Cancel(context.Canceled, nil)
	}
	ss.q.WakeAll()
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func split(m string) (string, string) {
	for i := len(m) - 1; i > 0; i-- {
		if m[i] == '/' {
			return m[1:i], m[i+1:]
		}
	}
	return "", m
}

// start runs the handler in the server process.
func (ss *sstream) start(sc *serverConn, left time.Duration, from *simrt.Proc) {
	srv := sc.srv
	ss.sc = sc
	sc.streams = append(sc.streams, ss)
	srv.active++
	t := simrt.GoProc(srv.p, ss.method, func() {
		base := peer.NewContext(context.Background(), &peer.Peer{Addr: simAddr(ss.conn.Laddr)})
		ss.ctx = simrt.NewSimCtx(base)
		if left >= 0 {
			ss.ctx.SetTimeout(left)
		}
		ss.ctx.OnDone(func() { ss.q.WakeAll() })
		if ss.reset {
			ss.ctx.Cancel(context.Canceled, nil)
		}
		err := ss.dispatch(srv, from)
		simrt.Yop()
		if simrt.Zombie() {
			return
		}
		ss.done = true
		ss.q.WakeAll()
		st := toStatus(err)
		cs := ss.cs
		if !ss.reset {
			ss.conn.Send(ss.conn.S, func() { cs.finish(st) })
		}
		ss.ctx.Cancel(context.Canceled, nil)
		for i, x := range sc.streams {
			if x == ss {
				sc.streams = append(sc.streams[:i:i], sc.streams[i+1:]...)
				break
			}
		}
		srv.active--
		srv.q.WakeAll()
	})
	_ = t
}

func toStatus(err error) *status.Status {
	if err == nil {
		return status.New(codes.OK, "")
	}
	if st, ok := status.FromError(err); ok {
		return st
	}
	if err == context.DeadlineExceeded || err == context.Canceled {
		return status.FromContextError(err)
	}
	return status.New(codes.Unknown, err.Error())
}

func (ss *sstream) dispatch(srv *Server, from *simrt.Proc) error {
	svcName, name := split(ss.method)
	svc := srv.svcs[svcName]
	if svc == nil {
		return status.Errorf(codes.Unimplemented, "unknown service %v", svcName)
	}
	observe := func(req interface{}) {
		simrt.Count("rpc_" + name)
		simrt.W.MixStr(name)
		if f := simrt.W.Net.OnMessage; f != nil {
			f(&simrt.RPCRec{At: simrt.Now(), From: from, To: srv.p, Method: name, Req: req})
		}
	}
	if m := svc.methods[name]; m != nil {
		b, err := ss.next()
		if err != nil {
			return err
		}
		dec := func(v interface{}) error {
			if len(b) > maxMsg {
				return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(b), maxMsg)
			}
			if err := decode(b, v); err != nil {
				return status.Errorf(codes.Internal, "grpc: error unmarshalling request: %v", err)
			}
			observe(v)
			return nil
		}
		reply, err := m.Handler(svc.impl, ss.ctx, dec, srv.ui)
		simrt.Yop()
		if simrt.Zombie() {
			return nil
		}
		if err != nil {
			return err
		}
		if isNilMsg(reply) {
			return status.Error(codes.Internal, "grpc: error while marshaling: proto: Marshal called with nil")
		}
		return ss.SendMsg(reply)
	}
	if d := svc.streams[name]; d != nil {
		ss.early = true
		w := &watched{ss, observe}
		if srv.si != nil {
			return srv.si(svc.impl, w, &StreamServerInfo{FullMethod: ss.method, IsClientStream: d.ClientStreams, IsServerStream: d.ServerStreams}, d.Handler)
		}
		return d.Handler(svc.impl, w)
	}
	return status.Errorf(codes.Unimplemented, "unknown method %v", name)
}

type watched struct {
	*sstream
	observe func(interface{})
}

func (w *watched) RecvMsg(m interface{}) error {
	err := w.sstream.RecvMsg(m)
	if err == nil {
		w.observe(m)
	}
	return err
}

func (ss *sstream) next() ([]byte, error) {
	for len(ss.in) == 0 && !ss.eof && ss.ctx.Err() == nil {
		ss.q.Wait("grpc server recv")
		if simrt.Zombie() {
			return nil, io.EOF
		}
	}
	if len(ss.in) > 0 {
		b := ss.in[0]
		ss.in = ss.in[1:]
		return b, nil
	}
	if ss.ctx.Err() != nil {
		return nil, ctxStatus(ss.ctx).Err()
	}
	return nil, io.EOF
}

func (ss *sstream) SetHeader(metadata.MD) error  { return nil }
func (ss *sstream) SendHeader(metadata.MD) error { return nil }
func (ss *sstream) SetTrailer(metadata.MD)       {}
func (ss *sstream) Context() context.Context     { return ss.ctx }

func (ss *sstream) RecvMsg(m interface{}) error {
	simrt.Yop()
	b, err := ss.next()
	if err != nil {
		return err
	}
	if len(b) > maxMsg {
		return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(b), maxMsg)
	}
	return decode(b, m)
}

func (ss *sstream) SendMsg(m interface{}) error {
	simrt.Yop()
	if simrt.Zombie() {
		return io.EOF
	}
	if isNilMsg(m) {
		return status.Error(codes.Internal, "grpc: error while marshaling: proto: Marshal called with nil")
	}
	b, err := encode(m)
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	simrt.Yop()
	if simrt.Zombie() {
		return io.EOF
	}
	for ss.win <= 0 && !ss.done && ss.ctx.Err() == nil {
		ss.q.Wait("grpc send window")
		if simrt.Zombie() {
			return io.EOF
		}
	}
	if ss.done {
		return status.Error(codes.Internal, "transport: the stream is done")
	}
	if ss.ctx.Err() != nil {
		return ctxStatus(ss.ctx).Err()
	}
	ss.win -= len(b) + 5
	cs := ss.cs
	ss.conn.Send(ss.conn.S, func() {
		if cs.st == nil {
			cs.in = append(cs.in, b)
			cs.q.WakeAll()
		}
	})
	return nil
}

package simrt

import (
	"context"
	crand "crypto/rand"
	"fmt"
	"io"
	"log"
	"math"
	"math/big"
	"os"
	"runtime"

	"github.com/google/uuid"
)

var _ = crand.Reader

// ---- randomness ----------------------------------------------------------------------------

func rapp() *RNG {
	if W == nil {
		return NewRNG(1)
	}
	return W.RApp
}

func RandInt() int             { return int(rapp().Uint64() >> 1) }
func RandIntn(n int) int       { return rapp().Intn(checkN(n)) }
func RandInt31() int32         { return int32(rapp().Uint64() >> 33) }
func RandInt31n(n int32) int32 { return int32(rapp().Intn(checkN(int(n)))) }
func RandInt63() int64         { return int64(rapp().Uint64() >> 1) }
func RandInt63n(n int64) int64 { return rapp().Int63n(int64(checkN(int(n)))) }
func RandUint32() uint32       { return uint32(rapp().Uint64()) }
func RandUint64() uint64       { return rapp().Uint64() }
func RandFloat32() float32     { return float32(rapp().Uint64()>>40) / (1 << 24) }
func RandFloat64() float64     { return rapp().Float64() }
func RandSeed(int64)           {}
func RandNormFloat64() float64 {
	u, v := rapp().Float64()+1e-12, rapp().Float64()
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v)
}
func RandExpFloat64() float64 { return -math.Log(rapp().Float64() + 1e-300) }
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) { shuffle(rapp(), n, swap) }
func RandRead(b []byte) (int, error)         { return CRandRead(b) }
func checkN(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return n
}
func RandV2Int() int                        { return RandInt() }
func RandV2IntN(n int) int                  { return RandIntn(n) }
func RandV2Int64N(n int64) int64            { return RandInt63n(n) }
func RandV2Float64() float64                { return RandFloat64() }
func RandV2Float32() float32                { return RandFloat32() }
func RandV2Uint64() uint64                  { return RandUint64() }
func RandV2Perm(n int) []int                { return RandPerm(n) }
func RandV2Shuffle(n int, s func(i, j int)) { RandShuffle(n, s) }

type simReader struct{}

func (simReader) Read(b []byte) (int, error) {
	r := rapp()
	for i := range b {
		b[i] = byte(r.Uint64() >> 17)
	}
	return len(b), nil
}

var CRandReader io.Reader = simReader{}

func CRandRead(b []byte) (int, error) { return simReader{}.Read(b) }
func CRandInt(_ io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Mod(new(big.Int).SetUint64(rapp().Uint64()), max), nil
}

func init() { uuid.SetRand(simReader{}) }

// ---- logging, printing ------------------------------------------------------------------------

func logf(f string, a ...interface{}) {
	if W != nil && W.Trace && cur != nil && !cur.killed {
		W.Tracef("log: "+f, a...)
	}
}
func LogPrintf(f string, a ...interface{}) { logf(f, a...) }
func LogPrintln(a ...interface{})          { logf("%s", lazy{a}) }
func LogPrint(a ...interface{})            { logf("%s", lazy{a}) }

type lazy struct{ a []interface{} }

func (l lazy) String() string { return fmt.Sprint(l.a...) }

func LogFatal(a ...interface{})            { logf("fatal %s", lazy{a}); OSExit(1) }
func LogFatalf(f string, a ...interface{}) { logf(f, a...); OSExit(1) }
func LogFatalln(a ...interface{})          { logf("fatal %s", lazy{a}); OSExit(1) }
func LogPanic(a ...interface{})            { panic(fmt.Sprint(a...)) }
func LogPanicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
func LogPanicln(a ...interface{})          { panic(fmt.Sprintln(a...)) }
func LogSetFlags(int)                      {}
func LogSetOutput(io.Writer)               {}
func LogSetPrefix(string)                  {}

func FmtPrint(a ...interface{}) (int, error)            { return 0, nil }
func FmtPrintf(f string, a ...interface{}) (int, error) { return 0, nil }
func FmtPrintln(a ...interface{}) (int, error)          { return 0, nil }

func init() { log.SetOutput(io.Discard) }

type sinkT struct{}

func (sinkT) Write(b []byte) (int, error)       { return len(b), nil }
func (sinkT) WriteString(s string) (int, error) { return len(s), nil }
func (sinkT) Sync() error                       { return nil }
func (sinkT) Close() error                      { return nil }

var OSStdout = sinkT{}
var OSStderr = sinkT{}

// ---- runtime --------------------------------------------------------------------------------

func RtNumGoroutine() int {
	if cur == nil {
		return 1
	}
	return cur.proc.live
}
func RtGOMAXPROCS(n int) int             { return 8 }
func RtNumCPU() int                      { return 8 }
func RtGosched()                         { yop() }
func RtGC()                              {}
func RtSetFinalizer(a, b interface{})    {}
func RtKeepAlive(a interface{})          {}
func RtReadMemStats(m *runtime.MemStats) {}
func RtGoexit()                          { runtime.Goexit() }
func RtdFreeOSMemory()                   {}
func RtdSetGCPercent(int) int            { return 100 }

// ---- process exit, signals ---------------------------------------------------------------------

func OSExit(code int) {
	yop()
	if zombie() {
		return
	}
	W.exitProc(cur.proc, code)
	zombie()
}
func OSGetpid() int { return 1000 + CurProc().ID }
func OSHostname() (string, error) {
	if h := CurProc().Host; h != nil {
		return h.Name, nil
	}
	return "localhost", nil
}
func OSGetwd() (string, error) { return "/", nil }

type sigReg struct {
	ch   chan<- os.Signal
	sigs []os.Signal
}

func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	if zombie() {
		return
	}
	cur.proc.sigs = append(cur.proc.sigs, sigReg{c, sig})
}
func SignalStop(c chan<- os.Signal) {
	if zombie() {
		return
	}
	o := cur.proc.sigs[:0]
	for _, s := range cur.proc.sigs {
		if s.ch != c {
			o = append(o, s)
		}
	}
	cur.proc.sigs = o
}
func SignalIgnore(sig ...os.Signal) {}
func SignalReset(sig ...os.Signal)  {}
func SignalNotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := ContextWithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sig...)
	Go(curSite(), func() { Recv(ch); cancel() })
	return ctx, cancel
}

// Signal delivers sig to p; without a handler the process dies.
func (p *Proc) Signal(sig os.Signal) {
	if p.Dead {
		return
	}
	W.Tracef("SIGNAL %s %v", p.Name, sig)
	W.Counters["signal"]++
	handled := false
	for _, r := range p.sigs {
		for _, s := range r.sigs {
			if s == sig {
				handled = true
				c := stateS(r.ch)
				if !c.closed {
					c.trySend(sig)
				}
				break
			}
		}
	}
	if !handled {
		W.exitProc(p, 143)
	}
}

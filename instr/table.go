package main

// Seams. For a standard package, sel maps an exported name to the name in
// package simrt that replaces it; keep lists names left alone; def says what
// happens to any other name: "keep", "warn" (keep, with a message) or "die".
type seam struct {
	sel  map[string]string
	keep map[string]bool
	def  string
}

func set(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

func pre(prefix string, names ...string) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		m[n] = prefix + n
	}
	return m
}

var seams = map[string]seam{
	"sync": {sel: pre("", "Mutex", "RWMutex", "WaitGroup", "Once", "Pool", "Map", "Cond", "NewCond", "OnceFunc", "OnceValue", "OnceValues"), keep: set("Locker"), def: "warn"},
	"sync/atomic": {sel: pre("Atomic", "AddInt32", "AddInt64", "AddUint32", "AddUint64", "LoadInt32", "LoadInt64", "LoadUint32", "LoadUint64", "LoadPointer",
		"StoreInt32", "StoreInt64", "StoreUint32", "StoreUint64", "StorePointer", "SwapInt32", "SwapInt64", "SwapUint32", "SwapUint64",
		"CompareAndSwapInt32", "CompareAndSwapInt64", "CompareAndSwapUint32", "CompareAndSwapUint64", "CompareAndSwapPointer",
		"AddUintptr", "LoadUintptr", "StoreUintptr", "SwapUintptr", "CompareAndSwapUintptr", "SwapPointer",
		"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Value", "Pointer"), def: "warn"},
	"time": {sel: pre("Time", "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "Timer", "Ticker"), def: "keep"},
	"context": {sel: pre("Context", "Background", "TODO", "WithCancel", "WithTimeout", "WithDeadline", "WithCancelCause", "WithTimeoutCause", "WithDeadlineCause", "AfterFunc", "WithoutCancel", "Cause"),
		keep: set("Context", "CancelFunc", "CancelCauseFunc", "WithValue", "Canceled", "DeadlineExceeded"), def: "warn"},
	"os": {sel: pre("OS", "OpenFile", "Open", "Create", "MkdirAll", "Mkdir", "RemoveAll", "Remove", "Rename", "Exit", "ReadFile", "WriteFile", "Stat", "Lstat",
		"TempDir", "MkdirTemp", "CreateTemp", "ReadDir", "File", "Truncate", "Getpid", "Hostname", "Chmod", "Stdout", "Stderr", "Link", "Getwd", "Chtimes", "Chown", "Lchown", "Symlink"),
		keep: set("ModePerm", "ModeDir", "FileMode", "FileInfo", "ErrNotExist", "ErrExist", "ErrInvalid", "ErrPermission", "ErrClosed", "IsNotExist", "IsExist", "IsPermission", "PathError", "LinkError", "SyscallError", "Signal", "Interrupt", "Kill",
			"Getenv", "LookupEnv", "Args", "DirEntry", "PathSeparator", "O_RDONLY", "O_WRONLY", "O_RDWR", "O_APPEND", "O_CREATE", "O_EXCL", "O_SYNC", "O_TRUNC", "ErrDeadlineExceeded", "IsTimeout"), def: "warn"},
	"path/filepath": {sel: pre("FP", "Walk", "WalkDir", "Glob", "Abs", "EvalSymlinks"), def: "keep"},
	"io/ioutil":     {sel: pre("IU", "ReadFile", "WriteFile", "TempFile", "TempDir", "ReadDir"), keep: set("ReadAll", "Discard", "NopCloser"), def: "warn"},
	"math/rand": {sel: pre("Rand", "Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float32", "Float64", "Perm", "Shuffle", "NormFloat64", "ExpFloat64", "Seed", "Read"),
		def: "keep"},
	"crypto/rand": {sel: pre("CRand", "Read", "Reader", "Int"), def: "warn"},
	"log": {sel: pre("Log", "Print", "Printf", "Println", "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln", "SetFlags", "SetOutput", "SetPrefix"),
		keep: set("LstdFlags", "Lshortfile", "Llongfile", "Ldate", "Ltime", "Lmicroseconds", "LUTC", "Logger", "New", "Default"), def: "warn"},
	"fmt": {sel: pre("Fmt", "Print", "Printf", "Println"), def: "keep"},
	"runtime": {sel: pre("Rt", "NumGoroutine", "GOMAXPROCS", "Gosched", "GC", "SetFinalizer", "NumCPU", "Goexit", "KeepAlive", "ReadMemStats"),
		keep: set("MemStats", "GOOS", "GOARCH", "Caller", "Callers", "CallersFrames", "Stack", "FuncForPC", "Error", "Version", "NumCgoCall"), def: "warn"},
	"runtime/debug": {sel: pre("Rtd", "FreeOSMemory", "SetGCPercent"), keep: set("Stack", "PrintStack", "ReadBuildInfo"), def: "warn"},
	"net": {sel: pre("Net", "Listen"),
		keep: set("ParseIP", "IP", "Addr", "Listener", "SplitHostPort", "JoinHostPort", "IPNet", "ParseCIDR", "Error", "OpError", "TCPAddr", "IPv4", "ErrClosed", "ResolveTCPAddr", "IPAddr"), def: "warn"},
	"net/http":     {sel: pre("HTTP", "ListenAndServe", "Server", "Get", "Post", "DefaultClient", "Client"), def: "keep"},
	"os/signal":    {sel: pre("Signal", "Notify", "Stop", "NotifyContext", "Ignore", "Reset"), def: "warn"},
	"os/exec":      {def: "die"},
	"syscall":      {keep: set("SIGTERM", "SIGINT", "SIGHUP", "SIGQUIT", "SIGKILL", "SIGUSR1", "SIGUSR2", "ENOSPC", "EIO", "Signal", "Errno", "ENOENT", "EEXIST"), def: "warn"},
	"math/rand/v2": {sel: pre("RandV2", "Int", "IntN", "Float64", "Float32", "Shuffle", "Uint64", "Perm", "Int64N"), def: "warn"},
	"maps":         {keep: set("Copy", "Clone", "Equal", "DeleteFunc"), def: "warn"},
}

// whole package substitutions
var pkgSubst = map[string]string{
	"google.golang.org/grpc":            "verisim/sgrpc",
	"google.golang.org/grpc/reflection": "verisim/sgrpc/reflection",
}

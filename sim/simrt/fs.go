package simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Host is a simulated machine: an address, a disk, processes.
type Host struct {
	Name  string
	IP    string
	FS    *FS
	Down  bool
	procs []*Proc
	ports map[string]*NetListener
	// links this host cannot reach (directional)
	blocked map[string]bool
	extra   time.Duration // added latency of this host's links
}

func (w *World) NewHost(name, ip string) *Host {
	h := &Host{Name: name, IP: ip, ports: map[string]*NetListener{}, blocked: map[string]bool{}}
	h.FS = &FS{h: h, live: map[string]*node{}, dur: map[string]*node{}}
	for _, d := range []string{"/", "/tmp", "/data", "/etc", "/home"} {
		n := &node{dir: true}
		h.FS.live[d] = n
		h.FS.dur[d] = n
	}
	w.hosts[ip] = h
	w.hostList = append(w.hostList, h)
	return h
}

func (w *World) HostByIP(ip string) *Host { return w.hosts[ip] }

type node struct {
	dir  bool
	data []byte
	dur  []byte
	pend []pendOp
	mt   time.Duration
}

type pendOp struct {
	at    time.Duration
	trunc bool
	off   int
	b     []byte
	n     int
}

func (p *pendOp) apply(d []byte, limit int) []byte {
	if p.trunc {
		if p.n <= len(d) {
			return append([]byte(nil), d[:p.n]...)
		}
		return append(append([]byte(nil), d...), make([]byte, p.n-len(d))...)
	}
	b := p.b
	if limit >= 0 && limit < len(b) {
		b = b[:limit]
	}
	end := p.off + len(b)
	o := append([]byte(nil), d...)
	if end > len(o) {
		o = append(o, make([]byte, end-len(o))...)
	}
	copy(o[p.off:], b)
	return o
}

type metaOp struct {
	at time.Duration
	fn func(m map[string]*node)
}

// FSEvent records a mutation for containment checks.
type FSEvent struct {
	At   time.Duration
	Op   string
	Path string
	To   string
}

// FS is a simulated disk. The live view is what processes see (page cache);
// the durable view is what survives a power failure: metadata operations in
// order (journal, committed by fsync or after 5 s), data written back by fsync
// or after 30 s, otherwise any prefix, possibly torn.
type FS struct {
	h       *Host
	live    map[string]*node
	dur     map[string]*node
	journal []metaOp
	Log     []FSEvent
	tmpSeq  int
	// fault injection
	FailP    int // per-mille of mutating ops failing
	FailErr  error
	Full     bool
	SlowMax  time.Duration
	Ops      int
	LivePeak int
}

func perr(op, p string, err error) error { return &os.PathError{Op: op, Path: p, Err: err} }

func clean(p string) string {
	if p == "" {
		return p
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return path.Clean(p)
}

func curFS() *FS {
	p := CurProc()
	if p.Host == nil {
		return nil
	}
	return p.Host.FS
}

// enter is the scheduling, latency, crash and fault point of every operation.
func (f *FS) enter(op, p string, mutating bool) error {
	yop()
	if zombie() {
		return errors.New("killed")
	}
	f.Ops++
	pr := cur.proc
	pr.FSOps++
	if f.SlowMax > 0 {
		Sleep(time.Duration(W.RFS.Int63n(int64(f.SlowMax))) + time.Microsecond)
	} else {
		Sleep(time.Duration(20+W.RFS.Intn(80)) * time.Microsecond)
	}
	if zombie() {
		return errors.New("killed")
	}
	if pr.CrashAtFSOp != 0 && pr.FSOps >= pr.CrashAtFSOp {
		W.Counters["crash_at_fs_op"]++
		W.CrashProc(pr, pr.CrashPower)
		zombie()
	}
	if mutating {
		if f.Full && (op == "write" || op == "open" || op == "mkdir" || op == "sync") && W.RFS.Intn(4) != 0 {
			W.Counters["disk_full"]++
			W.Tracef("fs %s %s: injected ENOSPC", op, p)
			return perr(op, p, syscall.ENOSPC)
		}
		if f.FailP > 0 && W.RFS.Intn(1000) < f.FailP {
			W.Counters["disk_error"]++
			e := f.FailErr
			if e == nil {
				e = syscall.EIO
			}
			W.Tracef("fs %s %s: injected %v", op, p, e)
			return perr(op, p, e)
		}
	}
	return nil
}

func (f *FS) meta(fn func(m map[string]*node)) {
	fn(f.live)
	f.journal = append(f.journal, metaOp{W.now, fn})
	if len(f.journal) > 256 {
		f.commitOld()
	}
}

func (f *FS) commitOld() {
	i := 0
	for i < len(f.journal) && W.now-f.journal[i].at > 5*time.Second {
		f.journal[i].fn(f.dur)
		i++
	}
	f.journal = append([]metaOp(nil), f.journal[i:]...)
}

func (f *FS) commitAll() {
	for _, m := range f.journal {
		m.fn(f.dur)
	}
	f.journal = nil
}

func (f *FS) log(op, p, to string) {
	f.Log = append(f.Log, FSEvent{W.now, op, p, to})
	W.Tracef("fs %s %s %s", op, p, to)
}

func (f *FS) powerFail() {
	r := W.RFS
	f.commitOld()
	k := r.Intn(len(f.journal) + 1)
	lost := len(f.journal) - k
	for i := 0; i < k; i++ {
		f.journal[i].fn(f.dur)
	}
	f.journal = nil
	seen := map[*node]bool{}
	var paths []string
	for p := range f.dur {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		n := f.dur[p]
		if n.dir || seen[n] {
			continue
		}
		seen[n] = true
		d := n.dur
		min := 0
		for min < len(n.pend) && W.now-n.pend[min].at > 30*time.Second {
			min++
		}
		j := min + r.Intn(len(n.pend)-min+1)
		for i := 0; i < j; i++ {
			d = n.pend[i].apply(d, -1)
		}
		if j < len(n.pend) && !n.pend[j].trunc && r.Intn(2) == 0 {
			W.Counters["torn_write"]++
			d = n.pend[j].apply(d, r.Intn(len(n.pend[j].b)+1))
		}
		if j < len(n.pend) {
			W.Counters["lost_write"] += len(n.pend) - j
		}
		n.data = d
		n.dur = d
		n.pend = nil
	}
	if lost > 0 {
		W.Counters["lost_metadata"] += lost
	}
	f.live = map[string]*node{}
	for p, n := range f.dur {
		f.live[p] = n
	}
	W.Tracef("power failure: %d metadata ops lost", lost)
}

func (n *node) write(off int, b []byte) {
	op := pendOp{at: W.now, off: off, b: append([]byte(nil), b...)}
	n.data = op.apply(n.data, -1)
	n.pend = append(n.pend, op)
	n.mt = W.now
	if len(n.pend) > 64 {
		n.writeback()
	}
}

func (n *node) writeback() {
	i := 0
	for i < len(n.pend) && W.now-n.pend[i].at > 30*time.Second {
		n.dur = n.pend[i].apply(n.dur, -1)
		i++
	}
	n.pend = append([]pendOp(nil), n.pend[i:]...)
}

func (n *node) truncate(sz int) {
	op := pendOp{at: W.now, trunc: true, n: sz}
	n.data = op.apply(n.data, -1)
	n.pend = append(n.pend, op)
	n.mt = W.now
}

// ---- files ---------------------------------------------------------------------------------

type OSFile struct {
	f      *FS
	n      *node
	name   string
	off    int
	flag   int
	closed bool
}

func (f *FS) parentOK(p string) bool {
	d := f.live[path.Dir(p)]
	return d != nil && d.dir
}

func OSOpenFile(name string, flag int, perm os.FileMode) (*OSFile, error) {
	f := curFS()
	p := clean(name)
	mut := flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0
	if err := f.enter("open", name, mut && flag&os.O_CREATE != 0 && f.live[p] == nil); err != nil {
		return nil, err
	}
	n := f.live[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !f.parentOK(p) {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &node{mt: W.now}
		f.log("create", p, "")
		f.meta(func(m map[string]*node) { m[p] = n })
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !n.dir {
			f.log("truncate", p, "")
			n.truncate(0)
		} else if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			f.log("openw", p, "")
		}
	}
	return &OSFile{f: f, n: n, name: name, flag: flag}, nil
}

func OSOpen(name string) (*OSFile, error) { return OSOpenFile(name, os.O_RDONLY, 0) }
func OSCreate(name string) (*OSFile, error) {
	return OSOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (o *OSFile) Name() string { return o.name }
func (o *OSFile) Fd() uintptr  { return 3 }
func (o *OSFile) bad(op string) error {
	if o == nil {
		return os.ErrInvalid
	}
	if o.closed {
		return perr(op, o.name, os.ErrClosed)
	}
	return nil
}

func (o *OSFile) Read(b []byte) (int, error) {
	if err := o.bad("read"); err != nil {
		return 0, err
	}
	if o.flag&os.O_WRONLY != 0 {
		return 0, perr("read", o.name, syscall.EBADF)
	}
	if err := o.f.enter("read", o.name, false); err != nil {
		return 0, err
	}
	if o.off >= len(o.n.data) {
		return 0, io.EOF
	}
	n := copy(b, o.n.data[o.off:])
	o.off += n
	return n, nil
}

func (o *OSFile) ReadAt(b []byte, off int64) (int, error) {
	if err := o.bad("read"); err != nil {
		return 0, err
	}
	if int(off) >= len(o.n.data) {
		return 0, io.EOF
	}
	n := copy(b, o.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (o *OSFile) Write(b []byte) (int, error) {
	if err := o.bad("write"); err != nil {
		return 0, err
	}
	if o.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", o.name, syscall.EBADF)
	}
	short := -1
	if err := o.f.enter("write", o.name, true); err != nil {
		if zombie() {
			return 0, err
		}
		if len(b) > 1 && W.RFS.Intn(2) == 0 {
			short = W.RFS.Intn(len(b))
			W.Counters["short_write"]++
		} else {
			return 0, err
		}
	}
	off := o.off
	if o.flag&os.O_APPEND != 0 {
		off = len(o.n.data)
	}
	if short >= 0 {
		o.n.write(off, b[:short])
		o.off = off + short
		return short, perr("write", o.name, syscall.ENOSPC)
	}
	o.n.write(off, b)
	o.off = off + len(b)
	W.Tracef("fs write %s %d bytes", o.name, len(b))
	return len(b), nil
}

func (o *OSFile) WriteAt(b []byte, off int64) (int, error) {
	if err := o.bad("write"); err != nil {
		return 0, err
	}
	if err := o.f.enter("write", o.name, true); err != nil {
		return 0, err
	}
	o.n.write(int(off), b)
	return len(b), nil
}

func (o *OSFile) WriteString(s string) (int, error) { return o.Write([]byte(s)) }

func (o *OSFile) Sync() error {
	if err := o.bad("sync"); err != nil {
		return err
	}
	if err := o.f.enter("sync", o.name, true); err != nil {
		return err
	}
	W.Tracef("fs fsync %s", o.name)
	if !o.n.dir {
		o.n.dur = o.n.data
		o.n.pend = nil
	}
	o.f.commitAll()
	return nil
}

func (o *OSFile) Close() error {
	if err := o.bad("close"); err != nil {
		return err
	}
	if zombie() {
		return nil
	}
	yop()
	o.closed = true
	return nil
}

func (o *OSFile) Seek(off int64, whence int) (int64, error) {
	if err := o.bad("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		o.off = int(off)
	case 1:
		o.off += int(off)
	case 2:
		o.off = len(o.n.data) + int(off)
	}
	return int64(o.off), nil
}

func (o *OSFile) Truncate(n int64) error {
	if err := o.bad("truncate"); err != nil {
		return err
	}
	if err := o.f.enter("truncate", o.name, true); err != nil {
		return err
	}
	o.f.log("truncate", clean(o.name), "")
	o.n.truncate(int(n))
	return nil
}

func (o *OSFile) Chmod(os.FileMode) error { return nil }
func (o *OSFile) Stat() (os.FileInfo, error) {
	if err := o.bad("stat"); err != nil {
		return nil, err
	}
	return finfo{path.Base(clean(o.name)), o.n}, nil
}
func (o *OSFile) ReadDir(n int) ([]os.DirEntry, error) { return OSReadDir(o.name) }
func (o *OSFile) Readdir(n int) ([]os.FileInfo, error) { return IUReadDir(o.name) }
func (o *OSFile) Readdirnames(n int) ([]string, error) {
	l, err := OSReadDir(o.name)
	var s []string
	for _, e := range l {
		s = append(s, e.Name())
	}
	return s, err
}

type finfo struct {
	name string
	n    *node
}

func (i finfo) Name() string { return i.name }
func (i finfo) Size() int64  { return int64(len(i.n.data)) }
func (i finfo) Mode() os.FileMode {
	if i.n.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i finfo) ModTime() time.Time { return time.Unix(0, int64(W.epoch+i.n.mt)) }
func (i finfo) IsDir() bool        { return i.n.dir }
func (i finfo) Sys() interface{}   { return nil }

// ---- path operations ------------------------------------------------------------------------

func OSMkdir(name string, perm os.FileMode) error {
	f := curFS()
	p := clean(name)
	if err := f.enter("mkdir", name, true); err != nil {
		return err
	}
	if f.live[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if !f.parentOK(p) {
		return perr("mkdir", name, syscall.ENOENT)
	}
	n := &node{dir: true, mt: W.now}
	f.log("mkdir", p, "")
	f.meta(func(m map[string]*node) { m[p] = n })
	return nil
}

func OSMkdirAll(name string, perm os.FileMode) error {
	f := curFS()
	p := clean(name)
	if err := f.enter("mkdir", name, f.live[p] == nil); err != nil {
		return err
	}
	if zombie() {
		return nil
	}
	var miss []string
	for d := p; f.live[d] == nil; d = path.Dir(d) {
		miss = append(miss, d)
		if d == "/" {
			break
		}
	}
	for i := len(miss) - 1; i >= 0; i-- {
		d := miss[i]
		n := &node{dir: true, mt: W.now}
		f.log("mkdir", d, "")
		f.meta(func(m map[string]*node) { m[d] = n })
	}
	if !f.live[p].dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	return nil
}

func (f *FS) children(p string) []string {
	pre := p
	if pre != "/" {
		pre += "/"
	}
	var o []string
	for q := range f.live {
		if q != p && strings.HasPrefix(q, pre) {
			o = append(o, q)
		}
	}
	sort.Strings(o)
	return o
}

func OSRemove(name string) error {
	f := curFS()
	p := clean(name)
	if err := f.enter("remove", name, true); err != nil {
		return err
	}
	if f.live[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if f.live[p].dir && len(f.children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.log("remove", p, "")
	f.meta(func(m map[string]*node) { delete(m, p) })
	return nil
}

func OSRemoveAll(name string) error {
	f := curFS()
	p := clean(name)
	if name == "" {
		return nil
	}
	if err := f.enter("removeall", name, true); err != nil {
		return err
	}
	f.log("removeall", p, "")
	if f.live[p] == nil {
		return nil
	}
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	f.meta(func(m map[string]*node) {
		for q := range m {
			if q == p || strings.HasPrefix(q, pre) {
				delete(m, q)
			}
		}
	})
	return nil
}

func OSRename(from, to string) error {
	f := curFS()
	a, b := clean(from), clean(to)
	if err := f.enter("rename", from, true); err != nil {
		return err
	}
	if f.live[a] == nil || !f.parentOK(b) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	f.log("rename", a, b)
	f.meta(func(m map[string]*node) {
		if m[a] == nil {
			return
		}
		var mv []string
		for q := range m {
			if q == a || strings.HasPrefix(q, a+"/") {
				mv = append(mv, q)
			}
		}
		for _, q := range mv {
			n := m[q]
			delete(m, q)
			m[b+strings.TrimPrefix(q, a)] = n
		}
	})
	return nil
}

func OSLink(from, to string) error {
	f := curFS()
	a, b := clean(from), clean(to)
	if err := f.enter("link", from, true); err != nil {
		return err
	}
	if f.live[a] == nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	n := f.live[a]
	f.log("link", a, b)
	f.meta(func(m map[string]*node) { m[b] = n })
	return nil
}

func OSStat(name string) (os.FileInfo, error) {
	f := curFS()
	p := clean(name)
	if err := f.enter("stat", name, false); err != nil {
		return nil, err
	}
	n := f.live[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return finfo{path.Base(p), n}, nil
}
func OSLstat(name string) (os.FileInfo, error)    { return OSStat(name) }
func OSChmod(string, os.FileMode) error           { return nil }
func OSChown(string, int, int) error              { return nil }
func OSLchown(string, int, int) error             { return nil }
func OSChtimes(name string, a, m time.Time) error { _, err := OSStat(name); return err }
func OSSymlink(from, to string) error             { return perr("symlink", to, syscall.EPERM) }
func OSTruncate(name string, n int64) error {
	o, err := OSOpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer o.Close()
	return o.Truncate(n)
}

func OSReadFile(name string) ([]byte, error) {
	o, err := OSOpen(name)
	if err != nil {
		return nil, err
	}
	defer o.Close()
	return io.ReadAll(o)
}

func OSWriteFile(name string, b []byte, perm os.FileMode) error {
	o, err := OSOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = o.Write(b)
	if e := o.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func OSTempDir() string { return "/tmp" }

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	f := curFS()
	f.tmpSeq++
	r := fmt.Sprintf("%06d", f.tmpSeq*7919%1000000)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return path.Join(dir, pattern[:i]+r+pattern[i+1:])
	}
	return path.Join(dir, pattern+r)
}

func OSCreateTemp(dir, pattern string) (*OSFile, error) {
	if zombie() {
		return nil, os.ErrInvalid
	}
	return OSOpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func OSMkdirTemp(dir, pattern string) (string, error) {
	if zombie() {
		return "", os.ErrInvalid
	}
	n := tempName(dir, pattern)
	return n, OSMkdir(n, 0700)
}

type dirent struct{ finfo }

func (d dirent) Type() fs.FileMode          { return d.Mode().Type() }
func (d dirent) Info() (fs.FileInfo, error) { return d.finfo, nil }

func OSReadDir(name string) ([]os.DirEntry, error) {
	l, err := IUReadDir(name)
	var o []os.DirEntry
	for _, i := range l {
		o = append(o, dirent{i.(finfo)})
	}
	return o, err
}

func IUReadDir(name string) ([]os.FileInfo, error) {
	f := curFS()
	p := clean(name)
	if err := f.enter("readdir", name, false); err != nil {
		return nil, err
	}
	n := f.live[p]
	if n == nil || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var o []os.FileInfo
	for _, q := range f.children(p) {
		if path.Dir(q) == p {
			o = append(o, finfo{path.Base(q), f.live[q]})
		}
	}
	return o, nil
}

func IUReadFile(name string) ([]byte, error)                    { return OSReadFile(name) }
func IUWriteFile(name string, b []byte, perm os.FileMode) error { return OSWriteFile(name, b, perm) }
func IUTempFile(dir, pattern string) (*OSFile, error)           { return OSCreateTemp(dir, pattern) }
func IUTempDir(dir, pattern string) (string, error)             { return OSMkdirTemp(dir, pattern) }

func FPAbs(p string) (string, error)          { return clean(p), nil }
func FPEvalSymlinks(p string) (string, error) { return clean(p), nil }
func FPGlob(pattern string) ([]string, error) {
	f := curFS()
	var o []string
	for q := range f.live {
		if ok, _ := path.Match(pattern, q); ok {
			o = append(o, q)
		}
	}
	sort.Strings(o)
	return o, nil
}
func FPWalk(root string, fn filepath.WalkFunc) error {
	f := curFS()
	p := clean(root)
	for _, q := range append([]string{p}, f.children(p)...) {
		n := f.live[q]
		if n == nil {
			continue
		}
		if err := fn(q, finfo{path.Base(q), n}, nil); err != nil && err != filepath.SkipDir {
			return err
		}
	}
	return nil
}
func FPWalkDir(root string, fn fs.WalkDirFunc) error {
	return FPWalk(root, func(p string, i os.FileInfo, err error) error { return fn(p, dirent{i.(finfo)}, err) })
}

// ---- harness access ---------------------------------------------------------------------------

func (f *FS) Peek(p string) ([]byte, bool) {
	n := f.live[clean(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

func (f *FS) Poke(p string, b []byte) {
	p = clean(p)
	n := &node{data: b, dur: b}
	for d := path.Dir(p); f.live[d] == nil; d = path.Dir(d) {
		dn := &node{dir: true}
		f.live[d], f.dur[d] = dn, dn
	}
	f.live[p], f.dur[p] = n, n
}

func (f *FS) Exists(p string) bool { return f.live[clean(p)] != nil }

func (f *FS) List(prefix string) []string {
	var o []string
	for q := range f.live {
		if strings.HasPrefix(q, prefix) {
			o = append(o, q)
		}
	}
	sort.Strings(o)
	return o
}

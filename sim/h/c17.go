package h

import (
	"fmt"
	"path"
	"strings"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

// C17: files outside the node's own directories are never touched, whatever the
// datasets are called. Every mutation the node asks the simulated disk for is
// judged; nothing real is at stake.

type contState struct {
	user map[string]string // files of others
	win  []contWin
}

type contWin struct {
	name     string
	from, to time.Duration
}

var contAtoms = []string{"..", "..", "..", ".", "/", "/", "/", "/", "a", "b", "data", "index.save", "etc", "passwd", "veri", "%2e", "%2F", "%", "\\", "~", "*", "\x00", " ", "...", "$HOME", "tmp", "data/veri", "ü", "\n"}

func contName(r *simrt.RNG) string {
	switch r.Intn(10) {
	case 0:
		return pickStr(r, "", ".", "..", "/", "../..", "../../..", "/etc", "../index.save", "../../../etc/passwd", "a/..", "a/../..", "./", "../", "//", "..%2f..", ".\x00.", strings.Repeat("x", 300), strings.Repeat("../", 12)+"etc")
	case 1:
		return pickStr(r, "a", "a/b", "a%2Fb", "a%252Fb", "a b", "a+b", "a%20b", "A")
	}
	s := ""
	for i := 0; i < r.Pick(1, 2, 3, 4, 6); i++ {
		s += contAtoms[r.Intn(len(contAtoms))]
	}
	return s
}

func genCont(r *simrt.RNG, p *Plan) {
	p.Nodes = r.Pick(1, 1, 1, 2, 3)
	p.Clients = 1 + r.Intn(2)
	p.Set("dim", 2)
	setDS(p, 0, 1000, 400, true, 0, false)
	p.Set("dir", int64(r.Pick(0, 0, 0, 1, 2, 3)))
	if p.Nodes == 1 && r.Bool(0.4) {
		// one name after the other, to see which folders belong to which
		p.Set("iso", 1)
		p.Clients = 1
		at := int64(0)
		for i := 0; i < r.Pick(2, 4, 8); i++ {
			op := Op{At: at, Kind: "name", S: contName(r), Val: i + 1, A: []int64{int64(r.Pick(0, 0, 3, 4))}}
			p.Ops = append(p.Ops, op)
			at += 200000
		}
		CalmSched(p, 20000)
		return
	}
	span := r.Range(20, 900) * 1000
	pool := []string{}
	for i := 0; i < r.Pick(2, 5, 12); i++ {
		pool = append(pool, contName(r))
	}
	for i := 0; i < r.Pick(4, 12, 30); i++ {
		op := Op{At: r.Range(0, span), C: r.Intn(p.Clients), N: r.Intn(p.Nodes), Kind: "name", S: pool[r.Intn(len(pool))], Val: i + 1, A: []int64{int64(r.Intn(8))}}
		p.Ops = append(p.Ops, op)
	}
	sortOps(p)
	if r.Bool(0.5) {
		kinds := []string{"kill", "power", "killfs", "term", "diskslow", "killstep"}
		if p.Get("dir") != 3 { // without a directory a node needs the disk to start
			kinds = append(kinds, "diskfail", "diskfull")
		}
		GenFaults(r, p, r.Pick(1, 2, 4), 0, span, kinds...)
	}
	if r.Bool(0.3) {
		p.Set("busy", 1)
	}
	if r.Bool(0.5) {
		p.Set("wait", int64(r.Pick(150, 900)))
	}
	p.Set("end", int64(r.Pick(0, 1, 1)))
}

func doCont(e *Env, c *Client, op *Op) {
	st := e.X.(*contState)
	n := e.node(op.N)
	cl := pb.NewVeriServiceClient(c.conn(n))
	name := op.S
	t0 := simrt.Now()
	d := mk(0, op.Val, 1, 2)
	switch op.A[0] {
	case 0:
		c.Create(n, &pb.DataConfig{Name: name, Version: uint64(op.Val), NoTarget: true}, Sec(10))
	case 1:
		c.Insert(n, name, d, &pb.InsertConfig{TTL: uint64(1 + op.Val%40), Count: 1}, Sec(10))
	case 2:
		c.Insert(n, name, d, &pb.InsertConfig{}, Sec(10))
	case 3:
		c.Info(n, name, Sec(10))
	case 4:
		c.Stream(n, name, Sec(10), 0, 0)
	case 5:
		c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{d}, Config: &pb.SearchConfig{DataName: name, Limit: 5, Timeout: 1000}}, Sec(10))
	case 6, 7: // gossip of a peer
		if n.Proc == nil {
			break
		}
		ctx, cancel := c.ctx(Sec(10))
		p := &pb.Peer{AddressList: []string{"10.99.0.9:10000"}, Timestamp: uint64(n.Proc.Wall().Unix()), DataList: []*pb.DataConfig{{Name: name, Version: uint64(op.Val), Retention: uint64(op.Val % 3)}}}
		if op.A[0] == 6 {
			cl.AddPeer(ctx, &pb.AddPeerRequest{Peer: p})
		} else {
			cl.Join(ctx, &pb.JoinRequest{Peer: p})
		}
		cancel()
	}
	if e.K("iso") == 1 {
		simrt.Sleep(Sec(185)) // an empty dataset is dropped after a minute
		st.win = append(st.win, contWin{name, t0, simrt.Now()})
	}
}

func under(p, dir string) bool { return strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/") }

// contained judges every mutation on one host.
func (e *Env) contained(n *NodeH, st *contState) {
	dir := path.Clean(n.Dir)
	if n.Dir == "" {
		dir = ""
	}
	mine := map[string]bool{} // created in /tmp
	inDir := func(p string) bool {
		if dir != "" {
			return under(p, dir)
		}
		for d := range mine {
			if under(p, d) {
				return true
			}
		}
		return false
	}
	bad := func(ev simrt.FSEvent, why string) {
		e.Fail("touched", "%v %s: %s %s %s: %s", ev.At, n.Host.Name, ev.Op, ev.Path, ev.To, why)
	}
	judge := func(ev simrt.FSEvent, p, op string) bool {
		if _, ok := st.user[p]; ok {
			bad(ev, "it belongs to others")
			return false
		}
		switch op {
		case "mkdir":
			if inDir(p) || p == dir || dir != "" && under(dir, p) || p == "/tmp" {
				return true
			}
			if path.Dir(p) == "/tmp" && dir == "" {
				mine[p] = true
				return true
			}
		case "create":
			if inDir(p) {
				return true
			}
			if path.Dir(p) == "/tmp" {
				mine[p] = true
				return true
			}
		case "truncate", "openw":
			if inDir(p) || mine[p] {
				return true
			}
		case "remove", "removeall":
			if path.Base(p) == "index.save" && inDir(p) && !inDir(path.Dir(p)) {
				bad(ev, "the registry is removed")
				return false
			}
			if path.Base(p) == "data" && inDir(p) && !inDir(path.Dir(p)) {
				bad(ev, "the folder of all datasets is removed")
				return false
			}
			for u := range st.user {
				if under(u, p) {
					bad(ev, "files of others are in it: "+u)
					return false
				}
			}
			if inDir(p) || mine[p] {
				return true
			}
		}
		bad(ev, "outside of the node's directory "+dir)
		return false
	}
	for _, ev := range n.Host.FS.Log {
		ok := true
		switch ev.Op {
		case "rename":
			ok = judge(ev, ev.Path, "truncate") && judge(ev, ev.To, "create")
		case "link":
			ok = judge(ev, ev.To, "create")
		default:
			ok = judge(ev, ev.Path, ev.Op)
		}
		if !ok {
			return
		}
	}
	e.Checked("contained")
	for u, b := range st.user {
		if g, ok := n.Host.FS.Peek(u); !ok || string(g) != b {
			e.Fail("touched", "%s: the file %s of others is gone or changed", n.Host.Name, u)
			return
		}
	}
}

// apart checks that no folder is shared by datasets of different names.
func (e *Env) apart(n *NodeH, st *contState) {
	var own []map[string]bool
	for _, w := range st.win {
		m := map[string]bool{}
		for _, ev := range n.Host.FS.Log {
			if ev.At >= w.from && ev.At < w.to && (ev.Op == "removeall" || ev.Op == "remove") && under(ev.Path, path.Join(path.Clean(n.Dir), "data")) {
				m[ev.Path] = true
			}
		}
		own = append(own, m)
	}
	for i := range own {
		for j := range own {
			if st.win[i].name == st.win[j].name {
				continue
			}
			for a := range own[i] {
				e.Checked("folder")
				for b := range own[j] {
					if a == b || under(a, b) {
						e.Fail("shared", "dropping dataset %q removes %s, dropping %q removes %s", st.win[i].name, a, st.win[j].name, b)
						return
					}
				}
			}
		}
	}
}

func mainCont(e *Env) {
	st := &contState{user: map[string]string{}}
	e.X = st
	c := e.Clients[0]
	for _, n := range e.Nodes {
		n.Dir = []string{"/data/veri", "/data/veri/", "/var/lib/x/../veri", ""}[e.K("dir")]
		for _, f := range []string{"/etc/passwd", "/data/other/file", "/data/file", "/data/data", "/home/u/a", "/tmp/b", "/var/log/x", "/index.save", "/data/index.save", "/a", "/b", "/var/lib/other"} {
			n.Host.FS.Poke(f, []byte("mine "+f))
			st.user[f] = "mine " + f
		}
		if n.Dir != "" {
			f := path.Join(n.Dir, "notes.txt")
			n.Host.FS.Poke(f, []byte("mine "+f))
			st.user[f] = "mine " + f
		}
	}
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() { e.WaitServing(c, Sec(60)) })
	e.WaitAll(Sec(100))
	base := simrt.Now()
	e.InjectFaults(base)
	e.RunOps(base, Sec(9000))
	e.WaitFaults()
	simrt.Sleep(Sec(float64(e.K("wait"))))
	if e.K("end") == 1 {
		for _, n := range e.Nodes {
			if n.Up() {
				n.Term()
			}
		}
		simrt.Sleep(Sec(120))
	}
	if e.K("busy") == 1 {
		for _, n := range e.Nodes {
			if n.Up() {
				n.Kill(false)
			}
			holder := e.W.NewProc("holder", n.Host)
			holder.Harness = true
			n.Host.Boot()
			simrt.GoProc(holder, "holder", func() {
				simrt.NetListen("tcp", fmt.Sprintf("0.0.0.0:%d", Port))
				simrt.Sleep(time.Hour)
			})
			simrt.Sleep(Ms(1))
			n.Start()
			e.Expect[n.Proc] = true
			simrt.Sleep(Sec(10))
			e.W.Counters["fault:failed-start"]++
		}
	}
	for _, n := range e.Nodes {
		e.contained(n, st)
		if len(e.Viol) > 0 {
			return
		}
		if e.K("iso") == 1 && n.Dir != "" {
			e.apart(n, st)
		}
		e.Sample("%d file system mutations of %s within its directory", len(n.Host.FS.Log), n.Host.Name)
	}
}

func init() {
	Register(&Scenario{Name: "contain", Gen: genCont, Main: mainCont, Do: doCont})
	AddProp(&Prop{ID: "C17", Scenarios: []string{"contain"}, Bounds: "1-3 nodes, up to 12 hostile dataset names per run built from path components, up to 30 requests or gossip messages, crashes, terminations, failed starts and disk errors, drops by emptiness and expiry"})
}

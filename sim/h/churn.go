package h

import (
	"fmt"

	pb "verisim/inst/veriservice"
	"verisim/sannoy"
	"verisim/simrt"
)

// C16: datasets whose last entry expires while their index is being built are
// dropped with everything that belongs to them.

func genAnnChurn(r *simrt.RNG, p *Plan) {
	p.Nodes, p.Clients = 1, 1+r.Intn(3)
	p.Set("dim", 2)
	CalmSched(p, 20000)
	p.Set("annoy_us", int64(r.Pick(500, 3000, 12000, 40000)*1000))
	n := r.Pick(3, 6, 12)
	p.Set("span", 500000)
	for i := 0; i < n; i++ {
		at := r.Range(0, 300000)
		p.Ops = append(p.Ops, Op{At: at, C: r.Intn(p.Clients), Kind: "ins", DS: 2 + i, Key: i, Val: 1, TTL: r.Range(55, 90)})
		for k := 0; k < r.Intn(3); k++ {
			p.Ops = append(p.Ops, Op{At: at + r.Range(0, 50000), C: r.Intn(p.Clients), Kind: "ins", DS: 2 + i, Key: 100 + i + k, Val: 1, TTL: r.Range(5, 30)})
		}
		for t := int64(50000); t < 110000; t += r.Range(500, 4000) { // expired entries go when somebody looks
			p.Ops = append(p.Ops, Op{At: at + t, C: r.Intn(p.Clients), Kind: pickStr(r, "read", "read", "read", "find"), DS: 2 + i})
		}
	}
	sortOps(p)
}

func doAnnChurn(e *Env, c *Client, op *Op) {
	n := e.node(0)
	switch op.Kind {
	case "ins":
		c.Insert(n, dsName(op.DS), mk(op.DS, op.Key, op.Val, 2), &pb.InsertConfig{TTL: uint64(op.TTL), Count: 1}, Sec(30))
	case "read", "find": // without creating the dataset again
		q := Query{Func: "VectorDistance", Limit: 10, Vecs: []int64{1}, Dim: 2}
		if op.Kind == "find" {
			q.Func = "AnnoyVectorDistance"
		}
		c.Search(n, q.Request(dsName(op.DS), 20000), Sec(60))
	}
}

func mainAnnChurn(e *Env) {
	c := e.Clients[0]
	n := e.Nodes[0]
	e.StartAll()
	simrt.Sleep(Sec(1))
	e.Go(c, func() { e.WaitServing(c, Sec(60)) })
	e.WaitAll(Sec(200))
	e.RunOps(simrt.Now(), Sec(9000))
	worst := ""
	for try := 0; try < 10; try++ {
		simrt.Sleep(Sec(800))
		worst = ""
		if l := n.annFiles(); len(l) > 0 {
			worst = fmt.Sprintf("the index files %v", l)
		}
		if k := sannoy.Live(n.Proc); k > 0 {
			worst += fmt.Sprintf(" %d indexes in memory", k)
		}
		if worst == "" {
			break
		}
	}
	e.Checked("dropped")
	if worst != "" {
		e.Fail("leftover", "hours after the last entry expired the node still has %s", worst)
	}
}

func init() {
	Register(&Scenario{Name: "annchurn", Gen: genAnnChurn, Main: mainAnnChurn, Do: doAnnChurn})
}

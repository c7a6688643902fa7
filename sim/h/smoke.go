package h

import (
	"fmt"
	"time"

	pb "verisim/inst/veriservice"
	"verisim/simrt"
)

func init() {
	Register(&Scenario{
		Name: "smoke",
		Gen: func(r *simrt.RNG, p *Plan) {
			p.Nodes, p.Clients = 3, 2
			p.Set("n", 60)
		},
		Main: func(e *Env) {
			e.StartAll()
			simrt.Sleep(5 * time.Second)
			e.Go(e.Clients[0], func() {
				c := e.Clients[0]
				for i := 0; i < int(e.K("n")); i++ {
					d := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i), 1, 2}}, Value: &pb.DatumValue{Label: []byte(fmt.Sprintf("l%d", i))}}
					if err := c.Insert(e.Nodes[i%3], "a", d, &pb.InsertConfig{}, 5*time.Second); err != nil {
						e.Fail("insert", "%v", err)
					}
				}
				simrt.Sleep(130 * time.Second)
				for _, n := range e.Nodes {
					l, err := c.Stream(n, "a", 5*time.Second, 0, 0)
					e.Sample("node %d has %d %v", n.I, len(l), err)
					r, err := c.Search(n, &pb.SearchRequest{Datum: []*pb.Datum{{Key: &pb.DatumKey{Feature: []float32{3, 1, 2}}, Value: &pb.DatumValue{}}},
						Config: &pb.SearchConfig{DataName: "a", Limit: 5, Timeout: 1000, ScoreFuncName: "VectorDistance"}}, 5*time.Second)
					e.Sample("search %d %v %v", len(r), r, err)
				}
			})
			e.WaitAll(1000 * time.Second)
		},
	})
}

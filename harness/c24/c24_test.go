package c24

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Search struct {
	At     int
	Q      [][]float32
	Cfg    vk.SearchCfg
	Wait   int  // seconds before it
	Double bool // asked a second time at once
}

type Plan struct {
	Nodes    int
	Edges    [][2]int
	Has      []bool // holds the dataset
	Data     []vk.D
	Place    [][]int // datum -> nodes
	Delay    []int   // per edge, milliseconds
	Searches []Search
}

func gen(t *rapid.T) Plan {
	p := Plan{Nodes: rapid.IntRange(1, 5).Draw(t, "nodes")}
	topology := rapid.SampledFrom([]string{"random", "ring", "full", "line", "star"}).Draw(t, "topology")
	if p.Nodes == 5 && topology != "random" && rapid.Bool().Draw(t, "six") {
		p.Nodes++
	}
	for i := 0; i < p.Nodes; i++ {
		p.Has = append(p.Has, rapid.IntRange(0, 9).Draw(t, "has") > 0)
	}
	switch topology {
	case "ring":
		for i := 0; i < p.Nodes; i++ {
			p.Edges = append(p.Edges, [2]int{i, (i + 1) % p.Nodes})
		}
	case "full":
		for i := 0; i < p.Nodes; i++ {
			for j := 0; j < p.Nodes; j++ {
				if i != j {
					p.Edges = append(p.Edges, [2]int{i, j})
				}
			}
		}
	case "line":
		for i := 1; i < p.Nodes; i++ {
			p.Edges = append(p.Edges, [2]int{i - 1, i}, [2]int{i, i - 1})
		}
	case "star":
		for i := 1; i < p.Nodes; i++ {
			p.Edges = append(p.Edges, [2]int{0, i}, [2]int{i, 0})
		}
	default:
		for n := rapid.IntRange(0, 10).Draw(t, "edges"); n > 0; n-- {
			p.Edges = append(p.Edges, [2]int{rapid.IntRange(0, p.Nodes-1).Draw(t, "from"), rapid.IntRange(0, p.Nodes-1).Draw(t, "to")})
		}
	}
	for range p.Edges {
		p.Delay = append(p.Delay, rapid.SampledFrom([]int{0, 0, 1, 3, 20}).Draw(t, "delay"))
	}
	dim := rapid.IntRange(1, 3).Draw(t, "dim")
	for n := rapid.IntRange(1, 25).Draw(t, "data"); n > 0; n-- {
		p.Data = append(p.Data, vk.D{F: vk.NonZeroVec(dim).Draw(t, "f"), L: fmt.Sprint("l", n), G: rapid.SampledFrom([]string{"", "g"}).Draw(t, "g")})
		var pl []int
		for k := rapid.IntRange(1, 2).Draw(t, "copies"); k > 0; k-- {
			pl = append(pl, rapid.IntRange(0, p.Nodes-1).Draw(t, "at"))
		}
		p.Place = append(p.Place, pl)
	}
	for n := rapid.IntRange(1, 6).Draw(t, "searches"); n > 0; n-- {
		s := Search{At: rapid.IntRange(0, p.Nodes-1).Draw(t, "at"), Wait: rapid.SampledFrom([]int{0, 0, 1, 100, 290, 400}).Draw(t, "wait"), Double: rapid.IntRange(0, 3).Draw(t, "double") == 0}
		for k := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "queries"); k > 0; k-- {
			s.Q = append(s.Q, vk.NonZeroVec(dim).Draw(t, "q"))
		}
		name := rapid.SampledFrom(vk.ScoreNames).Draw(t, "func")
		s.Cfg = vk.SearchCfg{Func: name, Higher: rapid.Bool().Draw(t, "higher"), Limit: uint32(rapid.SampledFrom([]int{1, 2, 5, 40}).Draw(t, "limit")), Timeout: 100000,
			Uuid: rapid.SampledFrom([]string{"", "", "", "u1", "u1", "u2", "U1", "u1 ", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6BA7B810-9DAD-11D1-80B4-00C04FD430C8", "6ba7b8109dad11d180b400c04fd430c8"}).Draw(t, "uuid"), Data: "d"}
		p.Searches = append(p.Searches, s)
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	var nodes []*node.Node
	for i := 0; i < p.Nodes; i++ {
		n := c.NewNode(&node.NodeConfig{Port: uint32(i + 1), Folder: c.Dir(), AdvertisedIds: []string{fmt.Sprint("n:", i)}})
		nodes = append(nodes, n)
		if p.Has[i] {
			n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true, Retention: 1 << 30})
		}
	}
	c.Settle()
	next := make([][]int, p.Nodes)
	linked := map[[2]int]bool{}
	for k, e := range p.Edges {
		if !p.Has[e[0]] || linked[e] {
			continue
		}
		linked[e] = true
		dt, _ := nodes[e[0]].Dataset.GetNoCreate("d")
		delay := time.Duration(p.Delay[k]) * time.Millisecond
		dt.AddSource(&vk.NodeSource{N: nodes[e[1]], Name: "d", ID: fmt.Sprint("n:", e[1]), Wait: func() { time.Sleep(delay) }})
		next[e[0]] = append(next[e[0]], e[1])
	}
	created := time.Now()
	p.Has = append([]bool(nil), p.Has...)
	live := make([]map[string]vk.D, p.Nodes)
	for i := range live {
		live[i] = map[string]vk.D{}
	}
	byKey := map[string]bool{}
	for k, d := range p.Data {
		if byKey[d.Key()] {
			continue
		}
		byKey[d.Key()] = true
		for _, i := range p.Place[k] {
			if !p.Has[i] {
				continue
			}
			dt, _ := nodes[i].Dataset.GetNoCreate("d")
			if err := dt.Insert(d.PB(), &pb.InsertConfig{Count: 1}); err != nil {
				c.Failf("insert", "%v", err)
			}
			live[i][d.Key()] = d
		}
	}
	reach := func(from int) []int {
		seen := map[int]bool{from: true}
		q := []int{from}
		var out []int
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			out = append(out, x)
			if !p.Has[x] {
				continue
			}
			for _, y := range next[x] {
				if !seen[y] {
					seen[y] = true
					q = append(q, y)
				}
			}
		}
		return out
	}
	type asked struct {
		node int
		uuid string
	}
	seen := map[asked]time.Time{}
	maybe := map[asked]time.Time{}
	was := func(n int, u string) bool {
		at, ok := seen[asked{n, u}]
		at2, ok2 := maybe[asked{n, u}]
		return ok && time.Since(at) <= 5*time.Minute+10*time.Second || ok2 && time.Since(at2) <= 5*time.Minute+10*time.Second
	}
	surely := func(n int, u string) bool {
		at, ok := seen[asked{n, u}]
		return ok && time.Since(at) < 4*time.Minute+50*time.Second
	}
	repeated, multiHop, multi := 0, 0, 0
	for si, s := range p.Searches {
		c.Sleep(time.Duration(s.Wait) * time.Second)
		if time.Since(created) > 9*time.Minute {
			break // sources are dropped after ten minutes without a sync
		}
		rounds := 1
		if s.Double {
			rounds = 2
		}
		for r := 0; r < rounds; r++ {
			// rebalancing copies data to peers and asking a peer about a dataset creates it there
			c.Settle()
			for i, n := range nodes {
				if dt, err := n.Dataset.GetNoCreate("d"); err == nil {
					p.Has[i] = true
					live[i] = map[string]vk.D{}
					for _, d := range vk.All(dt) {
						live[i][vk.KeyOf(d)] = vk.FromPB(d)
					}
				}
			}
			what := fmt.Sprintf("search %d.%d at node %d (%q)", si, r, s.At, s.Cfg.Uuid)
			req := &pb.SearchRequest{Config: s.Cfg.PB()}
			for _, q := range s.Q {
				req.Datum = append(req.Datum, vk.D{F: q}.PB())
			}
			st := &vk.Stream[*pb.ScoredDatum]{}
			begin := time.Now()
			err := nodes[s.At].SearchStream(req, st)
			if d := time.Since(begin); d > 20*time.Second {
				c.Failf("slow", "%s took %v although answers are delayed by milliseconds only", what, d)
			}
			u := s.Cfg.Uuid
			nodesReached := reach(s.At)
			must, may := true, u == "" || !surely(s.At, u)
			if u != "" {
				if was(s.At, u) {
					must = false
				}
				for _, x := range nodesReached[1:] {
					for i := range s.Q {
						d := u
						if len(s.Q) > 1 {
							d = fmt.Sprintf("%s-%d", u, i)
						}
						if was(x, d) {
							must = false
						}
					}
				}
			}
			if !may {
				if err != nil || len(st.Out) > 0 {
					c.Failf("answered-twice", "%s: a repeated identifier got %d results, error %v", what, len(st.Out), err)
				}
				repeated++
				continue
			}
			if u != "" {
				if was(s.At, u) {
					maybe[asked{s.At, u}] = time.Now()
				} else {
					seen[asked{s.At, u}] = time.Now()
				}
				for _, x := range nodesReached[1:] {
					for i := range s.Q {
						d := u
						if len(s.Q) > 1 {
							d = fmt.Sprintf("%s-%d", u, i)
						}
						if must {
							seen[asked{x, d}] = time.Now()
						} else { // a node on the way may have refused it
							maybe[asked{x, d}] = time.Now()
						}
					}
				}
				if len(s.Q) > 1 { // reached again through a cycle
					for i := range s.Q {
						maybe[asked{s.At, fmt.Sprintf("%s-%d", u, i)}] = time.Now()
					}
				}
			}
			if !p.Has[s.At] {
				if err == nil && len(st.Out) > 0 {
					c.Failf("no-dataset", "%s: results without the dataset", what)
				}
				continue
			}
			if err != nil {
				c.Failf("error", "%s: %v", what, err)
			}
			best := map[string]vk.Scored{}
			holders := 0
			for _, x := range nodesReached {
				if len(live[x]) > 0 {
					holders++
				}
				for k, d := range live[x] {
					sc := vk.Scored{Key: k, Vals: []string{d.Val()}, Score: math.NaN()}
					for _, q := range s.Q {
						v := vk.Score(s.Cfg.Func, d.F, q)
						if math.IsNaN(sc.Score) || vk.Better(s.Cfg.Higher, v, sc.Score) {
							sc.Score = v
						}
					}
					for _, q := range s.Q { // not all of them may be answered if identifiers were used before
						sc.Alt = append(sc.Alt, vk.Score(s.Cfg.Func, d.F, q))
					}
					if must {
						sc.Alt = nil
					}
					best[k] = sc
				}
			}
			var cands []vk.Scored
			for _, x := range best {
				cands = append(cands, x)
			}
			if must {
				c.TopK(what, st.Out, cands, s.Cfg.Higher, int(s.Cfg.Limit))
				if len(nodesReached) > 1 && holders > 1 {
					multiHop++
				}
				if len(s.Q) > 1 {
					multi++
				}
			} else {
				c.TopKOpt(what, st.Out, nil, cands, s.Cfg.Higher, int(s.Cfg.Limit))
			}
		}
	}
	c.LabelIf(repeated > 0, "repeated-identifier")
	c.LabelIf(multi > 0, "several-query-datums")
	c.LabelIf(multiHop > 0, "data-on-several-nodes")
	c.NonTrivialIf(multiHop > 0 || repeated > 0)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("cluster", 1500, 40000, true, gen, run))
}

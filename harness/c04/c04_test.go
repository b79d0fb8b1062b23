package c04

import (
	"fmt"
	"math"
	"sync"
	"testing"

	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Query struct {
	Q   vk.D
	Nil bool `json:"nil,omitempty"` // no configuration
	Cfg vk.SearchCfg
}

type Plan struct {
	Data    []vk.D
	Bulk    int `json:"bulk,omitempty"` // this many further datums
	Del     []int
	Queries []Query
}

// unknown are names of no score function: they mean the Euclidean distance.
var unknown = []string{"NoSuchFunction", "QuickDistance", "quickvectordistance", "Quick", "vectormultiplication", "Multiplication", "Cosine", "cosinesimilarity", "CosineDistance", "Angular", "angulardistance", " QuickVectorDistance", "VectorMultiplication ", "AngularSimilarity", "VECTORMULTIPLICATION"}

func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 6).Draw(t, "dim")
	var p Plan
	n := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 60)).Draw(t, "n")
	grid := rapid.Bool().Draw(t, "grid")
	scale := rapid.SampledFrom([]float32{1, 1, 1, 1, 1, 1e-3, 1e-6, 1e-9}).Draw(t, "scale")
	scaled := func(f []float32) []float32 {
		f = append([]float32(nil), f...)
		for i := range f {
			f[i] *= scale
		}
		return f
	}
	mixed := rapid.IntRange(0, 5).Draw(t, "mixed") == 0 // vectors of different lengths
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var f []float32
		dim := dim
		if mixed {
			dim = rapid.IntRange(0, 6).Draw(t, "dim")
		}
		if grid {
			f = vk.Grid(dim, 2).Draw(t, "f")
		} else {
			f = vk.Vec(dim).Draw(t, "f")
		}
		d := vk.D{F: scaled(f), G: rapid.SampledFrom([]string{"", "a", "b"}).Draw(t, "g"), S1: uint32(rapid.IntRange(0, 3).Draw(t, "s")), L: fmt.Sprint(i), V: uint64(i)}
		if seen[d.Key()] {
			continue
		}
		seen[d.Key()] = true
		p.Data = append(p.Data, d)
	}
	if len(p.Data) > 0 {
		p.Del = rapid.SliceOfN(rapid.IntRange(0, len(p.Data)-1), 0, 4).Draw(t, "del")
	}
	m := rapid.IntRange(1, 4).Draw(t, "queries")
	if rapid.IntRange(0, 69).Draw(t, "large") == 37 {
		p.Bulk = rapid.SampledFrom([]int{300, 500, 1000, 1001, 1050, 1200, 1500}).Draw(t, "bulk")
		m = 1
	}
	for i := 0; i < m; i++ {
		dim := dim
		if mixed {
			dim = rapid.IntRange(0, 6).Draw(t, "dim")
		}
		q := Query{Q: vk.D{F: scaled(vk.Vec(dim).Draw(t, "q"))}}
		if len(p.Data) > 0 && rapid.Bool().Draw(t, "stored") {
			q.Q = p.Data[rapid.IntRange(0, len(p.Data)-1).Draw(t, "which")]
		} else if grid {
			q.Q.F = scaled(vk.Grid(dim, 2).Draw(t, "q"))
		}
		q.Nil = rapid.IntRange(0, 9).Draw(t, "nil") == 0
		q.Cfg.Func = rapid.SampledFrom(append([]string{"", rapid.SampledFrom(unknown).Draw(t, "unknown")}, vk.ScoreNames...)).Draw(t, "func")
		q.Cfg.Higher = rapid.Bool().Draw(t, "higher")
		q.Cfg.Limit = uint32(rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 70), rapid.SampledFrom([]int{1000, 100000, 255, 256, 1 << 16, 1<<16 + 1, 1 << 31, 1<<32 - 1})).Draw(t, "limit"))
		if p.Bulk > 0 {
			q.Cfg.Limit = uint32(rapid.SampledFrom([]int{1, 255, 500, 999, 1000, 1001, 1100, 5000, 1 << 16, 1<<32 - 1}).Draw(t, "bulkLimit"))
		}
		p.Queries = append(p.Queries, q)
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	live := map[string]vk.D{}
	for _, d := range p.Data {
		if err := dt.Insert(d.PB(), nil); err != nil {
			c.Failf("insert", "%v", err)
		}
		live[d.Key()] = d
	}
	for i := 0; i < p.Bulk; i++ {
		d := vk.D{F: []float32{float32(i%37) / 4, float32(i) / 64}, G: "bulk", S2: uint32(i % 3)}
		if err := dt.Insert(d.PB(), nil); err != nil {
			c.Failf("insert", "%v", err)
		}
		live[d.Key()] = d
	}
	for _, i := range p.Del {
		dt.Delete(p.Data[i].PB())
		delete(live, p.Data[i].Key())
	}
	for i, q := range p.Queries {
		var cfg *pb.SearchConfig
		name, higher, limit := "VectorDistance", false, 10
		if !q.Nil {
			cfg = q.Cfg.PB()
			name, higher, limit = q.Cfg.Func, q.Cfg.Higher, int(q.Cfg.Limit)
		}
		var cands []vk.Scored
		ties := map[float64]bool{}
		for k, d := range live {
			s := vk.Score(name, d.F, q.Q.F)
			if math.IsNaN(s) {
				c.Failf("nan", "score of %v and %v by %s is NaN", d.F, q.Q.F, name)
			}
			if ref := vk.RefScore(name, d.F, q.Q.F); math.Abs(ref-s) > vk.RefTol(name, ref) {
				c.Failf("score-function", "%s(%v, %v) = %v, definition gives %v", name, d.F, q.Q.F, s, ref)
			}
			if ties[s] {
				c.Label("ties")
			}
			ties[s] = true
			cands = append(cands, vk.Scored{Key: k, Vals: []string{d.Val()}, Score: s})
		}
		c.LabelIf(len(q.Q.F) == 0 && len(cands) > 0, "empty-query")
		c.LabelIf(limit == 0, "limit0")
		c.LabelIf(limit > 0 && limit < len(cands), "truncating")
		c.LabelIf(higher, "higher")
		c.NonTrivialIf(limit > 0 && limit < len(cands))
		what := fmt.Sprintf("query %d (%s higher=%v limit=%d)", i, name, higher, limit)
		c.TopK(what, dt.Search(q.Q.PB(), cfg, nil).List, cands, higher, limit)
		// the streaming interface delivers the same
		ch := make(chan *pb.ScoredDatum, len(cands)+10)
		var wg sync.WaitGroup
		wg.Add(1)
		if err := dt.StreamSearch(q.Q.PB(), ch, &wg, cfg); err != nil {
			c.Failf("stream-error", "%v", err)
		}
		wg.Wait()
		close(ch)
		var got []*pb.ScoredDatum
		for s := range ch {
			got = append(got, s)
		}
		c.TopK("stream "+what, got, cands, higher, limit)
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("topk", 9000, 250000, true, gen, run))
}

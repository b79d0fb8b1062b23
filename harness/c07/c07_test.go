package c07

import (
	"fmt"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Src is a source: which datums it holds and how it delivers.
type Src struct {
	Has     []int
	DelayMs int
	GapMs   int `json:"gapMs,omitempty"` // between results
	Rev     bool
	Rot     int
}

type Plan struct {
	Data    []vk.D
	Local   []int
	Sources []Src
	Queries [][]float32
	Cfg     vk.SearchCfg
	Extra   bool // other values for the copies at sources
}

func subset(t *rapid.T, n int, name string) []int {
	var out []int
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 9).Draw(t, name) < 4 {
			out = append(out, i)
		}
	}
	return out
}

func genData(t *rapid.T, dim, max int) []vk.D {
	var out []vk.D
	n := rapid.IntRange(0, max).Draw(t, "n")
	grid := rapid.Bool().Draw(t, "grid")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := vk.Vec(dim).Draw(t, "f")
		if grid {
			f = vk.Grid(dim, 2).Draw(t, "f")
		}
		d := vk.D{F: f, G: rapid.SampledFrom([]string{"", "a", "b"}).Draw(t, "g"), L: fmt.Sprint("l", i), V: uint64(i)}
		if !seen[d.Key()] {
			seen[d.Key()] = true
			out = append(out, d)
		}
	}
	return out
}

func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 4).Draw(t, "dim")
	var p Plan
	p.Data = genData(t, dim, 30)
	p.Local = subset(t, len(p.Data), "local")
	ns := rapid.IntRange(0, 5).Draw(t, "sources")
	for i := 0; i < ns; i++ {
		p.Sources = append(p.Sources, Src{Has: subset(t, len(p.Data), "has"), DelayMs: rapid.SampledFrom([]int{0, 0, 1, 5, 50, 300}).Draw(t, "delay"),
			GapMs: rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "gap"), Rev: rapid.Bool().Draw(t, "rev"), Rot: rapid.IntRange(0, 5).Draw(t, "rot")})
	}
	nq := rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(t, "queries")
	for i := 0; i < nq; i++ {
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "near") == 0 { // hardly different from another query
			q := append([]float32(nil), p.Queries[rapid.IntRange(0, i-1).Draw(t, "of")]...)
			k := rapid.IntRange(0, dim-1).Draw(t, "k")
			q[k] += rapid.SampledFrom([]float32{1, 0.25, 0.01, -0.004}).Draw(t, "by") * max(1, q[k]/16)
			p.Queries = append(p.Queries, q)
		} else if len(p.Data) > 0 && rapid.Bool().Draw(t, "stored") {
			p.Queries = append(p.Queries, p.Data[rapid.IntRange(0, len(p.Data)-1).Draw(t, "i")].F)
		} else {
			p.Queries = append(p.Queries, vk.Vec(dim).Draw(t, "q"))
		}
	}
	p.Cfg = vk.SearchCfg{Func: rapid.SampledFrom(vk.ScoreNames).Draw(t, "func"), Higher: rapid.Bool().Draw(t, "higher"),
		Limit: uint32(rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 40), rapid.IntRange(1, 40), rapid.SampledFrom([]int{1000, 1 << 16, 1<<32 - 1})).Draw(t, "limit")), Timeout: 1000}
	if rapid.IntRange(0, 2).Draw(t, "rl") == 0 {
		p.Cfg.ResultLimit = uint64(rapid.IntRange(1, 10).Draw(t, "resultLimit"))
	}
	p.Extra = rapid.IntRange(0, 3).Draw(t, "extra") == 0
	return p
}

// deliver runs the inner search and delivers its results late and in another order.
func deliver(s Src, inner *data.Data) func(d *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error {
	return func(d *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error {
		ch := make(chan *pb.ScoredDatum, 1000)
		var wg sync.WaitGroup
		wg.Add(1)
		inner.StreamSearch(d, ch, &wg, cfg)
		wg.Wait()
		close(ch)
		var l []*pb.ScoredDatum
		for x := range ch {
			l = append(l, x)
		}
		if s.Rev {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		if len(l) > 0 {
			r := s.Rot % len(l)
			l = append(l[r:len(l):len(l)], l[:r]...)
		}
		time.Sleep(time.Duration(s.DelayMs) * time.Millisecond)
		for i, x := range l {
			if i > 0 {
				time.Sleep(time.Duration(s.GapMs) * time.Millisecond)
			}
			out <- x
		}
		return nil
	}
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	vals := map[string][]string{}
	where := map[string]int{}
	put := func(dst *data.Data, i int, extra string) {
		d := p.Data[i]
		d.L += extra
		if err := dst.Insert(d.PB(), nil); err != nil {
			c.Failf("insert", "%v", err)
		}
		vals[d.Key()] = append(vals[d.Key()], d.Val())
		where[d.Key()]++
	}
	for _, i := range p.Local {
		put(dt, i, "")
	}
	for j, s := range p.Sources {
		in := c.NewData(&pb.DataConfig{Name: fmt.Sprintf("s%d", j), NoTarget: true})
		for _, i := range s.Has {
			ex := ""
			if p.Extra {
				ex = fmt.Sprint("@", j)
			}
			put(in, i, ex)
		}
		if err := dt.AddSource(&vk.Peer{ID: fmt.Sprintf("s%d", j), OnSearch: deliver(s, in)}); err != nil {
			c.Failf("add-source", "%v", err)
		}
	}
	var cands []vk.Scored
	repl := false
	for _, d := range p.Data {
		vs, ok := vals[d.Key()]
		if !ok {
			continue
		}
		repl = repl || where[d.Key()] > 1
		best := 0.0
		for i, q := range p.Queries {
			s := vk.Score(p.Cfg.Func, d.F, q)
			if i == 0 || vk.Better(p.Cfg.Higher, s, best) {
				best = s
			}
		}
		cands = append(cands, vk.Scored{Key: d.Key(), Vals: vs, Score: best})
	}
	limit := int(p.Cfg.Limit)
	if p.Cfg.ResultLimit > 0 && int(p.Cfg.ResultLimit) < limit {
		limit = int(p.Cfg.ResultLimit)
	}
	c.LabelIf(repl, "replicated")
	c.LabelIf(len(p.Queries) > 1, "multi-query")
	c.LabelIf(limit < len(cands), "truncating")
	c.LabelIf(p.Cfg.ResultLimit > 0, "result-limit")
	c.NonTrivialIf(len(p.Sources) > 0 && len(cands) > 1 && (repl || len(p.Queries) > 1))
	var qs []*pb.Datum
	for _, q := range p.Queries {
		qs = append(qs, vk.D{F: q}.PB())
	}
	res, err := dt.MultiAggregatedSearch(qs, p.Cfg.PB(), nil)
	if err != nil {
		c.Failf("search-error", "%v", err)
	}
	c.TopK("multi", res, cands, p.Cfg.Higher, limit)
	if len(p.Queries) == 1 {
		out := make(chan *pb.ScoredDatum, 1000)
		var wg sync.WaitGroup
		wg.Add(1)
		if err := dt.AggregatedSearch(qs[0], out, &wg, p.Cfg.PB()); err != nil {
			c.Failf("search-error", "%v", err)
		}
		wg.Wait()
		close(out)
		var got []*pb.ScoredDatum
		for x := range out {
			got = append(got, x)
		}
		c.TopK("aggregated", got, cands, p.Cfg.Higher, limit)
	}
}

// Agg: the merger on its own, over arbitrary streams.
type Agg struct {
	Data   []vk.D
	Stream []int
	Scores []float64
	Cfg    vk.SearchCfg
}

func genAgg(t *rapid.T) Agg {
	var p Agg
	p.Data = genData(t, 2, 12)
	if len(p.Data) > 0 {
		n := rapid.IntRange(0, 40).Draw(t, "stream")
		for i := 0; i < n; i++ {
			p.Stream = append(p.Stream, rapid.IntRange(0, len(p.Data)-1).Draw(t, "i"))
			p.Scores = append(p.Scores, float64(rapid.IntRange(-10, 10).Draw(t, "score"))/2)
		}
	}
	p.Cfg = vk.SearchCfg{Func: "VectorDistance", Higher: rapid.Bool().Draw(t, "higher"), Limit: uint32(rapid.IntRange(0, 14).Draw(t, "limit"))}
	if rapid.Bool().Draw(t, "rl") {
		p.Cfg.ResultLimit = uint64(rapid.IntRange(0, 14).Draw(t, "resultLimit"))
	}
	return p
}

func runAgg(c *vk.Ctx, p Agg) {
	agg := data.NewAggrator(p.Cfg.PB(), false, nil)
	best := map[int]float64{}
	dup := false
	for i, k := range p.Stream {
		if err := agg.Insert(&pb.ScoredDatum{Datum: p.Data[k].PB(), Score: p.Scores[i]}); err != nil {
			c.Failf("insert-error", "%v", err)
		}
		if old, ok := best[k]; ok {
			dup = dup || old != p.Scores[i]
			if !vk.Better(p.Cfg.Higher, p.Scores[i], old) {
				continue
			}
		}
		best[k] = p.Scores[i]
	}
	var cands []vk.Scored
	for k, s := range best {
		cands = append(cands, vk.Scored{Key: p.Data[k].Key(), Vals: []string{p.Data[k].Val()}, Score: s})
	}
	limit := int(p.Cfg.Limit)
	if p.Cfg.ResultLimit > 0 && int(p.Cfg.ResultLimit) < limit {
		limit = int(p.Cfg.ResultLimit)
	}
	c.LabelIf(dup, "improving-duplicates")
	c.LabelIf(limit < len(cands), "truncating")
	c.NonTrivialIf(dup && limit > 0 && limit < len(cands))
	c.TopK("merger", agg.Result(), cands, p.Cfg.Higher, limit)
	c.TopK("merger, asked again", agg.Result(), cands, p.Cfg.Higher, limit)
}

func TestProperty(t *testing.T) {
	vk.Main(t,
		vk.Sub("union", 9000, 100000, true, gen, run),
		vk.Sub("merger", 12000, 300000, true, genAgg, runAgg),
	)
}

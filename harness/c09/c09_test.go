package c09

import (
	"fmt"
	"testing"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Plan struct {
	Data    []vk.D
	Stream  []int     // merger only
	Scores  []float64 // merger only
	Queries [][]float32
	Context [][]float32
	NilCtx  bool
	Prio    bool
	Cfg     vk.SearchCfg
}

func base(t *rapid.T) (Plan, int) {
	dim := rapid.IntRange(1, 4).Draw(t, "dim")
	var p Plan
	n := rapid.IntRange(0, 16).Draw(t, "n")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		d := vk.D{F: vk.Vec(dim).Draw(t, "f"), G: rapid.SampledFrom([]string{"", "a"}).Draw(t, "g"), L: fmt.Sprint(i)}
		if !seen[d.Key()] {
			seen[d.Key()] = true
			p.Data = append(p.Data, d)
		}
	}
	for i := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 24)).Draw(t, "context"); i > 0; i-- {
		if len(p.Data) > 0 && rapid.IntRange(0, 2).Draw(t, "stored") == 0 {
			p.Context = append(p.Context, p.Data[rapid.IntRange(0, len(p.Data)-1).Draw(t, "i")].F)
		} else {
			cd := dim
			if rapid.IntRange(0, 3).Draw(t, "otherDim") == 0 {
				cd = rapid.IntRange(1, 6).Draw(t, "ctxDim")
			}
			p.Context = append(p.Context, vk.Vec(cd).Draw(t, "ctx"))
		}
	}
	p.NilCtx = len(p.Context) == 0 && rapid.Bool().Draw(t, "nil")
	p.Prio = rapid.Bool().Draw(t, "prio")
	p.Cfg = vk.SearchCfg{Func: rapid.SampledFrom(vk.ScoreNames).Draw(t, "func"), Higher: rapid.Bool().Draw(t, "higher"), Timeout: 1000}
	return p, dim
}

func genAgg(t *rapid.T) Plan {
	p, _ := base(t)
	if len(p.Data) > 0 {
		for i := rapid.IntRange(0, 30).Draw(t, "stream"); i > 0; i-- {
			p.Stream = append(p.Stream, rapid.IntRange(0, len(p.Data)-1).Draw(t, "k"))
			p.Scores = append(p.Scores, float64(rapid.IntRange(-40, 80).Draw(t, "score"))/8)
		}
	}
	p.Cfg.Limit = uint32(rapid.IntRange(1, 18).Draw(t, "limit"))
	if rapid.IntRange(0, 3).Draw(t, "rl") == 0 {
		p.Cfg.ResultLimit = uint64(rapid.IntRange(1, 8).Draw(t, "resultLimit"))
	}
	return p
}

func gen(t *rapid.T) Plan {
	p, dim := base(t)
	for i := rapid.IntRange(1, 3).Draw(t, "queries"); i > 0; i-- {
		p.Queries = append(p.Queries, vk.Vec(dim).Draw(t, "q"))
	}
	p.Cfg.Limit = 20 // every datum is a candidate
	if rapid.IntRange(0, 2).Draw(t, "rl") == 0 {
		p.Cfg.ResultLimit = uint64(rapid.IntRange(1, 18).Draw(t, "resultLimit"))
	}
	return p
}

func (p Plan) ctx() *pb.SearchContext {
	if p.NilCtx {
		return nil
	}
	s := &pb.SearchContext{Prioritize: p.Prio}
	for _, f := range p.Context {
		s.Datum = append(s.Datum, vk.D{F: f}.PB())
	}
	return s
}

// want is the score a candidate gets.
func (p Plan) want(d vk.D, own float64) float64 {
	if len(p.Context) == 0 {
		return own
	}
	best, set := own, !p.Prio
	for _, f := range p.Context {
		s := vk.Score(p.Cfg.Func, d.F, f)
		if !set || vk.Better(p.Cfg.Higher, s, best) {
			best, set = s, true
		}
	}
	return best
}

func (p Plan) judge(c *vk.Ctx, what string, got []*pb.ScoredDatum, own map[int][]float64) {
	var cands []vk.Scored
	changed := false
	for k, l := range own {
		best := 0.0
		for i, o := range l {
			s := p.want(p.Data[k], o)
			changed = changed || s != o
			if i == 0 || vk.Better(p.Cfg.Higher, s, best) {
				best = s
			}
		}
		cands = append(cands, vk.Scored{Key: p.Data[k].Key(), Vals: []string{p.Data[k].Val()}, Score: best})
	}
	limit := int(p.Cfg.Limit)
	if p.Cfg.ResultLimit > 0 && int(p.Cfg.ResultLimit) < limit {
		limit = int(p.Cfg.ResultLimit)
	}
	c.LabelIf(p.Prio && len(p.Context) > 0, "prioritized")
	c.LabelIf(changed, "rescored")
	c.LabelIf(len(p.Context) == 0, "no-context")
	c.NonTrivialIf(changed && len(cands) > 1)
	c.TopK(what, got, cands, p.Cfg.Higher, limit)
}

func runAgg(c *vk.Ctx, p Plan) {
	agg := data.NewAggrator(p.Cfg.PB(), false, p.ctx())
	own := map[int][]float64{}
	for i, k := range p.Stream {
		if err := agg.Insert(&pb.ScoredDatum{Datum: p.Data[k].PB(), Score: p.Scores[i]}); err != nil {
			c.Failf("insert-error", "%v", err)
		}
		own[k] = append(own[k], p.Scores[i])
	}
	p.judge(c, "merger", agg.Result(), own)
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	own := map[int][]float64{}
	for k, d := range p.Data {
		dt.Insert(d.PB(), nil)
		for _, q := range p.Queries {
			own[k] = append(own[k], vk.Score(p.Cfg.Func, d.F, q))
		}
	}
	var qs []*pb.Datum
	for _, q := range p.Queries {
		qs = append(qs, vk.D{F: q}.PB())
	}
	res, err := dt.MultiAggregatedSearch(qs, p.Cfg.PB(), p.ctx())
	if err != nil {
		c.Failf("search-error", "%v", err)
	}
	p.judge(c, "search", res, own)
}

func TestProperty(t *testing.T) {
	vk.Main(t,
		vk.Sub("merger", 12000, 300000, true, genAgg, runAgg),
		vk.Sub("search", 4000, 100000, true, gen, run),
	)
}

package c08

import (
	"fmt"
	"sort"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"vharness/vk"
)

var groups = []string{"", "a", "b", "c", "ab", "a\x00"}

func genData(t *rapid.T, dim, max int) []vk.D {
	var out []vk.D
	n := rapid.IntRange(0, max).Draw(t, "n")
	ng := rapid.IntRange(1, len(groups)).Draw(t, "groups")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		d := vk.D{F: vk.Vec(dim).Draw(t, "f"), G: groups[rapid.IntRange(0, ng-1).Draw(t, "g")], S1: uint32(rapid.IntRange(0, 2).Draw(t, "s")), L: fmt.Sprint("l", i)}
		if !seen[d.Key()] {
			seen[d.Key()] = true
			out = append(out, d)
		}
	}
	return out
}

// check compares a grouped result with the definition. members: key -> best score of that datum.
func check(c *vk.Ctx, got []*pb.ScoredDatum, ds map[string]vk.D, members map[string]float64, cfg vk.SearchCfg) {
	type grp struct {
		name  string
		best  float64
		score float64
		heads map[string]bool
	}
	by := map[string][]string{}
	for k := range members {
		g := ds[k].G
		by[g] = append(by[g], k)
	}
	gs := map[string]*grp{}
	big := false
	for g, ks := range by {
		sort.Slice(ks, func(i, j int) bool { return vk.Better(cfg.Higher, members[ks[i]], members[ks[j]]) })
		n := len(ks)
		if n > int(cfg.GroupLimit) {
			n = int(cfg.GroupLimit)
			big = true
		}
		x := &grp{name: g, best: members[ks[0]], heads: map[string]bool{}}
		for _, k := range ks[:n] {
			x.score += members[k]
		}
		if !cfg.Higher {
			x.score /= float64(n) * float64(n)
		}
		for _, k := range ks {
			if vk.Near(members[k], x.best) {
				x.heads[k] = true
			}
		}
		gs[g] = x
	}
	limit := int(cfg.Limit)
	if cfg.ResultLimit > 0 && int(cfg.ResultLimit) < limit {
		limit = int(cfg.ResultLimit)
	}
	want := len(gs)
	if limit < want {
		want = limit
	}
	c.LabelIf(big, "group-truncated")
	c.LabelIf(limit < len(gs), "groups-truncated")
	c.NonTrivialIf(len(gs) > 1 && big)
	desc := ""
	for _, r := range got {
		desc += fmt.Sprintf("(%q %s %v) ", r.GetDatum().GetKey().GetGroupLabel(), vk.KeyOf(r.Datum), r.Score)
	}
	seen := map[string]bool{}
	var worst *grp
	for i, r := range got {
		g := string(r.Datum.Key.GroupLabel)
		x, ok := gs[g]
		if !ok {
			c.Failf("alien-group", "group %q was never inserted: %s", g, desc)
		}
		if seen[g] {
			c.Failf("group-twice", "group %q returned twice: %s", g, desc)
		}
		seen[g] = true
		if !x.heads[vk.KeyOf(r.Datum)] {
			c.Failf("group-head", "group %q is carried by %s, best are %v: %s", g, vk.KeyOf(r.Datum), x.heads, desc)
		}
		if vk.ValOf(r.Datum) != ds[vk.KeyOf(r.Datum)].Val() {
			c.Failf("wrong-value", "value of %s", vk.KeyOf(r.Datum))
		}
		if !vk.Near(r.Score, x.score) {
			c.Failf("group-score", "group %q has score %v, want %v (members %v, group limit %d): %s", g, r.Score, x.score, by[g], cfg.GroupLimit, desc)
		}
		if i > 0 && vk.Better(cfg.Higher, r.Score, got[i-1].Score) && !vk.Near(r.Score, got[i-1].Score) {
			c.Failf("order", "groups out of order: %s", desc)
		}
		if worst == nil || vk.Better(cfg.Higher, worst.score, x.score) {
			worst = x
		}
	}
	if len(got) != want {
		c.Failf("group-count", "%d groups returned, want %d: %s", len(got), want, desc)
	}
	for g, x := range gs {
		if worst != nil && !seen[g] && vk.Better(cfg.Higher, x.score, worst.score) && !vk.Near(x.score, worst.score) {
			c.Failf("missing-better-group", "group %q (score %v) left out although %v was returned: %s", g, x.score, worst.score, desc)
		}
	}
}

type Agg struct {
	Data   []vk.D
	Stream []int
	Scores []int // quarters
	Cfg    vk.SearchCfg
}

func genAgg(t *rapid.T) Agg {
	var p Agg
	p.Data = genData(t, 1, 14)
	if len(p.Data) > 0 {
		n := rapid.IntRange(0, 40).Draw(t, "stream")
		for i := 0; i < n; i++ {
			p.Stream = append(p.Stream, rapid.IntRange(0, len(p.Data)-1).Draw(t, "i"))
			p.Scores = append(p.Scores, rapid.IntRange(-20, 40).Draw(t, "score"))
		}
	}
	p.Cfg = vk.SearchCfg{Func: "VectorDistance", Higher: rapid.Bool().Draw(t, "higher"), Limit: uint32(rapid.IntRange(1, 8).Draw(t, "limit")),
		GroupLimit: uint32(rapid.IntRange(1, 5).Draw(t, "groupLimit"))}
	if rapid.IntRange(0, 2).Draw(t, "rl") == 0 {
		p.Cfg.ResultLimit = uint64(rapid.IntRange(1, 6).Draw(t, "resultLimit"))
	}
	return p
}

func runAgg(c *vk.Ctx, p Agg) {
	agg := data.NewAggrator(p.Cfg.PB(), true, nil)
	best := map[string]float64{}
	ds := map[string]vk.D{}
	for i, k := range p.Stream {
		s := float64(p.Scores[i]) / 4
		d := p.Data[k]
		if err := agg.Insert(&pb.ScoredDatum{Datum: d.PB(), Score: s}); err != nil {
			c.Failf("insert-error", "%v", err)
		}
		ds[d.Key()] = d
		if old, ok := best[d.Key()]; !ok || vk.Better(p.Cfg.Higher, s, old) {
			best[d.Key()] = s
		}
	}
	check(c, agg.Result(), ds, best, p.Cfg)
}

type Plan struct {
	Data    []vk.D
	Where   []int // 0: local, 1: source, 2: both
	DelayMs int
	Queries [][]float32
	Cfg     vk.SearchCfg
}

func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 3).Draw(t, "dim")
	var p Plan
	p.Data = genData(t, dim, 25)
	for range p.Data {
		p.Where = append(p.Where, rapid.IntRange(0, 2).Draw(t, "where"))
	}
	p.DelayMs = rapid.SampledFrom([]int{0, 1, 100, 0, 1, 100, 250000, 310000, 700000}).Draw(t, "delay")
	for i := rapid.IntRange(1, 3).Draw(t, "queries"); i > 0; i-- {
		p.Queries = append(p.Queries, vk.Vec(dim).Draw(t, "q"))
	}
	p.Cfg = vk.SearchCfg{Func: rapid.SampledFrom(vk.ScoreNames).Draw(t, "func"), Higher: rapid.Bool().Draw(t, "higher"),
		Limit: uint32(rapid.SampledFrom([]int{30, 100}).Draw(t, "limit")), GroupLimit: uint32(rapid.IntRange(1, 5).Draw(t, "groupLimit")), Timeout: 1000}
	if p.DelayMs > 1000 {
		p.Cfg.Timeout = 3600000
	}
	if rapid.IntRange(0, 2).Draw(t, "rl") == 0 {
		p.Cfg.ResultLimit = uint64(rapid.IntRange(1, 6).Draw(t, "resultLimit"))
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	best := map[string]float64{}
	ds := map[string]vk.D{}
	other := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	for i, d := range p.Data {
		if p.Where[i] != 1 {
			dt.Insert(d.PB(), nil)
		}
		if p.Where[i] != 0 {
			other.Insert(d.PB(), nil)
		}
		ds[d.Key()] = d
		for j, q := range p.Queries {
			s := vk.Score(p.Cfg.Func, d.F, q)
			if j == 0 || vk.Better(p.Cfg.Higher, s, best[d.Key()]) {
				best[d.Key()] = s
			}
		}
	}
	dt.AddSource(&vk.Peer{ID: "s", OnSearch: func(q *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error {
		if p.DelayMs <= 1000 || vk.KeyOf(q) != (vk.D{F: p.Queries[0]}).Key() {
			time.Sleep(time.Duration(p.DelayMs) * time.Millisecond)
		}
		// a peer answers a search as a node does
		res, err := other.MultiAggregatedSearch([]*pb.Datum{q}, cfg, nil)
		if err != nil {
			return err
		}
		for _, r := range res {
			out <- proto.Clone(r).(*pb.ScoredDatum)
		}
		return nil
	}})
	var qs []*pb.Datum
	for _, q := range p.Queries {
		qs = append(qs, vk.D{F: q}.PB())
	}
	res, err := dt.MultiAggregatedSearch(qs, p.Cfg.PB(), nil)
	if err != nil {
		c.Failf("search-error", "%v", err)
	}
	c.LabelIf(p.DelayMs > 300000, "source-needs-more-than-five-minutes")
	check(c, res, ds, best, p.Cfg)
}

func TestProperty(t *testing.T) {
	vk.Main(t,
		vk.Sub("grouped-merger", 12000, 300000, true, genAgg, runAgg),
		vk.Sub("grouped-search", 3000, 80000, true, gen, run),
	)
}

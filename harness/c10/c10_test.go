package c10

import (
	"errors"
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Beh says when a source delivers (in percent of the search timeout).
type Beh struct {
	Start int  // before the first result
	Late  int  `json:"late,omitempty"` // pause after the first half of the results
	End   int  `json:"end,omitempty"`  // pause between the last result and the end of the call
	Fail  bool `json:"fail,omitempty"`
}

type Src struct {
	Has  []int
	Bulk int   `json:"bulk,omitempty"` // this many further datums
	Beh  []Beh // by query number (cyclic)
}

type Plan struct {
	Data    []vk.D
	Local   []int
	Bulk    int // further local datums
	Sources []Src
	Queries [][]float32
	Extra   int `json:"extra,omitempty"` // further queries
	Again   []float32
	Cfg     vk.SearchCfg
	Via     string // multi, aggregated
}

func subset(t *rapid.T, n int, name string) []int {
	var out []int
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, name) {
			out = append(out, i)
		}
	}
	return out
}

func genBeh(t *rapid.T) Beh {
	early := rapid.SampledFrom([]int{0, 0, 1, 10, 50, 70})
	switch rapid.IntRange(0, 6).Draw(t, "beh") {
	case 0, 1:
		return Beh{Start: early.Draw(t, "start")}
	case 2:
		return Beh{Start: rapid.SampledFrom([]int{105, 150, 2000}).Draw(t, "start")}
	case 3:
		return Beh{Start: early.Draw(t, "start"), Late: rapid.SampledFrom([]int{110, 500}).Draw(t, "late")}
	case 4:
		return Beh{Start: early.Draw(t, "start"), End: rapid.SampledFrom([]int{110, 500}).Draw(t, "end")}
	case 5:
		return Beh{Start: rapid.SampledFrom([]int{0, 50, 300}).Draw(t, "start"), Fail: true}
	}
	return Beh{}
}

func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 3).Draw(t, "dim")
	var p Plan
	seen := map[string]bool{}
	for i, n := 0, rapid.IntRange(0, 12).Draw(t, "n"); i < n; i++ {
		d := vk.D{F: vk.Vec(dim).Draw(t, "f"), L: fmt.Sprint("l", i)}
		if !seen[d.Key()] {
			seen[d.Key()] = true
			p.Data = append(p.Data, d)
		}
	}
	bulk := rapid.SampledFrom([]int{0, 0, 0, 99, 101, 130, 250})
	p.Local = subset(t, len(p.Data), "local")
	p.Bulk = bulk.Draw(t, "localBulk")
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "sources"); i < n; i++ {
		s := Src{Has: subset(t, len(p.Data), "has"), Bulk: bulk.Draw(t, "bulk")}
		for j, m := 0, rapid.IntRange(1, 2).Draw(t, "behs"); j < m; j++ {
			s.Beh = append(s.Beh, genBeh(t))
		}
		p.Sources = append(p.Sources, s)
	}
	nq := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "queries")
	qs := map[string]bool{}
	for len(p.Queries) < nq {
		q := vk.Vec(dim).Draw(t, "q")
		if qs[vk.D{F: q}.Key()] {
			q = []float32{float32(50 + len(p.Queries))}
		}
		qs[vk.D{F: q}.Key()] = true
		p.Queries = append(p.Queries, q)
	}
	p.Again = []float32{99}
	p.Cfg = vk.SearchCfg{Func: rapid.SampledFrom([]string{"VectorDistance", "VectorMultiplication"}).Draw(t, "func"), Higher: rapid.Bool().Draw(t, "higher"),
		Limit: uint32(rapid.SampledFrom([]int{1, 2, 5, 20, 99, 100, 101, 300, 700}).Draw(t, "limit")), Timeout: rapid.SampledFrom([]uint64{100, 1000, 7777, 60000, 100, 1000, 0, 1, 2, 5, 9, 20, 33}).Draw(t, "timeout")}
	p.Via = rapid.SampledFrom([]string{"multi", "multi", "aggregated"}).Draw(t, "via")
	if p.Via == "aggregated" {
		p.Queries = p.Queries[:1]
	} else if rapid.IntRange(0, 29).Draw(t, "many") == 0 {
		p.Extra = rapid.SampledFrom([]int{40, 120, 250}).Draw(t, "extra")
		p.Bulk = min(p.Bulk, 20)
		for i := range p.Sources {
			p.Sources[i].Bulk = min(p.Sources[i].Bulk, 20)
		}
	}
	return p
}

// genLong draws searches that may take as long as anyone could wait; every source answers within a minute.
func genLong(t *rapid.T) Plan {
	p := gen(t)
	for i := range p.Sources {
		for j, b := range p.Sources[i].Beh {
			p.Sources[i].Beh[j] = Beh{Start: b.Start % 101, Fail: b.Fail}
		}
	}
	p.Cfg.Timeout = rapid.OneOf(rapid.SampledFrom([]uint64{3600000, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, math.MaxInt64 / 1000000, math.MaxInt64/1000000 + 1, 10000000000000, 1 << 44, 1 << 45, 18446744073709, 18446744073710, 20000000000000, 1 << 53, math.MaxInt64, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}), rapid.Uint64Min(3600000)).Draw(t, "long")
	return p
}

func run(c *vk.Ctx, p Plan) {
	c.ExpectNoLeak()
	T := time.Duration(p.Cfg.Timeout) * time.Millisecond
	if p.Cfg.Timeout > 60000 {
		T = time.Minute
		c.NonTrivialIf(len(p.Sources) > 0)
		c.LabelIf(p.Cfg.Timeout > math.MaxInt64/1000000, "more-than-292-years")
	}
	for i := 0; i < p.Extra; i++ {
		p.Queries = append(p.Queries, []float32{float32(200 + i), 1})
		c.Label("more-than-40-queries")
	}
	pct := func(n int) time.Duration { return T * time.Duration(n) / 100 }
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	holder := map[string][]int{} // key -> sources, -1 local
	all := map[string]vk.D{}
	put := func(dst *data.Data, d vk.D, who int) {
		if err := dst.Insert(d.PB(), nil); err != nil {
			c.Failf("insert", "%v", err)
		}
		all[d.Key()] = d
		holder[d.Key()] = append(holder[d.Key()], who)
	}
	bulk := func(dst *data.Data, n, who int) {
		for i := 0; i < n; i++ {
			put(dst, vk.D{F: []float32{float32(i%17) - 8, float32(i) / 16, 1}, G: fmt.Sprint("bulk", who)}, who)
		}
	}
	for _, i := range p.Local {
		put(dt, p.Data[i], -1)
	}
	bulk(dt, p.Bulk, -1)
	qi := map[string]int{}
	for i, q := range p.Queries {
		qi[vk.D{F: q}.Key()] = i
	}
	var calls sync.WaitGroup
	calm := false
	for j, s := range p.Sources {
		in := c.NewData(&pb.DataConfig{Name: fmt.Sprintf("s%d", j), NoTarget: true})
		for _, i := range s.Has {
			put(in, p.Data[i], j)
		}
		bulk(in, s.Bulk, j)
		s := s
		dt.AddSource(&vk.Peer{ID: fmt.Sprintf("s%d", j), OnSearch: func(d *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error {
			calls.Add(1)
			defer calls.Done()
			b := Beh{}
			if i, ok := qi[vk.KeyOf(d)]; ok && !calm {
				b = s.Beh[i%len(s.Beh)]
			}
			col := in.Search(d, cfg, nil)
			time.Sleep(pct(b.Start))
			if b.Fail {
				return errors.New("scripted failure")
			}
			for i, r := range col.List {
				if i == (len(col.List)+1)/2 && b.Late > 0 {
					time.Sleep(pct(b.Late))
				}
				out <- r
			}
			time.Sleep(pct(b.End))
			return nil
		}})
	}
	ask := func(queries [][]float32) ([]*pb.ScoredDatum, time.Duration) {
		var qs []*pb.Datum
		for _, q := range queries {
			qs = append(qs, vk.D{F: q}.PB())
		}
		start := time.Now()
		if p.Via == "multi" {
			res, err := dt.MultiAggregatedSearch(qs, p.Cfg.PB(), nil)
			if err != nil {
				c.Failf("search-error", "%v", err)
			}
			return res, time.Since(start)
		}
		out := make(chan *pb.ScoredDatum, 2000)
		var wg sync.WaitGroup
		wg.Add(1)
		if err := dt.AggregatedSearch(qs[0], out, &wg, p.Cfg.PB()); err != nil {
			c.Failf("search-error", "%v", err)
		}
		wg.Wait()
		el := time.Since(start)
		var got []*pb.ScoredDatum
		for len(out) > 0 {
			got = append(got, <-out)
		}
		return got, el
	}
	cands := func(queries [][]float32, quiet bool) (must, opt []vk.Scored) {
		for k, d := range all {
			var have, may bool
			var hs, ms float64
			for i, q := range queries {
				sc := vk.Score(p.Cfg.Func, d.F, q)
				sure, maybe := false, false
				for _, h := range holder[k] {
					if h < 0 || quiet {
						sure = true
						continue
					}
					b := p.Sources[h].Beh[i%len(p.Sources[h].Beh)]
					switch {
					case b.Fail || b.Start > 100:
					case b.Late > 0 || b.End > 0:
						maybe = true // the source did not finish in time
					default:
						sure = true
					}
				}
				if sure && (!have || vk.Better(p.Cfg.Higher, sc, hs)) {
					have, hs = true, sc
				}
				if (sure || maybe) && (!may || vk.Better(p.Cfg.Higher, sc, ms)) {
					may, ms = true, sc
				}
			}
			s := vk.Scored{Key: k, Vals: []string{d.Val()}, Score: hs}
			if may && (!have || hs != ms) {
				// its score depends on what an unfinished source managed to say: left out of the exact part
				opt = append(opt, vk.Scored{Key: k, Vals: s.Vals, Score: ms})
				if have {
					opt[len(opt)-1].Alt = []float64{hs}
				}
				for i, q := range queries {
					_ = i
					opt[len(opt)-1].Alt = append(opt[len(opt)-1].Alt, vk.Score(p.Cfg.Func, d.F, q))
				}
			} else if have {
				must = append(must, s)
			}
		}
		return
	}
	tiny := func(must, opt []vk.Scored, queries [][]float32) []vk.Scored {
		opt = append(opt, must...)
		for i, s := range opt {
			for _, q := range queries {
				opt[i].Alt = append(opt[i].Alt, vk.Score(p.Cfg.Func, all[s.Key].F, q))
			}
		}
		return opt
	}
	var slow, failing, many bool
	for _, s := range p.Sources {
		for _, b := range s.Beh {
			slow = slow || b.Start > 100 || b.Late > 0 || b.End > 0
			failing = failing || b.Fail
		}
		many = many || (s.Bulk > 100 && p.Cfg.Limit > 100)
	}
	many = many || (p.Bulk > 100 && p.Cfg.Limit > 100)
	c.LabelIf(slow, "slow-source")
	c.LabelIf(failing, "failing-source")
	c.LabelIf(many && slow, "slow-and-more-than-100-results")
	c.LabelIf(len(p.Queries) > 1, "multi-query")
	c.NonTrivialIf(slow && len(all) > 0)
	res, el := ask(p.Queries)
	if el > T {
		c.Failf("late-answer", "answered after %v, timeout %v", el, T)
	}
	must, opt := cands(p.Queries, false)
	if p.Cfg.Timeout < 20 { // too short to promise more than an answer in time
		must, opt = nil, tiny(must, opt, p.Queries)
		c.Label("tiny-timeout")
	}
	c.TopKOpt("answer", res, must, opt, p.Cfg.Higher, int(p.Cfg.Limit))
	kept := make([]string, len(res))
	for i, r := range res {
		kept[i] = fmt.Sprint(vk.KeyOf(r.Datum), r.Score)
	}
	// another query, while late results of the first are still arriving
	if el < T {
		time.Sleep(T - el)
	}
	calm = true
	res2, el2 := ask([][]float32{p.Again})
	if el2 > T {
		c.Failf("late-answer", "second query answered after %v, timeout %v", el2, T)
	}
	must, opt = cands([][]float32{p.Again}, true)
	if p.Cfg.Timeout < 20 {
		must, opt = nil, tiny(must, opt, [][]float32{p.Again})
	}
	c.TopKOpt("second query", res2, must, opt, p.Cfg.Higher, int(p.Cfg.Limit))
	time.Sleep(100 * T)
	c.Settle()
	for i, r := range res {
		if kept[i] != fmt.Sprint(vk.KeyOf(r.Datum), r.Score) {
			c.Failf("answer-changed", "result %d changed after the answer was given", i)
		}
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t,
		vk.Sub("timeouts", 2000, 60000, true, gen, run),
		vk.Sub("long", 500, 15000, true, genLong, run),
	)
}

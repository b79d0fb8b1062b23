package c11

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// All datums are one-dimensional integers, queries sit at k+0.3, +0.32, +0.34 and contexts at k+0.41, so that no two scores tie.

type Op struct {
	Op  string // put, del, sleep, query
	I   int    `json:"i,omitempty"`
	L   string `json:"l,omitempty"`
	S   int    `json:"s,omitempty"` // units of 0.7 s
	Q   []int  `json:"q,omitempty"`
	Cfg int    `json:"cfg,omitempty"`
	Ctx int    `json:"ctx,omitempty"` // 0: none, k: context at k+0.41, negative: prioritized
	Agn int    `json:"agn,omitempty"` // repeat the query this many times
}

type Plan struct {
	Cfgs []vk.SearchCfg
	Ops  []Op
}

var paths = [][]string{nil, {"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {"a"}, {"b"}, {"x,y"}, {"xy"}, {"a", "x"}}

func gen(t *rapid.T) Plan {
	var p Plan
	d := rapid.SampledFrom([]uint64{1, 2, 5, 30, 1, 2, 5, 30, 1 << 32, 9223372036, 9223372037, 18446744074, 1 << 40, 1 << 62, 1 << 63, math.MaxUint64 / 2}).Draw(t, "duration")
	nc := rapid.IntRange(1, 4).Draw(t, "cfgs")
	base := vk.SearchCfg{Func: "VectorDistance", Limit: 3, Timeout: 1000, Cache: d}
	for i := 0; i < nc; i++ {
		c := base
		if i > 0 && rapid.Bool().Draw(t, "near") { // differs from another one in few fields
			c = p.Cfgs[rapid.IntRange(0, i-1).Draw(t, "of")]
		}
		changes := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "changes")
		if i > 0 && changes == 0 {
			changes = 1
		}
		for ; changes > 0; changes-- {
			switch rapid.IntRange(0, 8).Draw(t, "field") {
			case 0:
				c.Limit = uint32(rapid.IntRange(1, 6).Draw(t, "limit"))
			case 1:
				c.Higher = !c.Higher
			case 2:
				c.Func = rapid.SampledFrom([]string{"QuickVectorDistance", "VectorMultiplication"}).Draw(t, "func")
			case 3:
				c.Filters = rapid.SampledFrom(paths).Draw(t, "filters")
			case 4:
				c.GroupFilters = rapid.SampledFrom(paths).Draw(t, "groupFilters")
			case 5:
				c.GroupLimit = uint32(rapid.IntRange(1, 3).Draw(t, "groupLimit"))
			case 6:
				c.Cache = rapid.SampledFrom([]uint64{0, d, d + 1, 2 * d}).Draw(t, "cache")
			case 7:
				c.Timeout = 2000
			case 8:
				c.Filters, c.GroupFilters = c.GroupFilters, c.Filters
			}
		}
		p.Cfgs = append(p.Cfgs, c)
	}
	n := rapid.IntRange(2, 30).Draw(t, "ops")
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
		case k < 3:
			p.Ops = append(p.Ops, Op{Op: "put", I: rapid.IntRange(0, 9).Draw(t, "i"), L: rapid.SampledFrom([]string{`{"x":1}`, `{"y":2}`, `{"x":1,"y":2}`, `{"a":1,"x":0}`, "plain"}).Draw(t, "l")})
		case k < 4:
			p.Ops = append(p.Ops, Op{Op: "del", I: rapid.IntRange(0, 9).Draw(t, "i")})
		case k < 6:
			p.Ops = append(p.Ops, Op{Op: "sleep", S: rapid.SampledFrom([]int{1, 1, 2, 3, 8, 50}).Draw(t, "s")})
		default:
			o := Op{Op: "query", Cfg: rapid.IntRange(0, nc-1).Draw(t, "cfg"), Agn: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "again")}
			o.Q = rapid.SliceOfNDistinct(rapid.IntRange(3, 5), 1, 3, rapid.ID[int]).Draw(t, "q")
			if len(o.Q) > 1 && rapid.Bool().Draw(t, "single") {
				o.Q = o.Q[:1]
			}
			// grouped searches with a context are outside the stated properties
			if p.Cfgs[o.Cfg].GroupLimit == 0 && rapid.IntRange(0, 2).Draw(t, "hasctx") == 0 {
				o.Ctx = rapid.SampledFrom([]int{1, 7, -1, -7}).Draw(t, "ctx")
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

func item(i int, l string) vk.D {
	return vk.D{F: []float32{float32(i)}, G: fmt.Sprintf(`{%q:1}`, []string{"a", "b", "x", "y", "xy"}[i%5]), L: l}
}

func at(q int) []float32 { return []float32{float32(q) + 0.3 + 0.02*float32(q-3)} }

type cached struct {
	list  []scored
	until time.Time
}

type scored struct {
	d vk.D
	s float64
}

func match(d vk.D, c vk.SearchCfg) bool {
	has := func(doc, path string) bool {
		var m map[string]any
		if json.Unmarshal([]byte(doc), &m) != nil {
			return false
		}
		_, ok := m[path]
		return ok
	}
	for _, f := range c.Filters {
		if !has(d.L, f) {
			return false
		}
	}
	for _, f := range c.GroupFilters {
		if !has(d.G, f) {
			return false
		}
	}
	return true
}

func top(l []scored, higher bool, limit int) []scored {
	l = append([]scored(nil), l...)
	sort.Slice(l, func(i, j int) bool { return vk.Better(higher, l[i].s, l[j].s) })
	if len(l) > limit {
		l = l[:limit]
	}
	return l
}

func run(c *vk.Ctx, p Plan) {
	local := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	remote := c.NewData(&pb.DataConfig{Name: "r", NoTarget: true})
	src := &vk.Peer{ID: "r", OnSearch: func(q *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error {
		for _, r := range remote.Search(q, cfg, nil).List {
			out <- r
		}
		return nil
	}}
	model := map[int]vk.D{}
	cache := map[string]cached{}
	var hits, staleHits, expired bool
	for n, op := range p.Ops {
		dt := local
		if op.I%2 == 1 {
			dt = remote
		}
		switch op.Op {
		case "put":
			d := item(op.I, op.L)
			if err := dt.Insert(d.PB(), nil); err != nil {
				c.Failf("insert", "%v", err)
			}
			model[op.I] = d
		case "del":
			dt.Delete(item(op.I, "").PB())
			delete(model, op.I)
		case "sleep":
			c.Sleep(time.Duration(op.S) * 700 * time.Millisecond)
			local.AddSource(src)
		case "query":
			local.AddSource(src)
			for rep := 0; rep <= op.Agn; rep++ {
				cfg := p.Cfgs[op.Cfg]
				var cands []scored
				best := map[string]int{}
				for _, q := range op.Q {
					qf := at(q)
					kc := cfg
					key := fmt.Sprintf("%v %+v", q, kc)
					var list []scored
					e, have := cache[key]
					fresh := []scored{}
					for _, d := range model {
						if match(d, cfg) {
							fresh = append(fresh, scored{d, vk.Score(cfg.Func, d.F, qf)})
						}
					}
					fresh = top(fresh, cfg.Higher, int(cfg.Limit))
					if have && cfg.Cache > 0 && time.Now().Before(e.until) {
						list = e.list
						hits = true
						staleHits = staleHits || fmt.Sprint(fresh) != fmt.Sprint(list)
					} else {
						expired = expired || have
						list = fresh
						if cfg.Cache > 0 {
							cache[key] = cached{list, time.Now().Add(time.Duration(min(cfg.Cache, 1000000)) * time.Second)}
						}
					}
					for _, s := range list {
						if op.Ctx != 0 {
							x := op.Ctx
							if x < 0 {
								x = -x
							}
							cs := vk.Score(cfg.Func, s.d.F, []float32{float32(x) + 0.41})
							if op.Ctx < 0 || vk.Better(cfg.Higher, cs, s.s) {
								s.s = cs
							}
						}
						if j, dup := best[s.d.Key()]; dup {
							if vk.Better(cfg.Higher, s.s, cands[j].s) {
								cands[j] = s
							}
							// copies cached at different times may carry different labels; both are fine
							continue
						}
						best[s.d.Key()] = len(cands)
						cands = append(cands, s)
					}
				}
				labels := map[string]map[string]bool{}
				for _, q := range op.Q {
					if e, ok := cache[fmt.Sprintf("%v %+v", q, cfg)]; ok {
						for _, s := range e.list {
							if labels[s.d.Key()] == nil {
								labels[s.d.Key()] = map[string]bool{}
							}
							labels[s.d.Key()][s.d.Val()] = true
						}
					}
				}
				want := top(cands, cfg.Higher, int(cfg.Limit))
				if cfg.GroupLimit > 0 {
					want = group(cands, cfg)
				}
				all := cands
				if cfg.GroupLimit > 0 {
					g := cfg
					g.Limit = 1000
					all = group(cands, g)
				}
				tie := false
				for i := range all {
					for j := range all[:i] {
						tie = tie || math.Abs(all[i].s-all[j].s) < 1e-4
					}
				}
				var qs []*pb.Datum
				for _, q := range op.Q {
					qs = append(qs, vk.D{F: at(q)}.PB())
				}
				pcfg := cfg.PB()
				pcfg.Uuid = fmt.Sprintf("u%d-%d", n, rep)
				var sctx *pb.SearchContext
				if op.Ctx != 0 {
					x := op.Ctx
					if x < 0 {
						x = -x
					}
					sctx = &pb.SearchContext{Datum: []*pb.Datum{vk.D{F: []float32{float32(x) + 0.41}}.PB()}, Prioritize: op.Ctx < 0}
				}
				res, err := local.MultiAggregatedSearch(qs, pcfg, sctx)
				if err != nil {
					c.Failf("search-error", "%v", err)
				}
				c.Settle() // the answer is given before it is kept for later queries
				desc := fmt.Sprintf("op %d rep %d: got", n, rep)
				for _, r := range res {
					desc += fmt.Sprintf(" (%v %s %v)", r.Datum.Key.Feature, r.Datum.Value.Label, r.Score)
				}
				desc += ", want"
				for _, w := range want {
					desc += fmt.Sprintf(" (%v %s %v)", w.d.F, w.d.L, w.s)
				}
				c.LabelIf(tie, "tie")
				if tie { // the order is not determined
					continue
				}
				if len(res) != len(want) {
					c.Failf("answer", "%s", desc)
				}
				for i, r := range res {
					w := want[i]
					if vk.KeyOf(r.Datum) != w.d.Key() || !(vk.ValOf(r.Datum) == w.d.Val() || len(op.Q) > 1 && labels[w.d.Key()][vk.ValOf(r.Datum)]) || math.Abs(r.Score-w.s) > 1e-5 {
						c.Failf("answer", "%s", desc)
					}
					r.Score = 12345 // answers belong to the caller
				}
			}
		}
	}
	c.LabelIf(hits, "hit")
	c.LabelIf(staleHits, "stale-hit")
	c.LabelIf(expired, "recomputed")
	c.NonTrivialIf(staleHits)
}

func group(cands []scored, cfg vk.SearchCfg) []scored {
	by := map[string][]scored{}
	for _, s := range cands {
		by[s.d.G] = append(by[s.d.G], s)
	}
	var gs []scored
	for _, m := range by {
		m = top(m, cfg.Higher, int(cfg.GroupLimit))
		sum := 0.0
		for _, s := range m {
			sum += s.s
		}
		if !cfg.Higher {
			sum /= float64(len(m) * len(m))
		}
		gs = append(gs, scored{m[0].d, sum})
	}
	return top(gs, cfg.Higher, int(cfg.Limit))
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 12000, 120000, true, gen, run))
}

package c17

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Op  string // put, del, process, sleep, query
	I   int    `json:"i,omitempty"`
	L   string `json:"l,omitempty"`
	TTL uint64 `json:"ttl,omitempty"`
	Q   []float32
	Cfg vk.SearchCfg
}

type Plan struct {
	Keys []vk.D
	Ops  []Op
}

func genCfg(t *rapid.T) vk.SearchCfg {
	c := vk.SearchCfg{Func: rapid.SampledFrom(vk.AnnoyNames).Draw(t, "func"), Higher: rapid.Bool().Draw(t, "higher"), Limit: uint32(rapid.SampledFrom([]int{0, 1, 2, 3, 10, 2000, 1 << 31, 1<<32 - 1}).Draw(t, "limit")), Timeout: 1000}
	if rapid.IntRange(0, 3).Draw(t, "filter") == 0 {
		c.Filters = []string{"x"}
	}
	if rapid.IntRange(0, 5).Draw(t, "gfilter") == 0 {
		c.GroupFilters = []string{"a"}
	}
	return c
}

// small: few enough datums that they fit one leaf of the index (which holds dimension+2 items).
func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 8).Draw(t, "dim")
	var p Plan
	seen := map[string]bool{}
	max := dim + 2
	if rapid.IntRange(0, 2).Draw(t, "large") == 0 {
		max = 30
	}
	for i, n := 0, rapid.IntRange(1, max).Draw(t, "keys"); i < n; i++ {
		d := vk.D{F: vk.NonZeroVec(dim).Draw(t, "f"), G: rapid.SampledFrom([]string{"", `{"a":1}`, `{"b":1}`}).Draw(t, "g")}
		if !seen[d.Key()] {
			seen[d.Key()] = true
			p.Keys = append(p.Keys, d)
		}
	}
	put := func(i int) Op {
		return Op{Op: "put", I: i, L: rapid.SampledFrom([]string{"", `{"x":1}`, `{"y":1}`}).Draw(t, "l"), TTL: rapid.SampledFrom([]uint64{0, 0, 0, 5, 50}).Draw(t, "ttl")}
	}
	if rapid.Bool().Draw(t, "fill") {
		for i := range p.Keys {
			p.Ops = append(p.Ops, put(i))
		}
		p.Ops = append(p.Ops, Op{Op: "process"})
	}
	for n := rapid.IntRange(1, 25).Draw(t, "ops"); n > 0; n-- {
		i := rapid.IntRange(0, len(p.Keys)-1).Draw(t, "i")
		switch k := rapid.IntRange(0, 12).Draw(t, "op"); {
		case k < 2:
			p.Ops = append(p.Ops, put(i))
		case k < 4:
			p.Ops = append(p.Ops, Op{Op: "del", I: i})
		case k < 5:
			for j := range p.Keys {
				p.Ops = append(p.Ops, Op{Op: "del", I: j})
			}
			p.Ops = append(p.Ops, Op{Op: "process"})
		case k < 7:
			p.Ops = append(p.Ops, Op{Op: "process"})
		case k < 8:
			p.Ops = append(p.Ops, Op{Op: "sleep", I: rapid.SampledFrom([]int{1, 6, 61, 700}).Draw(t, "s")})
		default:
			q := vk.NonZeroVec(dim).Draw(t, "q")
			if rapid.Bool().Draw(t, "stored") {
				q = p.Keys[i].F
			}
			p.Ops = append(p.Ops, Op{Op: "query", Q: q, Cfg: genCfg(t)})
		}
	}
	return p
}

type ent struct {
	d   vk.D
	exp int64
}

func has(doc, path string) bool {
	var m map[string]any
	if json.Unmarshal([]byte(doc), &m) != nil {
		return false
	}
	_, ok := m[path]
	return ok
}

func passes(d vk.D, c vk.SearchCfg) bool {
	return (len(c.Filters) == 0 || has(d.L, "x")) && (len(c.GroupFilters) == 0 || has(d.G, "a"))
}

func alive(m map[string]ent) map[string]ent {
	out := map[string]ent{}
	for k, e := range m {
		if e.exp == 0 || e.exp > time.Now().Unix() {
			out[k] = e
		}
	}
	return out
}

// sound checks what every answer must satisfy; pool: acceptable datums.
func sound(c *vk.Ctx, what string, got []*pb.ScoredDatum, pools []map[string]ent, q []float32, cfg vk.SearchCfg) {
	if len(got) > int(cfg.Limit) {
		c.Failf("limit", "%s: %d results for limit %d", what, len(got), cfg.Limit)
	}
	seen := map[string]bool{}
	for _, g := range got {
		k := vk.KeyOf(g.Datum)
		if seen[k] {
			c.Failf("duplicate-result", "%s: %s returned twice", what, k)
		}
		seen[k] = true
		ok := false
		for _, m := range pools {
			if e, in := m[k]; in && e.d.Val() == vk.ValOf(g.Datum) {
				ok = true
			}
		}
		if !ok {
			c.Failf("stale-result", "%s: %s=%s was not live at the last processing pass", what, k, vk.ValOf(g.Datum))
		}
		if !passes(vk.FromPB(g.Datum), cfg) {
			c.Failf("filter", "%s: %s=%s does not pass the filters", what, k, vk.ValOf(g.Datum))
		}
		if want := vk.Score(cfg.Func, q, g.Datum.Key.Feature); !vk.Near(g.Score, want) {
			c.Failf("wrong-score", "%s: %s has score %v, want %v", what, k, g.Score, want)
		}
	}
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	model := map[string]ent{}
	var snap map[string]ent
	dim := len(p.Keys[0].F)
	var emptied, exact, approx, changed bool
	process := func() {
		dt.Process(true)
		was := len(snap)
		snap = alive(model)
		emptied = emptied || (was > 0 && len(snap) == 0)
	}
	for n, op := range p.Ops {
		switch op.Op {
		case "put":
			d := p.Keys[op.I]
			d.L = op.L
			dt.Insert(d.PB(), &pb.InsertConfig{TTL: op.TTL, Count: uint64(op.I % 3)})
			e := ent{d: d}
			if op.TTL > 0 {
				e.exp = time.Now().Unix() + int64(op.TTL)
			}
			model[d.Key()] = e
		case "del":
			dt.Delete(p.Keys[op.I].PB())
			delete(model, p.Keys[op.I].Key())
		case "process":
			process()
		case "sleep":
			c.Sleep(time.Duration(op.I) * time.Second)
			process()
		case "query":
			what := fmt.Sprintf("op %d", n)
			q := vk.D{F: op.Q}
			got := dt.SearchAnnoy(q.PB(), op.Cfg.PB()).List
			if len(snap) == 0 {
				// no index: exact search
				exact = true
				var cands []vk.Scored
				for k, e := range alive(model) {
					if passes(e.d, op.Cfg) {
						cands = append(cands, vk.Scored{Key: k, Vals: []string{e.d.Val()}, Score: vk.Score(op.Cfg.Func, e.d.F, op.Q)})
					}
				}
				c.TopK(what+" (no index)", got, cands, op.Cfg.Higher, int(op.Cfg.Limit))
				continue
			}
			approx = true
			changed = changed || len(snap) != len(alive(model))
			sound(c, what, got, []map[string]ent{snap}, op.Q, op.Cfg)
			if len(snap) <= dim+2 {
				// one leaf: exactly the angular neighbours
				var cands []vk.Scored
				for k, e := range snap {
					if passes(e.d, op.Cfg) {
						cands = append(cands, vk.Scored{Key: k, Score: cosine(e.d.F, op.Q)})
					}
				}
				neighbours(c, what, got, cands, op.Q, int(op.Cfg.Limit))
			} else if op.Cfg.Limit > 0 && len(op.Cfg.Filters)+len(op.Cfg.GroupFilters) == 0 && len(got) == 0 {
				c.Failf("nothing-found", "%s: no result at all from %d datums", what, len(snap))
			}
		}
	}
	c.LabelIf(emptied, "emptied")
	c.LabelIf(exact, "no-index")
	c.LabelIf(changed, "changed-since-pass")
	c.NonTrivialIf(approx && len(p.Keys) > 1)
}

func cosine(a, b []float32) float64 { return vk.RefScore("CosineSimilarity", a, b) }

func neighbours(c *vk.Ctx, what string, got []*pb.ScoredDatum, cands []vk.Scored, q []float32, limit int) {
	want := len(cands)
	if limit < want {
		want = limit
	}
	if len(got) != want {
		c.Failf("result-count", "%s: %d results, want %d", what, len(got), want)
	}
	in := map[string]bool{}
	worst := 2.0
	for i, g := range got {
		cs := cosine(g.Datum.Key.Feature, q)
		worst = math.Min(worst, cs)
		in[vk.KeyOf(g.Datum)] = true
		if i > 0 && cs > cosine(got[i-1].Datum.Key.Feature, q)+1e-5 {
			c.Failf("angular-order", "%s: result %d is nearer than its predecessor", what, i)
		}
	}
	for _, s := range cands {
		if !in[s.Key] && len(got) > 0 && s.Score > worst+1e-5 {
			c.Failf("not-nearest", "%s: %s (cosine %v) left out although %v was returned", what, s.Key, s.Score, worst)
		}
	}
}

// Find: many datums in general position; each is found by its own vector.
type Find struct {
	Seed   int64
	Dim    int
	N      int
	First  int // of which indexed in an earlier pass
	Remove int
	Probes int
	Limit  int
	Func   string
}

func genFind(t *rapid.T) Find {
	p := Find{Seed: rapid.Int64Range(1, 1<<40).Draw(t, "seed"), Dim: rapid.SampledFrom([]int{2, 3, 8, 30, 100}).Draw(t, "dim"),
		N:      rapid.OneOf(rapid.IntRange(1, 60), rapid.IntRange(1, 600), rapid.SampledFrom([]int{999, 1000, 1001, 1500, 2500})).Draw(t, "n"),
		Probes: rapid.IntRange(1, 30).Draw(t, "probes"), Limit: rapid.IntRange(1, 20).Draw(t, "limit"), Func: rapid.SampledFrom(vk.AnnoyNames).Draw(t, "func")}
	p.First = rapid.IntRange(0, p.N).Draw(t, "first")
	if rapid.Bool().Draw(t, "onepass") {
		p.First = 0
	}
	p.Remove = rapid.IntRange(0, p.N-1).Draw(t, "remove")
	if rapid.Bool().Draw(t, "keep") {
		p.Remove = 0
	}
	return p
}

func runFind(c *vk.Ctx, p Find) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	r := rand.New(rand.NewSource(p.Seed))
	all := make([]vk.D, p.N)
	for i := range all {
		f := make([]float32, p.Dim)
		for j := range f {
			f[j] = float32(r.NormFloat64())
		}
		all[i] = vk.D{F: f, L: fmt.Sprint(i)}
	}
	snap := map[string]ent{}
	for i, d := range all {
		if i == p.First && i > 0 {
			dt.Process(true)
		}
		dt.Insert(d.PB(), nil)
	}
	if p.First > 0 {
		for _, d := range all[:p.Remove] {
			dt.Delete(d.PB())
		}
		all = all[p.Remove:]
	}
	dt.Process(true)
	for _, d := range all {
		snap[d.Key()] = ent{d: d}
	}
	c.LabelIf(p.N > 1000, "more-than-1000")
	c.LabelIf(p.First > 0, "incremental")
	c.NonTrivialIf(len(all) > p.Dim+2)
	cfg := vk.SearchCfg{Func: p.Func, Higher: true, Limit: uint32(p.Limit)}
	for i := 0; i < p.Probes; i++ {
		d := all[r.Intn(len(all))]
		got := dt.SearchAnnoy(d.PB(), cfg.PB()).List
		sound(c, "probe", got, []map[string]ent{snap}, d.F, cfg)
		found := false
		for _, g := range got {
			found = found || cosine(g.Datum.Key.Feature, d.F) > 1-1e-6
		}
		if !found {
			c.Failf("not-found", "searching for a stored vector (dim %d, %d datums, limit %d) found %d others but not it", p.Dim, len(all), p.Limit, len(got))
		}
	}
}

// Dims: vectors of any length, also empty.
type Dims struct {
	Keys   []vk.D
	Rounds [][]int // keys inserted before each pass
	Drop   []int   // deleted before the last pass
	Q      [][]float32
	Cfg    vk.SearchCfg
}

func genDims(t *rapid.T) Dims {
	var p Dims
	dims := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 40, 300}), 1, 3).Draw(t, "dims")
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "keys"); i < n; i++ {
		dim := rapid.SampledFrom(dims).Draw(t, "dim")
		f := make([]float32, dim)
		for j := range f {
			f[j] = float32((i*7+j*3)%11) - 5
		}
		p.Keys = append(p.Keys, vk.D{F: f, G: fmt.Sprint(i)})
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "rounds"); i < n; i++ {
		p.Rounds = append(p.Rounds, rapid.SliceOf(rapid.IntRange(0, len(p.Keys)-1)).Draw(t, "round"))
	}
	p.Drop = rapid.SliceOf(rapid.IntRange(0, len(p.Keys)-1)).Draw(t, "drop")
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "queries"); i < n; i++ {
		dim := rapid.OneOf(rapid.SampledFrom(dims), rapid.SampledFrom([]int{0, 1, 5, 500})).Draw(t, "qdim")
		f := make([]float32, dim)
		for j := range f {
			f[j] = float32((i*5+j)%7) - 3
		}
		p.Q = append(p.Q, f)
	}
	p.Cfg = genCfg(t)
	p.Cfg.Filters, p.Cfg.GroupFilters = nil, nil
	return p
}

func runDims(c *vk.Ctx, p Dims) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	model := map[string]ent{}
	check := func(what string, before map[string]ent) {
		for _, q := range p.Q {
			d := vk.D{F: q}
			var col *data.Collector = dt.SearchAnnoy(d.PB(), p.Cfg.PB())
			sound(c, what, col.List, []map[string]ent{before, model}, q, p.Cfg)
		}
	}
	mixed := map[int]bool{}
	for i, r := range p.Rounds {
		before := map[string]ent{}
		for k, e := range model {
			before[k] = e
		}
		for _, k := range r {
			d := p.Keys[k]
			mixed[len(d.F)] = true
			dt.Insert(d.PB(), nil)
			model[d.Key()] = ent{d: d}
		}
		check(fmt.Sprintf("before pass %d", i), before)
		dt.Process(true)
		check(fmt.Sprintf("after pass %d", i), nil)
	}
	before := map[string]ent{}
	for k, e := range model {
		before[k] = e
	}
	for _, k := range p.Drop {
		dt.Delete(p.Keys[k].PB())
		delete(model, p.Keys[k].Key())
	}
	check("before the last pass", before)
	dt.Process(true)
	check("after the last pass", nil)
	c.LabelIf(mixed[0], "empty-vector")
	c.LabelIf(len(mixed) > 1, "mixed-dimensions")
	c.NonTrivialIf(len(mixed) > 1)
}

// Background: nobody forces a pass, the dataset processes itself.
type Background struct {
	Keys   []vk.D
	Bulk   int
	Rounds []Round
}

type Round struct {
	Del  []int
	Put  []Op
	Long bool // wait for eleven minutes instead of one
	Wait int  // seconds more
}

func genBackground(t *rapid.T) Background {
	dim := rapid.IntRange(2, 5).Draw(t, "dim")
	p := Background{Bulk: rapid.SampledFrom([]int{0, 0, 0, 0, 150, 400}).Draw(t, "bulk")}
	seen := map[string]bool{}
	for i, n := 0, rapid.IntRange(1, dim+2).Draw(t, "keys"); i < n; i++ {
		d := vk.D{F: vk.NonZeroVec(dim).Draw(t, "f"), G: rapid.SampledFrom([]string{"", "g"}).Draw(t, "g")}
		if !seen[d.Key()] {
			seen[d.Key()] = true
			p.Keys = append(p.Keys, d)
		}
	}
	key := rapid.IntRange(0, len(p.Keys)-1)
	for n := rapid.IntRange(1, 6).Draw(t, "rounds"); n > 0; n-- {
		r := Round{Long: rapid.IntRange(0, 2).Draw(t, "long") == 0, Wait: rapid.IntRange(0, 15).Draw(t, "wait"), Del: rapid.SliceOfN(key, 0, 2).Draw(t, "del")}
		for m := rapid.IntRange(0, 3).Draw(t, "puts"); m > 0; m-- {
			o := Op{Op: "put", I: key.Draw(t, "i"), L: rapid.SampledFrom([]string{"", "1", "2"}).Draw(t, "l")}
			if r.Long {
				o.TTL = rapid.SampledFrom([]uint64{0, 0, 4, 100}).Draw(t, "ttl")
			}
			r.Put = append(r.Put, o)
		}
		p.Rounds = append(p.Rounds, r)
	}
	return p
}

func runBackground(c *vk.Ctx, p Background) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	model := map[string]ent{}
	dim := len(p.Keys[0].F)
	put := func(d vk.D, ttl uint64) bool {
		if err := dt.Insert(d.PB(), &pb.InsertConfig{TTL: ttl, Count: 1}); err != nil {
			c.Failf("insert", "%v", err)
		}
		e := ent{d: d}
		if ttl > 0 {
			e.exp = time.Now().Unix() + int64(ttl)
		}
		old, had := alive(model)[d.Key()]
		model[d.Key()] = e
		return !had || old.d.L != d.L
	}
	r := rand.New(rand.NewSource(int64(p.Bulk) + 7))
	for i := 0; i < p.Bulk; i++ {
		f := make([]float32, dim)
		for j := range f {
			f[j] = float32(r.NormFloat64())
		}
		put(vk.D{F: f, G: "bulk"}, 0)
	}
	short := false
	for i, rd := range p.Rounds {
		for _, k := range rd.Del {
			dt.Delete(p.Keys[k].PB())
			delete(model, p.Keys[k].Key())
		}
		effective := i == 0
		for _, o := range rd.Put {
			d := p.Keys[o.I]
			d.L = o.L
			effective = put(d, o.TTL) || effective
		}
		wait := 85 + rd.Wait
		if rd.Long {
			wait = 720 + rd.Wait
		}
		c.Sleep(time.Duration(wait) * time.Second)
		if !effective && !rd.Long {
			continue
		}
		short = short || (!rd.Long && i > 0)
		now := alive(model)
		what := fmt.Sprintf("%d seconds after round %d", wait, i)
		if n := dt.GetDataInfo().N; n != uint64(len(now)) {
			c.Failf("count", "%s: %d elements reported, %d stored", what, n, len(now))
		}
		for _, k := range p.Keys {
			cfg := vk.SearchCfg{Func: "AnnoyCosineSimilarity", Higher: true, Limit: 2000}
			got := dt.SearchAnnoy(k.PB(), cfg.PB()).List
			sound(c, what, got, []map[string]ent{now}, k.F, cfg)
			if len(now) <= dim+2 && len(got) != len(now) {
				c.Failf("not-indexed", "%s: %d found, %d stored", what, len(got), len(now))
			}
		}
	}
	c.LabelIf(short, "changed-after-first-pass")
	c.LabelIf(p.Bulk > 0, "bulk")
	c.NonTrivialIf(short)
}

// Union: an approximate search that asks several datasets, each with an index of one leaf or without one.
type Union struct {
	Keys    []vk.D
	Holders []struct {
		Has  []int
		Late []int // inserted after the pass
		Pass bool
	}
	Q   [][]float32
	Cfg vk.SearchCfg
}

func genUnion(t *rapid.T) Union {
	dim := rapid.IntRange(2, 8).Draw(t, "dim")
	var p Union
	seen := map[string]bool{}
	for i, n := 0, rapid.IntRange(1, 16).Draw(t, "keys"); i < n; i++ {
		d := vk.D{F: vk.NonZeroVec(dim).Draw(t, "f"), G: rapid.SampledFrom([]string{"", `{"a":1}`, `{"b":1}`}).Draw(t, "g"), L: rapid.SampledFrom([]string{"", `{"x":1}`, `{"x":1}`, `{"y":1}`}).Draw(t, "l")}
		if !seen[d.Key()] {
			seen[d.Key()] = true
			p.Keys = append(p.Keys, d)
		}
	}
	for n := rapid.IntRange(1, 5).Draw(t, "holders"); n > 0; n-- {
		var h struct {
			Has  []int
			Late []int
			Pass bool
		}
		h.Pass = rapid.IntRange(0, 4).Draw(t, "pass") > 0
		for k := rapid.IntRange(0, dim+2).Draw(t, "has"); k > 0; k-- {
			h.Has = append(h.Has, rapid.IntRange(0, len(p.Keys)-1).Draw(t, "i"))
		}
		for k := rapid.IntRange(0, 2).Draw(t, "late"); k > 0; k-- {
			h.Late = append(h.Late, rapid.IntRange(0, len(p.Keys)-1).Draw(t, "i"))
		}
		p.Holders = append(p.Holders, h)
	}
	for k := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "queries"); k > 0; k-- {
		p.Q = append(p.Q, vk.NonZeroVec(dim).Draw(t, "q"))
	}
	p.Cfg = genCfg(t)
	if rapid.Bool().Draw(t, "everything") {
		p.Cfg.Limit = uint32(rapid.SampledFrom([]int{16, 17, 50, 100, 1000}).Draw(t, "limit"))
	}
	p.Cfg.Timeout = 100000
	return p
}

func runUnion(c *vk.Ctx, p Union) {
	var holders []*data.Data
	pool := map[string]ent{}
	for i, h := range p.Holders {
		dt := c.NewData(&pb.DataConfig{Name: fmt.Sprint("h", i), NoTarget: true})
		holders = append(holders, dt)
		put := func(ks []int, visible bool) {
			for _, k := range ks {
				dt.Insert(p.Keys[k].PB(), nil)
				if visible {
					pool[p.Keys[k].Key()] = ent{d: p.Keys[k]}
				}
			}
		}
		put(h.Has, true)
		if h.Pass {
			dt.Process(true)
		}
		put(h.Late, !h.Pass || len(h.Has) == 0) // without an index it is an exact search
	}
	for _, dt := range holders[1:] {
		if err := holders[0].AddSource(dt); err != nil {
			c.Failf("source", "%v", err)
		}
	}
	var qs []*pb.Datum
	for _, q := range p.Q {
		qs = append(qs, vk.D{F: q}.PB())
	}
	got, err := holders[0].MultiAggregatedSearch(qs, p.Cfg.PB(), nil)
	if err != nil {
		c.Failf("error", "%v", err)
	}
	c.Settle()
	var cands []vk.Scored
	for k, e := range pool {
		if !passes(e.d, p.Cfg) {
			continue
		}
		s := vk.Scored{Key: k, Vals: []string{e.d.Val()}, F: e.d.F}
		for i, q := range p.Q {
			v := vk.Score(p.Cfg.Func, q, e.d.F)
			if i == 0 || vk.Better(p.Cfg.Higher, v, s.Score) {
				s.Score = v
			}
			s.Alt = append(s.Alt, v) // of several queries not all may have found it
		}
		cands = append(cands, s)
	}
	what := fmt.Sprintf("search of %d datasets", len(holders))
	limit := int(p.Cfg.Limit)
	angular := p.Cfg.Higher && p.Cfg.Func != "AnnoyVectorDistance"
	if limit >= len(p.Keys) { // nothing is cut off anywhere
		for i := range cands {
			cands[i].Alt = nil
		}
		c.TopK(what, got, cands, p.Cfg.Higher, limit)
		c.Label("everything")
	} else {
		c.TopKOpt(what, got, nil, cands, p.Cfg.Higher, limit)
		if len(got) < min(limit, len(cands)) && len(p.Q) == 1 {
			c.Failf("result-count", "%s: %d results, limit %d, %d candidates", what, len(got), limit, len(cands))
		}
		if angular && len(got) > 0 {
			worst := got[len(got)-1].Score
			in := map[string]bool{}
			for _, g := range got {
				in[vk.KeyOf(g.Datum)] = true
			}
			for _, s := range cands {
				if !in[s.Key] && s.Score > worst+2e-3 {
					c.Failf("not-nearest", "%s: %s (score %v) left out although %v was returned", what, s.Key, s.Score, worst)
				}
			}
			c.Label("nearest")
		}
	}
	c.NonTrivialIf(len(holders) > 1 && len(cands) > 1)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 3000, 80000, true, gen, run), vk.Sub("find", 300, 8000, true, genFind, runFind), vk.Sub("dims", 1500, 40000, true, genDims, runDims), vk.Sub("background", 900, 20000, true, genBackground, runBackground), vk.Sub("union", 1500, 40000, true, genUnion, runUnion))
}

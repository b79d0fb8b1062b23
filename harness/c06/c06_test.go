package c06

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"testing"

	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Query struct {
	Q    []float32
	Cfg  vk.SearchCfg
	Path string // search, stream, annoy
}

type Plan struct {
	Data    []vk.D
	Process bool
	Queries []Query
}

func jsonValue(t *rapid.T, depth int) any {
	c := rapid.IntRange(0, 9).Draw(t, "json")
	switch {
	case c < 2 && depth > 0:
		return jsonObject(t, depth-1)
	case c < 3 && depth > 0:
		n := rapid.IntRange(0, 3).Draw(t, "items")
		l := []any{}
		for i := 0; i < n; i++ {
			l = append(l, jsonValue(t, depth-1))
		}
		return l
	case c < 4:
		return nil
	case c < 5:
		return false
	case c < 6:
		return 0
	case c < 7:
		return ""
	}
	return rapid.SampledFrom([]any{1, true, "a", "a.b", "x y", 2.5}).Draw(t, "scalar")
}

func jsonObject(t *rapid.T, depth int) any {
	n := rapid.IntRange(1, 4).Draw(t, "fields")
	o := map[string]any{}
	for i := 0; i < n; i++ {
		o[rapid.SampledFrom([]string{"a", "b", "c", "ab", "a", "b", "c", "ab", "0"}).Draw(t, "name")] = jsonValue(t, depth)
	}
	return o
}

func label(t *rapid.T) string {
	if rapid.IntRange(0, 4).Draw(t, "plain") == 0 {
		return rapid.SampledFrom([]string{"", "a", "b", "plain text", "a.b", "42", "null", "\"a\"", "[]"}).Draw(t, "text")
	}
	var v any = jsonObject(t, 2)
	if rapid.IntRange(0, 5).Draw(t, "array") == 0 {
		l := []any{}
		for n := rapid.IntRange(1, 3).Draw(t, "items"); n > 0; n-- {
			l = append(l, jsonValue(t, 2))
		}
		v = l
	}
	b, _ := json.Marshal(v)
	switch rapid.IntRange(0, 11).Draw(t, "form") {
	case 0:
		b, _ = json.MarshalIndent(v, "", "  ")
	case 1:
		b = append([]byte(rapid.SampledFrom([]string{" ", "\n", "\t ", "\r\n"}).Draw(t, "space")), b...)
	case 2:
		b = append(b, rapid.SampledFrom([]string{" ", "\n", "\t "}).Draw(t, "space")...)
	case 3: // not JSON, although a part of it is
		b = append([]byte(rapid.SampledFrom([]string{"note: ", "x", "\xff", "{", "\""}).Draw(t, "before")), b...)
	case 4:
		b = append(b, rapid.SampledFrom([]string{"x", "}", ",", " 1"}).Draw(t, "after")...)
	case 5:
		b = b[:len(b)-1]
	}
	return string(b)
}

var paths = []string{"a", "b", "c", "a", "b", "c", "ab", "a.b", "a.a", "b.a", "a.b.c", "c.0", "a.1", "d", "0", "0", "1", "0.a", "0.b", "1.a", "0.0"}

func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 4).Draw(t, "dim")
	var p Plan
	n := rapid.IntRange(0, 25).Draw(t, "n")
	if rapid.Bool().Draw(t, "big") {
		n += 10
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		d := vk.D{F: vk.NonZeroVec(dim).Draw(t, "f"), G: label(t), L: label(t), V: uint64(i)}
		if seen[d.Key()] {
			continue
		}
		seen[d.Key()] = true
		p.Data = append(p.Data, d)
	}
	p.Process = rapid.Bool().Draw(t, "process")
	m := rapid.IntRange(1, 4).Draw(t, "queries")
	for i := 0; i < m; i++ {
		q := Query{Q: vk.NonZeroVec(dim).Draw(t, "q"), Path: rapid.SampledFrom([]string{"search", "multi", "annoy"}).Draw(t, "path")}
		q.Cfg.Func = rapid.SampledFrom(vk.ScoreNames).Draw(t, "func")
		if q.Path == "annoy" {
			q.Cfg.Func = rapid.SampledFrom(vk.AnnoyNames).Draw(t, "func")
		}
		q.Cfg.Higher = rapid.Bool().Draw(t, "higher")
		q.Cfg.Limit = uint32(rapid.IntRange(1, 12).Draw(t, "limit"))
		q.Cfg.Timeout = 1000
		q.Cfg.Filters = rapid.SliceOfN(rapid.SampledFrom(paths), 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "nf")).Draw(t, "filters")
		q.Cfg.GroupFilters = rapid.SliceOfN(rapid.SampledFrom(paths), 0, 1).Draw(t, "groupFilters")
		p.Queries = append(p.Queries, q)
	}
	return p
}

// exists evaluates a dotted path by ordinary JSON decoding.
func exists(label, path string) bool {
	var v any
	if json.Unmarshal([]byte(label), &v) != nil {
		return false
	}
	for _, part := range strings.Split(path, ".") {
		switch x := v.(type) {
		case map[string]any:
			y, ok := x[part]
			if !ok {
				return false
			}
			v = y
		case []any:
			i, err := strconv.Atoi(part)
			if err != nil || i < 0 || i >= len(x) {
				return false
			}
			v = x[i]
		default:
			return false
		}
	}
	return true
}

func matches(d vk.D, cfg vk.SearchCfg) bool {
	for _, f := range cfg.Filters {
		if !exists(d.L, f) {
			return false
		}
	}
	for _, f := range cfg.GroupFilters {
		if !exists(d.G, f) {
			return false
		}
	}
	return true
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	for _, d := range p.Data {
		if err := dt.Insert(d.PB(), nil); err != nil {
			c.Failf("insert", "%v", err)
		}
	}
	if p.Process {
		dt.Process(true)
		dt.Process(true)
	}
	for i, q := range p.Queries {
		var cands []vk.Scored
		for _, d := range p.Data {
			if matches(d, q.Cfg) {
				cands = append(cands, vk.Scored{Key: d.Key(), Vals: []string{d.Val()}, Score: vk.Score(q.Cfg.Func, d.F, q.Q)})
			}
		}
		filtered := len(q.Cfg.Filters)+len(q.Cfg.GroupFilters) > 0
		c.LabelIf(filtered && len(cands) > 0 && len(cands) < len(p.Data), "selective")
		c.LabelIf(len(q.Cfg.Filters) > 0 && len(q.Cfg.GroupFilters) > 0 && len(cands) > 0, "both-kinds")
		c.NonTrivialIf(filtered && len(cands) > 0 && len(cands) < len(p.Data))
		what := fmt.Sprintf("query %d (%s filters=%v groupFilters=%v)", i, q.Path, q.Cfg.Filters, q.Cfg.GroupFilters)
		dm := vk.D{F: q.Q}.PB()
		switch q.Path {
		case "search":
			c.TopK(what, dt.Search(dm, q.Cfg.PB(), nil).List, cands, q.Cfg.Higher, int(q.Cfg.Limit))
		case "multi":
			res, err := dt.MultiAggregatedSearch([]*pb.Datum{dm}, q.Cfg.PB(), nil)
			if err != nil {
				c.Failf("search-error", "%v", err)
			}
			c.TopK(what, res, cands, q.Cfg.Higher, int(q.Cfg.Limit))
		case "annoy":
			got := dt.SearchAnnoy(dm, q.Cfg.PB()).List
			by := map[string]vk.Scored{}
			for _, s := range cands {
				by[s.Key] = s
			}
			seen := map[string]bool{}
			for _, g := range got {
				k := vk.KeyOf(g.Datum)
				s, ok := by[k]
				if !ok {
					c.Failf("filter-leak", "%s: %s (label %q, group %q) does not match", what, k, g.Datum.Value.Label, g.Datum.Key.GroupLabel)
				}
				if seen[k] {
					c.Failf("duplicate-result", "%s: %s twice", what, k)
				}
				seen[k] = true
				if !vk.Near(g.Score, s.Score) {
					c.Failf("wrong-score", "%s: %s score %v, want %v", what, k, g.Score, s.Score)
				}
			}
			if len(got) > int(q.Cfg.Limit) {
				c.Failf("over-limit", "%s: %d results for limit %d", what, len(got), q.Cfg.Limit)
			}
		}
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("filters", 6000, 150000, true, gen, run))
}

package c31

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"testing"

	"github.com/bgokden/veri/annoyindex"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Query asks by stored item (Item >= 0) or by vector.
type Query struct {
	Item int
	V    []float32 `json:"v,omitempty"`
	N    int
	K    int // search budget; 0: exhaustive, -1: default
}

type Plan struct {
	Metric int
	Dim    int
	N      int   // number of items
	Kind   int   // how vectors look
	Seed   int64 // of the vectors
	Gap    int   // >1: item numbers with gaps
	Over   int   // this many items are set twice before building
	Rev    bool  // items are added in descending order
	Trees  int   // -1: automatic
	Disk   bool  // build on disk
	Steps  []int // after building: 0 save, 1 save + load in another index, 2 unload + load, 3 load with prefault
	Q      []Query
}

var metrics = []string{"angular", "euclidean", "manhattan", "dot"}

func gen(t *rapid.T) Plan {
	p := Plan{
		Metric: rapid.IntRange(0, 3).Draw(t, "metric"),
		Dim:    rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 40), rapid.SampledFrom([]int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 130})).Draw(t, "dim"),
		Kind:   rapid.IntRange(0, 5).Draw(t, "kind"),
		Seed:   rapid.Int64Range(0, 1<<30).Draw(t, "seed"),
		Trees:  rapid.SampledFrom([]int{-1, 1, 2, 3, 10}).Draw(t, "trees"),
		Disk:   rapid.Bool().Draw(t, "disk"),
		Rev:    rapid.IntRange(0, 3).Draw(t, "rev") == 0,
		Gap:    1,
	}
	p.N = rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 60), rapid.IntRange(p.Dim, p.Dim+6), rapid.IntRange(60, 600)).Draw(t, "n")
	if rapid.IntRange(0, 4).Draw(t, "gaps") == 0 {
		p.Gap = rapid.IntRange(2, 5).Draw(t, "gap")
		if p.N <= 8 {
			p.Gap = rapid.IntRange(2, 300).Draw(t, "widegap")
		}
	}
	if p.N > 0 && rapid.IntRange(0, 2).Draw(t, "over") == 0 {
		p.Over = rapid.IntRange(1, p.N).Draw(t, "nover")
	}
	p.Steps = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 3).Draw(t, "steps")
	nq := rapid.IntRange(1, 5).Draw(t, "queries")
	for i := 0; i < nq; i++ {
		q := Query{Item: -1, N: rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, p.N+3)).Draw(t, "qn"),
			K: rapid.SampledFrom([]int{0, 0, 0, -1, 1, 5, 50}).Draw(t, "k")}
		if p.N > 0 && rapid.Bool().Draw(t, "byitem") {
			q.Item = rapid.IntRange(0, p.N-1).Draw(t, "item")
		} else {
			q.V = rapid.SliceOfN(vk.Coord(), p.Dim, p.Dim).Draw(t, "v")
		}
		p.Q = append(p.Q, q)
	}
	return p
}

func vectors(p Plan) [][]float32 {
	r := rand.New(rand.NewSource(p.Seed))
	var out [][]float32
	for i := 0; i < p.N; i++ {
		v := make([]float32, p.Dim)
		switch p.Kind {
		case 0:
			for j := range v {
				v[j] = float32(r.NormFloat64())
			}
		case 1: // many equal distances, duplicates, zero vectors
			for j := range v {
				v[j] = float32(r.Intn(3) - 1)
			}
		case 2: // clusters and exact duplicates
			if i > 0 && r.Intn(2) == 0 {
				copy(v, out[r.Intn(i)])
				if r.Intn(2) == 0 {
					v[r.Intn(p.Dim)] += float32(r.NormFloat64()) * 0.01
				}
			} else {
				for j := range v {
					v[j] = float32(r.NormFloat64() * 5)
				}
			}
		case 3: // one-hot with scale
			v[r.Intn(p.Dim)] = float32(math.Exp(r.NormFloat64() * 3))
		case 4: // very different norms
			s := math.Exp(r.NormFloat64() * 3)
			for j := range v {
				v[j] = float32(r.NormFloat64() * s)
			}
		case 5: // on a line
			for j := range v {
				v[j] = float32(i - p.N/2)
			}
		}
		out = append(out, v)
	}
	return out
}

type index interface {
	AddItem(int, []float32)
	Build(int)
	Save(a ...interface{}) bool
	Unload()
	Load(a ...interface{}) bool
	GetDistance(int, int) float32
	GetNnsByItem(a ...interface{})
	GetNnsByVector(a ...interface{})
	GetNItems() int
	GetItem(int, *[]float32)
	OnDiskBuild(string) bool
}

func newIndex(m, dim int) (index, func()) {
	switch m {
	case 0:
		x := annoyindex.NewAnnoyIndexAngular(dim)
		return x, func() { annoyindex.DeleteAnnoyIndexAngular(x) }
	case 1:
		x := annoyindex.NewAnnoyIndexEuclidean(dim)
		return x, func() { annoyindex.DeleteAnnoyIndexEuclidean(x) }
	case 2:
		x := annoyindex.NewAnnoyIndexManhattan(dim)
		return x, func() { annoyindex.DeleteAnnoyIndexManhattan(x) }
	}
	x := annoyindex.NewAnnoyIndexDotProduct(dim)
	return x, func() { annoyindex.DeleteAnnoyIndexDotProduct(x) }
}

// ref gives the distance by definition, on a scale in which errors are additive, and the error allowed.
// angular: squared distance of the unit vectors; euclidean: squared; others as they are. Smaller is nearer.
func ref(m int, a, b []float32) (float64, float64) {
	const eps = 1.0 / (1 << 23)
	var pp, qq, pq, sq, ab, mag, xm float64
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		pp += x * x
		qq += y * y
		pq += x * y
		xm += math.Abs(x * y)
		sq += (x - y) * (x - y)
		ab += math.Abs(x - y)
		mag += math.Abs(x) + math.Abs(y)
	}
	n := float64(len(a) + 8)
	switch m {
	case 0:
		if pp == 0 || qq == 0 {
			return 2, 1e-6
		}
		if pp*qq < 1e-30 { // float32 products are not normal numbers any more
			return 2 - 2*pq/math.Sqrt(pp*qq), 5
		}
		return 2 - 2*pq/math.Sqrt(pp*qq), 8 * n * eps
	case 1:
		return sq, 4*n*eps*sq + 1e-30
	case 2:
		return ab, 4*n*eps*ab + 1e-30
	}
	return -pq, 4*n*eps*xm + 1e-30
}

// scale turns a reported distance into the scale of ref
func scale(m int, d float32) float64 {
	x := float64(d)
	switch m {
	case 0, 1:
		return x * x
	case 2:
		return x
	}
	return -x
}

func slack(m int, want float64) float64 {
	if m <= 1 { // the square root is rounded
		return 1e-6*math.Abs(want) + 1e-12
	}
	return 0
}

type answer struct {
	ids []int
	ds  []float32
}

func ask(x index, vecs map[int][]float32, q Query, item int) (answer, []float32) {
	var ids []int
	var ds []float32
	k := q.K
	if k == 0 {
		k = 1 << 30
	}
	if item >= 0 {
		x.GetNnsByItem(item, q.N, k, &ids, &ds)
		return answer{ids, ds}, vecs[item]
	}
	x.GetNnsByVector(q.V, q.N, k, &ids, &ds)
	return answer{ids, ds}, q.V
}

func run(c *vk.Ctx, p Plan) {
	list := vectors(p)
	x, free := newIndex(p.Metric, p.Dim)
	c.Cleanup(free)
	name := metrics[p.Metric]
	file := filepath.Join(c.Dir(), "index")
	if p.Disk && !x.OnDiskBuild(file) {
		c.Failf("on-disk", "%s: on disk build refused", name)
	}
	vecs := map[int][]float32{}
	max := -1
	for i := 0; i < p.N; i++ {
		j := i
		if p.Rev {
			j = p.N - 1 - i
		}
		id := j * p.Gap
		if j < p.Over { // a first version that is replaced
			w := append([]float32(nil), list[j]...)
			w[0] += 17
			x.AddItem(id, w)
		}
		arg := append([]float32(nil), list[j]...)
		x.AddItem(id, arg)
		for k := range arg { // the index has its own copy
			arg[k] = 1e6
		}
		vecs[id] = list[j]
		if id > max {
			max = id
		}
	}
	check := func(x index, when string) []answer {
		if n := x.GetNItems(); n != max+1 {
			c.Failf("n-items", "%s %s: %d items, want %d", name, when, n, max+1)
		}
		for id, v := range vecs {
			var got []float32
			x.GetItem(id, &got)
			if len(got) != len(v) {
				c.Failf("item", "%s %s: item %d has %d coordinates, want %d", name, when, id, len(got), len(v))
			}
			for k := range v {
				if math.Float32bits(got[k]) != math.Float32bits(v[k]) {
					c.Failf("item", "%s %s: item %d is %v, want %v", name, when, id, got, v)
				}
			}
		}
		for id, v := range vecs {
			other := (id + p.Gap) % (max + 1)
			if _, ok := vecs[other]; !ok {
				other = 0
			}
			d := x.GetDistance(id, other)
			want, tol := ref(p.Metric, v, vecs[other])
			if got := scale(p.Metric, d); !(math.Abs(got-want) <= tol+slack(p.Metric, want)) {
				c.Failf("distance", "%s %s: distance of %v and %v is %v", name, when, v, vecs[other], d)
			}
		}
		var all []answer
		for qi, q := range p.Q {
			item := -1
			if q.Item >= 0 {
				item = q.Item * p.Gap
			}
			a, v := ask(x, vecs, q, item)
			where := fmt.Sprintf("%s %s query %d", name, when, qi)
			if len(a.ids) != len(a.ds) {
				c.Failf("lists", "%s: %d items but %d distances", where, len(a.ids), len(a.ds))
			}
			if len(a.ids) > q.N {
				c.Failf("too-many", "%s: %d results for n=%d", where, len(a.ids), q.N)
			}
			seen := map[int]bool{}
			worst := math.Inf(-1)
			for i, id := range a.ids {
				w, ok := vecs[id]
				if !ok || seen[id] {
					c.Failf("alien", "%s: item %d is not stored or repeated", where, id)
				}
				seen[id] = true
				want, tol := ref(p.Metric, v, w)
				got := scale(p.Metric, a.ds[i])
				if !(math.Abs(got-want) <= tol+slack(p.Metric, want)) {
					c.Failf("nns-distance", "%s: item %d at %v, by definition %v (%v vs %v)", where, id, got, want, v, w)
				}
				if i > 0 && scale(p.Metric, a.ds[i-1]) > got {
					c.Failf("order", "%s: distances %v are not in order", where, a.ds)
				}
				if want+tol > worst {
					worst = want + tol
				}
			}
			if q.K == 0 || len(vecs) == 1 {
				want := q.N
				if want > len(vecs) {
					want = len(vecs)
				}
				if len(a.ids) != want {
					c.Failf("count", "%s: %d results, want %d", where, len(a.ids), want)
				}
				if len(a.ids) > 0 {
					for id, w := range vecs {
						if seen[id] {
							continue
						}
						if d, tol := ref(p.Metric, v, w); d+tol+slack(p.Metric, d) < scale(p.Metric, a.ds[len(a.ds)-1])-tol-slack(p.Metric, d) {
							c.Failf("missed", "%s: item %d at %v is missing, the last result is at %v", where, id, d, a.ds[len(a.ds)-1])
						}
					}
				}
			}
			all = append(all, a)
		}
		return all
	}
	same := func(a, b []answer, when string) {
		for i := range a {
			// with gaps, loading may find more (equal) trees than were built, so a limited budget is spent differently
			if p.Gap > 1 && p.Q[i].K != 0 {
				continue
			}
			if fmt.Sprint(a[i]) != fmt.Sprint(b[i]) {
				c.Failf("not-preserved", "%s %s: query %d was %v, now %v", name, when, i, a[i], b[i])
			}
		}
	}
	x.Build(p.Trees)
	base := check(x, "built")
	if p.N > 0 && len(p.Steps) > 0 {
		if !x.Save(file) {
			c.Failf("save", "%s: saving failed", name)
		}
		same(base, check(x, "saved"), "after saving")
		for i, s := range p.Steps {
			when := fmt.Sprintf("step %d", i)
			switch s {
			case 0:
				if p.Disk {
					continue
				}
				other := filepath.Join(c.Dir(), fmt.Sprint("index", i))
				if x.Save(other) {
					same(base, check(x, when), "saved again")
				} else {
					c.Failf("save", "%s: saving again failed", name)
				}
			case 1:
				y, free := newIndex(p.Metric, p.Dim)
				if !y.Load(file) {
					c.Failf("load", "%s: loading failed", name)
				}
				same(base, check(y, when), "in another index")
				y.Unload()
				free()
			case 2, 3:
				x.Unload()
				ok := false
				if s == 2 {
					ok = x.Load(file)
				} else {
					ok = x.Load(file, true)
				}
				if !ok {
					c.Failf("load", "%s: loading failed", name)
				}
				same(base, check(x, when), "after loading")
			}
		}
	}
	c.Label(name)
	c.LabelIf(p.Disk, "on-disk")
	c.LabelIf(p.Gap > 1, "gaps")
	c.LabelIf(len(p.Steps) > 0 && p.N > 0, "saved-and-loaded")
	c.LabelIf(p.N > p.Dim+4, "more-than-a-leaf")
	c.NonTrivialIf(p.N > p.Dim+4)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("index", 8000, 150000, false, gen, run))
}

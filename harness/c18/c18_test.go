package c18

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// W is an operation of a writer; each key has one writer.
type W struct {
	K   int
	Del bool `json:"del,omitempty"`
}

type R struct {
	Kind  string // exact, annoy, multi, all
	Q     int
	Limit uint32
}

type Plan struct {
	Keys    int
	Dim     int
	Writers [][]W
	Readers [][]R
	Passes  int
	Procs   int // goroutines running passes
	Repeat  int // every script is run this many times
	Fill    bool
}

func gen(t *rapid.T) Plan {
	p := Plan{Keys: rapid.IntRange(1, 40).Draw(t, "keys"), Dim: rapid.SampledFrom([]int{2, 4, 16}).Draw(t, "dim"), Passes: rapid.IntRange(1, 30).Draw(t, "passes"),
		Procs: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "procs"), Repeat: rapid.IntRange(1, 12).Draw(t, "repeat"), Fill: rapid.Bool().Draw(t, "fill")}
	nw := rapid.IntRange(1, 4).Draw(t, "writers")
	for w := 0; w < nw; w++ {
		var s []W
		emptying := rapid.IntRange(0, 3).Draw(t, "emptying") == 0
		for n := rapid.IntRange(1, 25).Draw(t, "wops"); n > 0; n-- {
			k := rapid.IntRange(0, p.Keys-1).Draw(t, "k")
			k -= k % nw
			k += w
			if k < p.Keys {
				s = append(s, W{K: k, Del: rapid.IntRange(0, 2).Draw(t, "del") == 0})
			}
		}
		if emptying {
			for k := w; k < p.Keys; k += nw {
				s = append(s, W{K: k, Del: true})
			}
		}
		p.Writers = append(p.Writers, s)
	}
	for r, nr := 0, rapid.IntRange(1, 4).Draw(t, "readers"); r < nr; r++ {
		var s []R
		for n := rapid.IntRange(1, 25).Draw(t, "rops"); n > 0; n-- {
			s = append(s, R{Kind: rapid.SampledFrom([]string{"exact", "annoy", "annoy", "multi", "all"}).Draw(t, "kind"), Q: rapid.IntRange(0, p.Keys-1).Draw(t, "q"),
				Limit: uint32(rapid.SampledFrom([]int{1, 3, 10, 1000}).Draw(t, "limit"))})
		}
		p.Readers = append(p.Readers, s)
	}
	return p
}

func vec(k, dim int) []float32 {
	f := make([]float32, dim)
	for j := range f {
		f[j] = float32(math.Sin(float64(k*31+j*17))) + 0.01
	}
	return f
}

// rec is an operation on a key; times come from a global counter.
type rec struct {
	val        string // "" is a deletion
	start, end int64
}

type world struct {
	clock atomic.Int64
	mu    sync.Mutex
	hist  map[string][]rec
	bad   []string
	pass  [][2]int64
}

func (w *world) fail(kind, format string, args ...any) {
	w.mu.Lock()
	w.bad = append(w.bad, kind+"\x00"+fmt.Sprintf(format, args...))
	w.mu.Unlock()
}

type obs struct {
	kind       string
	what       string
	start, end int64
	res        [][2]string
	scores     []float64
	q          int
	limit      uint32
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	w := &world{hist: map[string][]rec{}}
	var seq atomic.Int64
	put := func(k int) {
		d := vk.D{F: vec(k, p.Dim), L: fmt.Sprint("v", seq.Add(1))}
		s := w.clock.Add(1)
		err := dt.Insert(d.PB(), nil)
		e := w.clock.Add(1)
		if err != nil {
			w.fail("insert", "%v", err)
		}
		w.mu.Lock()
		w.hist[d.Key()] = append(w.hist[d.Key()], rec{d.Val(), s, e})
		w.mu.Unlock()
	}
	del := func(k int) {
		d := vk.D{F: vec(k, p.Dim)}
		s := w.clock.Add(1)
		dt.Delete(d.PB())
		e := w.clock.Add(1)
		w.mu.Lock()
		w.hist[d.Key()] = append(w.hist[d.Key()], rec{"", s, e})
		w.mu.Unlock()
	}
	pass := func() {
		s := w.clock.Add(1)
		dt.Process(true)
		e := w.clock.Add(1)
		w.mu.Lock()
		w.pass = append(w.pass, [2]int64{s, e})
		w.mu.Unlock()
	}
	if p.Fill {
		for k := 0; k < p.Keys; k++ {
			put(k)
		}
		pass()
	}
	var wg sync.WaitGroup
	go1 := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	for _, s := range p.Writers {
		s := s
		go1(func() {
			for r := 0; r < p.Repeat; r++ {
				for _, op := range s {
					if op.Del {
						del(op.K)
					} else {
						put(op.K)
					}
				}
			}
		})
	}
	for i := 0; i < p.Procs; i++ {
		go1(func() {
			for r := 0; r < p.Passes; r++ {
				pass()
			}
		})
	}
	var omu sync.Mutex
	var seen []obs
	for ri, s := range p.Readers {
		s, ri := s, ri
		go1(func() {
			for r := 0; r < p.Repeat; r++ {
				for n, op := range s {
					o := obs{kind: op.Kind, what: fmt.Sprintf("reader %d round %d op %d (%s)", ri, r, n, op.Kind), q: op.Q, limit: op.Limit}
					q := vk.D{F: vec(op.Q, p.Dim)}.PB()
					cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: op.Limit, Timeout: 60000}
					var list []*pb.ScoredDatum
					o.start = w.clock.Add(1)
					switch op.Kind {
					case "exact":
						list = dt.Search(q, cfg, nil).List
					case "annoy":
						cfg.ScoreFuncName = "AnnoyVectorDistance"
						list = dt.SearchAnnoy(q, cfg).List
					case "multi":
						list, _ = dt.MultiAggregatedSearch([]*pb.Datum{q}, cfg, nil)
					case "all":
						for _, d := range vk.All(dt) {
							list = append(list, &pb.ScoredDatum{Datum: d})
						}
						o.limit = 1 << 30
					}
					o.end = w.clock.Add(1)
					for _, x := range list {
						o.res = append(o.res, [2]string{vk.KeyOf(x.Datum), vk.ValOf(x.Datum)})
						o.scores = append(o.scores, x.Score)
					}
					omu.Lock()
					seen = append(seen, o)
					omu.Unlock()
				}
			}
		})
	}
	wg.Wait()
	for _, b := range w.bad {
		c.Failf("operation", "%s", b)
	}
	overlap := 0
	for _, o := range seen {
		from := o.start
		if o.kind == "annoy" {
			// contents of a pass that may have been the latest finished one: with several goroutines, any not surely superseded
			from = 0
			for _, ps := range w.pass {
				if ps[1] < o.start && ps[0] > from && p.Procs == 1 {
					from = ps[0]
				}
			}
		}
		in := map[string]bool{}
		for i, r := range o.res {
			if in[r[0]] {
				c.Failf("duplicate-result", "%s: %s twice", o.what, r[0])
			}
			in[r[0]] = true
			h := w.hist[r[0]]
			ok := false
			for j, x := range h {
				if x.val == r[1] && x.start < o.end && (j+1 == len(h) || h[j+1].end > from) {
					ok = true
				}
			}
			if !ok {
				c.Failf("not-live", "%s: %s=%s was not live at any time between %d and %d: %v", o.what, r[0], r[1], from, o.end, h)
			}
			if o.kind != "all" {
				k := -1
				for kk := 0; kk < p.Keys; kk++ {
					if (vk.D{F: vec(kk, p.Dim)}).Key() == r[0] {
						k = kk
					}
				}
				if want := vk.Score("VectorDistance", vec(k, p.Dim), vec(o.q, p.Dim)); !vk.Near(want, o.scores[i]) {
					c.Failf("wrong-score", "%s: %s has score %v, want %v", o.what, r[0], o.scores[i], want)
				}
			}
		}
		if len(o.res) > int(o.limit) {
			c.Failf("limit", "%s: %d results", o.what, len(o.res))
		}
		if o.kind != "annoy" && int(o.limit) >= p.Keys {
			// everything live during the whole operation is there
			for k, h := range w.hist {
				for j, x := range h {
					if x.val != "" && x.end < o.start && (j+1 == len(h) || h[j+1].start > o.end) && !in[k] {
						c.Failf("missing", "%s: %s=%s was live all the time but is missing", o.what, k, x.val)
					}
				}
			}
		}
		for _, h := range w.hist {
			for _, x := range h {
				if x.end > o.start && x.start < o.end {
					overlap++
				}
			}
		}
	}
	want := map[string]string{}
	for k, h := range w.hist {
		if v := h[len(h)-1].val; v != "" {
			want[k] = v
		}
	}
	if diff := vk.DiffMaps(c.Contents(dt), want); diff != "" {
		c.Failf("final-contents", "%s", diff)
	}
	dt.Process(true)
	if n := dt.GetDataInfo().N; n != uint64(len(want)) {
		c.Failf("final-count", "N is %d, %d live", n, len(want))
	}
	got := dt.SearchAnnoy(vk.D{F: vec(0, p.Dim)}.PB(), &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: 1000}).List
	for _, g := range got {
		if want[vk.KeyOf(g.Datum)] != vk.ValOf(g.Datum) {
			c.Failf("final-index", "index returns %s=%s", vk.KeyOf(g.Datum), vk.ValOf(g.Datum))
		}
	}
	c.LabelIf(overlap > 0, "reads-overlap-writes")
	c.LabelIf(len(want) == 0, "ends-empty")
	c.NonTrivialIf(overlap > 0)
}

// Renew: expiry of old copies racing with their renewal, many times over (virtual clock).
type Renew struct {
	Keys    int
	Readers int
	Rounds  int
	Spin    int
}

func genRenew(t *rapid.T) Renew {
	return Renew{Keys: rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 60)).Draw(t, "keys"), Readers: rapid.IntRange(1, 3).Draw(t, "readers"), Rounds: rapid.IntRange(20, 200).Draw(t, "rounds"),
		Spin: rapid.SampledFrom([]int{0, 100, 1000, 5000}).Draw(t, "spin")}
}

func runRenew(c *vk.Ctx, p Renew) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	rnd := rand.New(rand.NewSource(int64(p.Keys + 1000*p.Rounds)))
	for r := 0; r < p.Rounds; r++ {
		want := map[string]string{}
		var again []*pb.Datum
		for k := 0; k < p.Keys; k++ {
			dt.Insert(vk.D{F: []float32{float32(k)}, L: "old"}.PB(), &pb.InsertConfig{TTL: 1})
			d := vk.D{F: []float32{float32(k)}, L: "new"}
			want[d.Key()] = d.Val()
			again = append(again, d.PB())
		}
		c.Sleep(time.Second) // all have expired now, and nobody has looked since
		var wg sync.WaitGroup
		var ready, goOn atomic.Int32
		for i := 0; i < p.Readers; i++ {
			wg.Add(1)
			spin := rnd.Intn(p.Spin + 1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for goOn.Load() == 0 {
				}
				for ; spin > 0; spin-- {
					goOn.Load()
				}
				for goOn.Load() == 1 {
					dt.LoopDBMap(func(*data.DBMapEntry) error { return nil })
				}
			}()
		}
		for ready.Load() < int32(p.Readers) {
			runtime.Gosched()
		}
		goOn.Store(1)
		for _, d := range again {
			dt.Insert(d, nil)
		}
		goOn.Store(2)
		wg.Wait()
		if diff := vk.DiffMaps(c.Contents(dt), want); diff != "" {
			c.Failf("renewal-lost", "round %d: %s", r, diff)
		}
	}
	c.NonTrivial()
}

// Stats: datasets get their first statistics while others read them and further passes run.
type Stats struct {
	Rounds, Keys, Dim, Procs, Readers int
}

func genStats(t *rapid.T) Stats {
	return Stats{Rounds: rapid.IntRange(20, 120).Draw(t, "rounds"), Keys: rapid.IntRange(1, 6).Draw(t, "keys"), Dim: rapid.SampledFrom([]int{1, 2, 16}).Draw(t, "dim"),
		Procs: rapid.IntRange(1, 3).Draw(t, "procs"), Readers: rapid.IntRange(1, 3).Draw(t, "readers")}
}

func runStats(c *vk.Ctx, p Stats) {
	changes := 0
	for r := 0; r < p.Rounds; r++ {
		dt := &data.Data{Config: &pb.DataConfig{Name: "d", NoTarget: true}}
		dt.InitData()
		for k := 0; k < p.Keys; k++ {
			f := make([]float32, p.Dim)
			for i := range f {
				f[i] = float32(k + 1)
			}
			if err := dt.Insert((vk.D{F: f, L: "l"}).PB(), &pb.InsertConfig{Count: 1}); err != nil {
				c.Failf("insert", "%v", err)
			}
		}
		var wg, rg sync.WaitGroup
		var stop atomic.Bool
		var seen atomic.Int64
		var bad atomic.Value
		for i := 0; i < p.Readers; i++ {
			rg.Add(1)
			go func() {
				defer rg.Done()
				for !stop.Load() {
					info := dt.GetDataInfo()
					if len(info.Avg) != 0 && len(info.Avg) != p.Dim {
						bad.Store("average of another dimension")
						return
					}
					if (len(info.Avg) > 0 && unsafe.SliceData(info.Avg) == nil) || (len(info.Hist) > 0 && unsafe.SliceData(info.Hist) == nil) {
						bad.Store("the information has a half-written average or histogram: sending it crashes the node")
						return
					}
					sum := float32(0)
					for _, x := range info.Avg {
						sum += x
					}
					for _, x := range info.Hist {
						sum += x
					}
					if sum > 0 {
						seen.Add(1)
					}
				}
			}()
		}
		for i := 0; i < p.Procs; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 3; j++ {
					dt.Process(true)
				}
			}()
		}
		wg.Wait()
		stop.Store(true)
		rg.Wait()
		if m := bad.Load(); m != nil {
			c.Failf("torn", "%v", m)
		}
		dt.Alive = false
		if seen.Load() > 0 {
			changes++
		}
		if n := dt.GetDataInfo().N; n != uint64(p.Keys) {
			c.Failf("stats", "after the passes the dataset counts %d of %d", n, p.Keys)
		}
	}
	c.NonTrivialIf(changes > 0)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("concurrent", 400, 12000, false, gen, run).Retries(30).SlowLog(), vk.Sub("renewal", 120, 4000, true, genRenew, runRenew).Retries(20), vk.Sub("stats", 40, 1500, false, genStats, runStats).Retries(10).SlowLog())
}

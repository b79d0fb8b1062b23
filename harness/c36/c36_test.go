package c36

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Work is something that leaves the contents of the node as they were.
type Work struct {
	Kind   string
	Every  int // done in every n-th repetition
	Limit  uint32
	Groups uint32
	Cache  uint64
	TTL    uint64
	Dim    int
	Fresh  bool // a query, name or address that was not used before
	Func   string
	Filter bool
	Ctx    int
	Multi  int
}

type Plan struct {
	N, Dim int
	Peers  int
	Slow   bool // one more peer, that answers after the timeout
	Works  []Work
	Reps   int
}

var heavy = map[string]int{"pass": 25, "create": 40, "maintain": 25, "save": 40, "close": 40, "info": 2, "stream": 2}

func gen(t *rapid.T) Plan {
	p := Plan{N: rapid.SampledFrom([]int{0, 1, 5, 30, 120}).Draw(t, "n"), Dim: rapid.SampledFrom([]int{1, 3, 16, 100}).Draw(t, "dim"),
		Peers: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "peers"), Slow: rapid.IntRange(0, 4).Draw(t, "slow") == 0, Reps: 200}
	for k := rapid.IntRange(1, 4).Draw(t, "works"); k > 0; k-- {
		w := Work{Kind: rapid.SampledFrom([]string{"search", "search", "search", "renew", "insert", "expire", "pass", "info", "stream", "create", "close", "refused", "join", "maintain", "save", "source"}).Draw(t, "kind")}
		w.Every = max(1, heavy[w.Kind])
		w.Limit = uint32(rapid.SampledFrom([]int{1, 10, 100, 1000}).Draw(t, "limit"))
		w.Groups = uint32(rapid.SampledFrom([]int{0, 0, 2}).Draw(t, "groups"))
		w.Cache = rapid.SampledFrom([]uint64{0, 0, 1, 30}).Draw(t, "cache")
		w.TTL = rapid.SampledFrom([]uint64{1, 20, 500}).Draw(t, "ttl")
		w.Dim = rapid.SampledFrom([]int{p.Dim, p.Dim, p.Dim, 0, 7}).Draw(t, "dim")
		w.Fresh = rapid.Bool().Draw(t, "fresh")
		w.Func = rapid.SampledFrom([]string{"VectorDistance", "CosineSimilarity", "AnnoyVectorDistance", "AnnoyAngularDistance", "AnnoyCosineSimilarity"}).Draw(t, "func")
		w.Filter = rapid.IntRange(0, 3).Draw(t, "filter") == 0
		w.Ctx = rapid.SampledFrom([]int{0, 0, 0, 2}).Draw(t, "ctx")
		w.Multi = rapid.SampledFrom([]int{1, 1, 3}).Draw(t, "multi")
		p.Works = append(p.Works, w)
	}
	return p
}

func files() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

type usage struct{ goHeap, cHeap, routines, files int64 }

var metrics = []struct {
	name, what string
	step       int64 // what one round may add by chance
	of         func(u usage) int64
}{
	{"goroutines", "the number of goroutines", 3, func(u usage) int64 { return u.routines }},
	{"files", "the number of open files", 3, func(u usage) int64 { return u.files }},
	{"memory", "the memory in use", 12 << 10, func(u usage) int64 { return u.goHeap }},
	{"index-memory", "the memory in use by the index library", 32 << 10, func(u usage) int64 { return u.cHeap }},
}

func measure(c *vk.Ctx) usage {
	for i := 0; i < 3; i++ {
		runtime.GC() // unused caches end at their next round
		ts := syscall.NsecToTimespec(2e6)
		syscall.Nanosleep(&ts, nil)
		c.Sleep(2 * time.Minute)
	}
	c.Settle()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return usage{int64(m.HeapAlloc), cHeap(), int64(runtime.NumGoroutine()), int64(files())}
}

func run(c *vk.Ctx, p Plan) {
	tmp := c.Dir()
	before, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	c.Cleanup(func() {
		if had {
			os.Setenv("TMPDIR", before)
		} else {
			os.Unsetenv("TMPDIR")
		}
	})
	ctx := context.Background()
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"self:1"}})
	n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true, Retention: 1 << 30})
	dt, err := n.Dataset.GetNoCreate("d")
	if err != nil {
		c.Failf("create", "%v", err)
	}
	datum := func(i, dim int) *pb.Datum {
		f := make([]float32, dim)
		for k := range f {
			f[k] = float32((i*7+k*3)%31 + 1)
		}
		return vk.D{F: f, S1: uint32(i), G: fmt.Sprintf(`{"g":%d}`, i%5), L: fmt.Sprintf(`{"l":%d}`, i)}.PB()
	}
	for i := 0; i < p.N; i++ {
		dt.Insert(datum(i, p.Dim), nil)
	}
	for i := 0; i < p.Peers; i++ {
		other := c.NewData(&pb.DataConfig{Name: fmt.Sprint("p", i), NoTarget: true})
		for k := 0; k < p.N; k++ {
			other.Insert(datum(k+i, p.Dim), nil)
		}
		other.Process(true)
		dt.AddSource(other)
	}
	if p.Slow {
		dt.AddSource(&vk.Peer{ID: "slow", OnSearch: func(d *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error {
			for k := 0; k < 150; k++ {
				time.Sleep(10 * time.Millisecond)
				out <- &pb.ScoredDatum{Datum: datum(k, p.Dim), Score: 1}
			}
			return nil
		}})
	}
	dt.Process(true)
	serial := 0
	do := func(w Work) {
		serial++
		at := 3
		if w.Fresh {
			at = serial
		}
		switch w.Kind {
		case "search":
			cfg := &pb.SearchConfig{DataName: "d", ScoreFuncName: w.Func, HigherIsBetter: w.Func == "CosineSimilarity" || strings.HasPrefix(w.Func, "Annoy"), Limit: w.Limit,
				GroupLimit: w.Groups, CacheDuration: w.Cache, Timeout: 10000}
			if p.Slow {
				cfg.Timeout = 200
			}
			if w.Filter {
				cfg.Filters = []string{"l"}
				cfg.GroupFilters = []string{"g"}
			}
			if w.Fresh {
				cfg.Uuid = fmt.Sprintf("8c0f3b0e-5f0c-4f0e-9d5b-%012d", serial) // as other nodes send it
			}
			req := &pb.SearchRequest{Config: cfg}
			for k := 0; k < w.Multi; k++ {
				q := datum(at*3+k, w.Dim)
				if w.Fresh && w.Dim > 0 {
					q.Key.Feature[0] += float32(at) / 64
				}
				req.Datum = append(req.Datum, q)
			}
			if w.Ctx > 0 {
				req.Context = &pb.SearchContext{Prioritize: true}
				for k := 0; k < w.Ctx; k++ {
					req.Context.Datum = append(req.Context.Datum, datum(k, w.Dim))
				}
			}
			n.SearchStream(req, &vk.Stream[*pb.ScoredDatum]{})
		case "renew":
			if p.N > 0 {
				n.Insert(ctx, &pb.InsertionRequest{DataName: "d", Datum: datum(serial%p.N, p.Dim), Config: &pb.InsertConfig{}})
			}
		case "insert":
			d := datum(100000+at, w.Dim)
			n.Insert(ctx, &pb.InsertionRequest{DataName: "d", Datum: d, Config: &pb.InsertConfig{}})
			dt.Delete(d)
		case "expire":
			n.Insert(ctx, &pb.InsertionRequest{DataName: "d", Datum: datum(200000+at, w.Dim), Config: &pb.InsertConfig{TTL: w.TTL}})
		case "pass":
			dt.Process(true)
		case "info":
			n.GetDataInfo(ctx, &pb.GetDataRequest{Name: "d"})
			n.Info()
		case "stream":
			n.DataStream(&pb.GetDataRequest{Name: "d"}, &vk.Stream[*pb.Datum]{})
		case "create", "close":
			name := fmt.Sprint("extra", at)
			n.CreateDataIfNotExists(ctx, &pb.DataConfig{Name: name, NoTarget: true, Retention: w.TTL})
			o, err := n.Dataset.GetNoCreate(name)
			if err != nil {
				return
			}
			for k := 0; k < 10; k++ {
				o.Insert(datum(k, w.Dim), nil)
			}
			o.Process(true)
			if w.Kind == "close" { // the others expire
				n.Dataset.Delete(name)
			}
		case "refused":
			n.Insert(ctx, &pb.InsertionRequest{DataName: "d", Datum: &pb.Datum{}, Config: &pb.InsertConfig{}})
			n.GetDataInfo(ctx, &pb.GetDataRequest{Name: "no such dataset"})
			n.SearchStream(&pb.SearchRequest{Config: &pb.SearchConfig{DataName: "d"}}, &vk.Stream[*pb.ScoredDatum]{})
		case "join":
			peer := &pb.Peer{AddressList: []string{fmt.Sprint("other:", at)}, Timestamp: uint64(time.Now().Unix())}
			n.AddPeer(ctx, &pb.AddPeerRequest{Peer: peer})
			n.Join(ctx, &pb.JoinRequest{Peer: peer})
		case "maintain":
			n.Dataset.ReloadRuns()
		case "save":
			n.Dataset.SaveIndex()
		case "source":
			if p.Peers > 0 {
				for _, s := range dt.Sources.Items() {
					dt.AddSource(s.Object.(data.DataSource))
				}
			}
		}
		if serial%50 == 0 {
			c.Sleep(time.Second)
		}
	}
	round := func() usage {
		for r := 0; r < p.Reps; r++ {
			for _, w := range p.Works {
				if r%w.Every == 0 {
					do(w)
				}
			}
		}
		for k := 0; k < 2; k++ { // caches, peers and expiring data are cleaned up by then
			c.Sleep(6 * time.Minute)
			for _, s := range dt.Sources.Items() {
				dt.AddSource(s.Object.(data.DataSource))
			}
		}
		return measure(c)
	}
	round()
	first := round()
	var all []usage
	for k := 0; k < 4; k++ {
		all = append(all, round())
	}
	for _, m := range metrics {
		rises := func(u []usage, by int64) (int, int64) {
			up, total := 0, int64(0)
			for i := 1; i < len(u); i++ {
				d := m.of(u[i]) - m.of(u[i-1])
				total += d
				if d >= by {
					up++
				}
			}
			return up, total
		}
		u := append([]usage{first}, all...)
		if up, _ := rises(u, m.step); up < len(u)-1 {
			continue
		}
		c.Label("looked-closer")
		u = u[len(u)-1:] // once may be chance
		for k := 0; k < 10; k++ {
			u = append(u, round())
		}
		if up, total := rises(u, m.step); up < 9 || total < 10*m.step {
			continue
		}
		for k := 0; k < 30; k++ { // what grows up to a bound (pools, free lists) has reached it by then
			u = append(u, round())
		}
		_, early := rises(u[:21], m.step)
		_, late := rises(u[20:], m.step)
		if early >= 16*m.step && late >= 16*m.step && late >= early/2 {
			c.Failf(m.name, "%s grows with every round of the same work, by %d in the last %d rounds", m.what, early+late, len(u)-1)
		}
	}
	busy := false
	for _, w := range p.Works {
		c.Label(w.Kind)
		busy = busy || w.Kind == "search" || w.Kind == "insert" || w.Kind == "expire" || w.Kind == "create" || w.Kind == "close" || w.Kind == "pass"
	}
	c.LabelIf(p.Slow, "slow-peer")
	c.NonTrivialIf(p.N > 0 && busy)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("repeat", 90, 1500, true, gen, run))
}

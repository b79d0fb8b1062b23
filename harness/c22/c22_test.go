package c22

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind string // create insert delete pass wait maintain peer peerset
	Name int
	D    int
	TTL  uint64 `json:"ttl,omitempty"`
	Secs int    `json:"secs,omitempty"`
	Peer string `json:"peer,omitempty"` // none (unreachable), empty, full, flaky
	N    uint64 `json:"n,omitempty"`    // what a full or flaky peer reports
}

type Plan struct{ Ops []Op }

func gen(t *rapid.T) Plan {
	var p Plan
	for n := rapid.IntRange(2, 30).Draw(t, "n"); n > 0; n-- {
		p.Ops = append(p.Ops, Op{
			Kind: rapid.SampledFrom([]string{"create", "insert", "insert", "insert", "delete", "pass", "wait", "wait", "maintain", "maintain", "maintain", "peer"}).Draw(t, "kind"),
			Name: rapid.IntRange(0, 2).Draw(t, "name"), D: rapid.IntRange(0, 5).Draw(t, "d"),
			TTL: rapid.SampledFrom([]uint64{0, 0, 5, 30, 100}).Draw(t, "ttl"), Secs: rapid.SampledFrom([]int{1, 7, 31, 61, 75, 200, 700}).Draw(t, "secs"),
			Peer: rapid.SampledFrom([]string{"none", "empty", "full", "flaky"}).Draw(t, "peer"),
			N:    rapid.SampledFrom([]uint64{1, 1, 2, 5, 1000, 1 << 40, 1<<64 - 1}).Draw(t, "peerN"),
		})
	}
	return p
}

// datum returns one of a few datums, some without features or with zeros only
func datum(k int) vk.D {
	switch k {
	case 1:
		return vk.D{}
	case 2:
		return vk.D{F: []float32{0, 0}}
	case 3:
		return vk.D{G: "g", S1: 1, D2: 1}
	}
	return vk.D{F: []float32{float32(k), 1}}
}

type entry struct {
	val    string
	expire int64
}

type set struct {
	dt    *data.Data
	m     map[string]entry
	peers map[string]*attached
}

type attached struct {
	kind string
	at   time.Time
	n    int
}

func run(c *vk.Ctx, p Plan) {
	dts := c.NewDataset(c.Dir())
	model := map[string]*set{}
	kept, removed, unprocessed, withPeer := 0, 0, 0, 0
	live := func(s *set) map[string]string {
		out := map[string]string{}
		for k, e := range s.m {
			if e.expire == 0 || e.expire > time.Now().Unix() {
				out[k] = e.val
			}
		}
		return out
	}
	for i, op := range p.Ops {
		name := fmt.Sprint("n", op.Name)
		what := fmt.Sprintf("op %d (%s %s)", i, op.Kind, name)
		s := model[name]
		switch op.Kind {
		case "create", "insert":
			if s == nil {
				dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true})
				if err != nil {
					c.Failf("create", "%s: %v", what, err)
				}
				c.Cleanup(func() { dt.Alive = false })
				s = &set{dt: dt, m: map[string]entry{}, peers: map[string]*attached{}}
				model[name] = s
				c.Settle()
			}
			if op.Kind == "insert" {
				d := datum(op.D)
				if i%3 > 0 {
					d.L = fmt.Sprint(i)
				}
				if err := s.dt.Insert(d.PB(), &pb.InsertConfig{TTL: op.TTL, Count: uint64(i % 3)}); err != nil {
					c.Failf("insert", "%s: %v", what, err)
				}
				e := entry{val: d.Val()}
				if op.TTL > 0 {
					e.expire = time.Now().Unix() + int64(op.TTL)
				}
				s.m[d.Key()] = e
			}
		case "delete":
			if s != nil {
				d := datum(op.D)
				s.dt.Delete(d.PB())
				delete(s.m, d.Key())
			}
		case "pass":
			if s != nil {
				s.dt.Process(true)
			}
		case "wait":
			c.Sleep(time.Duration(op.Secs) * time.Second)
		case "peer":
			if s != nil {
				id := "peer-" + op.Peer
				a := &attached{kind: op.Peer}
				src := &vk.Peer{ID: id, OnInsert: func(int, *pb.Datum, *pb.InsertConfig) error { return fmt.Errorf("refused") }}
				src.Info = func(n int) *pb.DataInfo {
					switch {
					case a.kind == "none", a.kind == "flaky" && n%2 == 0:
						return nil
					case a.kind == "empty":
						return &pb.DataInfo{}
					}
					info := &pb.DataInfo{N: op.N}
					if op.D%2 == 0 {
						info.Avg, info.Hist, info.MaxDistance = []float32{9, 9}, []float32{1}, 3
					}
					return info
				}
				if s.dt.AddSource(src) == nil {
					a.at = time.Now()
					s.peers[id] = a
				}
				c.Settle()
			}
		case "maintain":
			type want struct {
				data map[string]string
				hard bool
			}
			before := map[string]want{}
			for n, s := range model {
				w := want{data: live(s)}
				w.hard = len(w.data) > 0
				for _, a := range s.peers {
					if time.Since(a.at) < 9*time.Minute && a.kind == "full" {
						w.hard = true
						withPeer++
					}
				}
				if len(w.data) > 0 && s.dt.GetDataInfo().N == 0 {
					unprocessed++
				}
				before[n] = w
			}
			if err := dts.ReloadRuns(); err != nil {
				c.Failf("maintain", "%s: %v", what, err)
			}
			c.Settle()
			for n, w := range before {
				dt, err := dts.GetNoCreate(n)
				if err != nil {
					if w.hard {
						c.Failf("dropped", "%s: %s was dropped with %d live datums (peers %v)", what, n, len(w.data), len(model[n].peers))
					}
					removed++
					delete(model, n)
					continue
				}
				if dt != model[n].dt || !dt.Alive {
					c.Failf("replaced", "%s: %s is another dataset or closed", what, n)
				}
				kept++
			}
		}
		for n, s := range model {
			dt, err := dts.GetNoCreate(n)
			if err != nil {
				c.Failf("dropped", "%s: %s: %v", what, n, err)
			}
			if diff := vk.DiffMaps(c.Contents(dt), live(s)); diff != "" {
				c.Failf("contents", "%s: %s: %s", what, n, diff)
			}
		}
	}
	c.LabelIf(removed > 0, "removed-empty")
	c.LabelIf(unprocessed > 0, "unprocessed-data-at-maintenance")
	c.LabelIf(withPeer > 0, "data-at-peer")
	c.NonTrivialIf(kept > 0)
}

// During: inserts arrive while the maintenance pass waits for the answers of slow peers.
type During struct {
	Sets []struct {
		Data  int // datums before
		Pass  bool
		Peers []SlowPeer
	}
	Inserts []struct {
		Name, D, Ms int
		TTL         uint64
	}
	Again int // a second maintenance pass after so many ms, 0: none
}

type SlowPeer struct {
	Kind string // none, empty, full
	Ms   int
}

func genDuring(t *rapid.T) During {
	var p During
	for n := rapid.IntRange(1, 3).Draw(t, "sets"); n > 0; n-- {
		var s struct {
			Data  int
			Pass  bool
			Peers []SlowPeer
		}
		s.Data = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "data")
		s.Pass = rapid.Bool().Draw(t, "pass")
		for k := rapid.IntRange(0, 2).Draw(t, "peers"); k > 0; k-- {
			s.Peers = append(s.Peers, SlowPeer{Kind: rapid.SampledFrom([]string{"none", "none", "empty", "full"}).Draw(t, "kind"), Ms: rapid.SampledFrom([]int{1, 20, 1000, 10000}).Draw(t, "ms")})
		}
		p.Sets = append(p.Sets, s)
	}
	for n := rapid.IntRange(1, 8).Draw(t, "inserts"); n > 0; n-- {
		p.Inserts = append(p.Inserts, struct {
			Name, D, Ms int
			TTL         uint64
		}{rapid.IntRange(0, len(p.Sets)-1).Draw(t, "name"), rapid.IntRange(0, 9).Draw(t, "d"), rapid.SampledFrom([]int{0, 1, 5, 15, 500, 1500, 5000, 9995, 10005, 15000, 25000}).Draw(t, "ms"), rapid.SampledFrom([]uint64{0, 0, 3600}).Draw(t, "ttl")})
	}
	p.Again = rapid.SampledFrom([]int{0, 0, 3, 700, 12000}).Draw(t, "again")
	return p
}

func runDuring(c *vk.Ctx, p During) {
	dts := c.NewDataset(c.Dir())
	over := false
	var used []*data.Data
	refused := map[string]bool{}
	c.Cleanup(func() {
		over = true
		for _, dt := range used {
			dt.Alive = false
		}
	})
	model := map[string]map[string]string{}
	var mu sync.Mutex
	put := func(name string, d vk.D, ttl uint64) {
		dt, err := dts.Get(name) // as the service does
		if err == nil {
			err = dt.Insert(d.PB(), &pb.InsertConfig{Count: 1, TTL: ttl})
		}
		mu.Lock()
		defer mu.Unlock()
		if err != nil { // refused as the dataset is just being removed: it may be there or not
			refused[name+d.Key()] = true
			return
		}
		used = append(used, dt)
		if model[name] == nil {
			model[name] = map[string]string{}
		}
		model[name][d.Key()] = d.Val()
	}
	slow := false
	for i, s := range p.Sets {
		name := fmt.Sprint("n", i)
		dt, _ := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true})
		c.Cleanup(func() { dt.Alive = false })
		c.Settle()
		for k := 0; k < s.Data; k++ {
			put(name, vk.D{F: []float32{float32(k), -1}, L: "before"}, 0)
		}
		if s.Pass {
			dt.Process(true)
		}
		for k, pr := range s.Peers {
			pr := pr
			slow = slow || pr.Ms >= 20 && s.Data == 0
			src := &vk.Peer{ID: fmt.Sprint("peer", k), Latency: time.Duration(pr.Ms) * time.Millisecond}
			src.OnInsert = func(int, *pb.Datum, *pb.InsertConfig) error {
				time.Sleep(10 * time.Millisecond)
				if over {
					return nil
				}
				return errors.New("refused")
			}
			src.Info = func(int) *pb.DataInfo {
				switch {
				case over || pr.Kind == "empty":
					return &pb.DataInfo{}
				case pr.Kind == "none":
					return nil
				}
				return &pb.DataInfo{N: 7}
			}
			dt.AddSource(src)
		}
	}
	c.Settle()
	var wg sync.WaitGroup
	start := func(ms int, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(ms) * time.Millisecond)
			f()
		}()
	}
	start(0, func() { dts.ReloadRuns() })
	if p.Again > 0 {
		start(p.Again, func() { dts.ReloadRuns() })
	}
	for _, in := range p.Inserts {
		start(in.Ms, func() { put(fmt.Sprint("n", in.Name), vk.D{F: []float32{float32(in.D), 1}, L: fmt.Sprint("at", in.D)}, in.TTL) })
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Minute):
		c.Failf("stuck", "the maintenance pass did not end within 5 minutes")
	}
	c.Sleep(3 * time.Minute)
	for name, want := range model {
		dt, err := dts.GetNoCreate(name)
		if err != nil {
			c.Failf("dropped", "%s was dropped with %d datums: %v", name, len(want), err)
		}
		have := c.Contents(dt)
		for k, v := range have {
			if _, ok := want[k]; !ok && refused[name+k] {
				want[k] = v
			}
		}
		if diff := vk.DiffMaps(have, want); diff != "" {
			c.Failf("contents", "%s: %s", name, diff)
		}
		if n := dt.GetDataInfo().N; n != uint64(len(want)) {
			c.Failf("not-running", "%s holds %d datums and reports %d three minutes later", name, len(want), n)
		}
	}
	c.LabelIf(len(refused) > 0, "refused-insert")
	c.LabelIf(slow, "empty-dataset-with-slow-peer")
	c.LabelIf(p.Again > 0, "two-passes")
	c.NonTrivialIf(slow)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 1500, 40000, true, gen, run), vk.Sub("during", 1500, 40000, true, genDuring, runDuring))
}

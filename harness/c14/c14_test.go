package c14

import (
	"errors"
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Op  string // put, del, process, sleep
	I   int    `json:"i,omitempty"`
	N   int    `json:"n,omitempty"` // put: this many keys from I on
	TTL uint64 `json:"ttl,omitempty"`
	New bool   `json:"new,omitempty"` // a new value (otherwise the old value again, if any)
	Ms  int    `json:"ms,omitempty"`
}

// Act is what a peer does on an insert it receives.
type Act struct {
	Refuse int    `json:"refuse,omitempty"` // 0 accept, 1 over target, 2 drain, 3 connection
	Ms     int    `json:"ms,omitempty"`     // takes this long
	Put    bool   `json:"put,omitempty"`    // meanwhile a newer version is inserted locally
	Same   bool   `json:"same,omitempty"`   // ... with the same value but another lifetime
	Del    bool   `json:"del,omitempty"`    // meanwhile the datum is deleted locally
	TTL    uint64 `json:"ttl,omitempty"`
}

type Peer struct {
	N    []int // reported sizes in turn, -1: no information
	Avg  int
	Acts []Act
}

type Plan struct {
	Target   uint64
	Util     float64
	NoTarget bool
	Peers    []Peer
	Ops      []Op
}

var ttls = []uint64{0, 0, 12, 30, 500, 100000}

func genPeers(t *rapid.T, calm bool) []Peer {
	var out []Peer
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "peers"); i < n; i++ {
		p := Peer{Avg: rapid.SampledFrom([]int{0, 5, 100}).Draw(t, "avg")}
		for j, m := 0, rapid.IntRange(1, 3).Draw(t, "infos"); j < m; j++ {
			p.N = append(p.N, rapid.SampledFrom([]int{0, 0, 0, 1, 5, 10, 1000, -1}).Draw(t, "N"))
		}
		for j, m := 0, rapid.IntRange(1, 4).Draw(t, "acts"); j < m; j++ {
			a := Act{}
			if rapid.IntRange(0, 2).Draw(t, "refuse") == 0 {
				a.Refuse = rapid.IntRange(1, 3).Draw(t, "how")
			}
			if !calm {
				a.Ms = rapid.SampledFrom([]int{0, 0, 1, 50}).Draw(t, "ms")
				switch rapid.IntRange(0, 5).Draw(t, "meanwhile") {
				case 0:
					a.Put, a.TTL = true, rapid.SampledFrom(ttls).Draw(t, "ttl")
				case 1:
					a.Put, a.Same, a.TTL = true, true, rapid.SampledFrom(ttls).Draw(t, "ttl")
				case 2:
					a.Del = true
				}
			}
			p.Acts = append(p.Acts, a)
		}
		out = append(out, p)
	}
	return out
}

func gen(t *rapid.T) Plan {
	p := Plan{Target: rapid.SampledFrom([]uint64{40, 30, 20, 100}).Draw(t, "target"), Util: rapid.SampledFrom([]float64{0, 0.01, 0.05, 0.1, 0.4}).Draw(t, "util"),
		NoTarget: rapid.IntRange(0, 3).Draw(t, "no") == 0, Peers: genPeers(t, false)}
	for n := rapid.IntRange(2, 15).Draw(t, "ops"); n > 0; n-- {
		switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
		case k < 3:
			p.Ops = append(p.Ops, Op{Op: "put", I: rapid.IntRange(0, 19).Draw(t, "i"), N: rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "n"),
				TTL: rapid.SampledFrom(ttls).Draw(t, "ttl"), New: rapid.Bool().Draw(t, "new")})
		case k < 4:
			p.Ops = append(p.Ops, Op{Op: "del", I: rapid.IntRange(0, 19).Draw(t, "i")})
		case k < 8:
			p.Ops = append(p.Ops, Op{Op: "process"})
		default:
			p.Ops = append(p.Ops, Op{Op: "sleep", Ms: rapid.SampledFrom([]int{10, 60, 1000, 70000}).Draw(t, "ms")})
		}
	}
	return p
}

var refusals = []error{nil, errors.New("Number of elements is over the target"), errors.New("Node is in drain mode"), errors.New("Connection failure")}

type version struct {
	d   vk.D
	exp int64 // 0: never
}

type world struct {
	mu    sync.Mutex
	dt    *data.Data
	model map[string]version
	peers []*vk.Peer
	next  int
	newer bool

	unmarked string // was sent on as if it came from a client
}

func (w *world) put(d vk.D, ttl uint64) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	err := w.dt.Insert(d.PB(), &pb.InsertConfig{TTL: ttl, Count: 1})
	if err == nil {
		v := version{d: d}
		if ttl > 0 {
			v.exp = time.Now().Unix() + int64(ttl)
		}
		w.model[d.Key()] = v
	}
	return err
}

func (w *world) attach(c *vk.Ctx, specs []Peer) {
	for i, s := range specs {
		s := s
		p := &vk.Peer{ID: fmt.Sprintf("p%d", i)}
		p.Info = func(n int) *pb.DataInfo {
			x := s.N[n%len(s.N)]
			if x < 0 {
				return nil
			}
			return &pb.DataInfo{N: uint64(x), Avg: []float32{float32(s.Avg), 0}}
		}
		p.OnInsert = func(n int, d *pb.Datum, cfg *pb.InsertConfig) error {
			a := s.Acts[n%len(s.Acts)]
			k := vk.FromPB(d)
			if cfg.GetCount() == 0 {
				w.mu.Lock()
				w.unmarked = k.Key()
				w.mu.Unlock()
			}
			time.Sleep(time.Duration(a.Ms) * time.Millisecond / 2)
			if a.Put {
				nd := k
				if !a.Same {
					w.mu.Lock()
					w.next++
					nd.L = fmt.Sprint("v", w.next)
					w.mu.Unlock()
				}
				if w.put(nd, a.TTL) == nil {
					w.newer = true
				}
			}
			if a.Del {
				w.mu.Lock()
				w.dt.Delete(k.PB())
				delete(w.model, k.Key())
				w.mu.Unlock()
			}
			time.Sleep(time.Duration(a.Ms) * time.Millisecond / 2)
			return refusals[a.Refuse]
		}
		w.peers = append(w.peers, p)
	}
	w.reattach()
}

func (w *world) reattach() {
	for _, p := range w.peers {
		w.dt.AddSource(p)
	}
}

// check: the latest version of every live datum is here or was accepted by a peer
func (w *world) check(c *vk.Ctx, what string) (gone int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := time.Now().Unix()
	if w.unmarked != "" {
		c.Failf("unmarked", "%s: %s was offered to a peer without being marked as a copy, the peer would replicate it again", what, w.unmarked)
	}
	have := c.Contents(w.dt)
	for k, v := range w.model {
		if v.exp != 0 && v.exp <= now {
			continue
		}
		if g, ok := have[k]; ok {
			if g != v.d.Val() {
				c.Failf("wrong-value", "%s: %s is %s, want %s", what, k, g, v.d.Val())
			}
			continue
		}
		gone++
		ok := false
		var seen []string
		for _, p := range w.peers {
			for _, r := range p.Accepted() {
				if r.Key != k {
					continue
				}
				seen = append(seen, fmt.Sprintf("%s ttl %d at %d", r.Val, r.TTL, r.At.Unix()))
				if r.Val == v.d.Val() && ((v.exp == 0 && r.TTL == 0) || (v.exp != 0 && r.TTL != 0 && math.Abs(float64(r.At.Unix()+int64(r.TTL)-v.exp)) <= 2)) {
					ok = true
				}
			}
		}
		if !ok {
			c.Failf("lost", "%s: %s=%s (expires %d, now %d) is gone, peers accepted %v", what, k, v.d.Val(), v.exp, now, seen)
		}
	}
	for k := range have {
		if v, ok := w.model[k]; !ok || (v.exp != 0 && v.exp <= now) {
			c.Failf("alien", "%s: unexpected %s", what, k)
		}
	}
	return gone
}

func run(c *vk.Ctx, p Plan) {
	w := &world{model: map[string]version{}}
	w.dt = c.NewData(&pb.DataConfig{Name: "d", NoTarget: p.NoTarget, TargetN: p.Target, TargetUtilization: p.Util})
	w.attach(c, p.Peers)
	gone, any := 0, false
	for n, op := range p.Ops {
		w.reattach()
		switch op.Op {
		case "put":
			for i := op.I; i < op.I+op.N; i++ {
				d := vk.D{F: []float32{float32(i), 1}, L: "v"}
				w.mu.Lock()
				if old, ok := w.model[d.Key()]; ok && !op.New {
					d.L = old.d.L
				} else {
					w.next++
					d.L = fmt.Sprint("v", w.next)
				}
				w.mu.Unlock()
				w.put(d, op.TTL)
			}
		case "del":
			d := vk.D{F: []float32{float32(op.I), 1}}
			w.mu.Lock()
			w.dt.Delete(d.PB())
			delete(w.model, d.Key())
			w.mu.Unlock()
		case "process":
			w.dt.Process(true)
		case "sleep":
			time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		}
		c.Settle()
		g := w.check(c, fmt.Sprintf("op %d (%s)", n, op.Op))
		if g > 0 && p.NoTarget {
			c.Failf("evicted-without-target", "op %d: %d datums gone", n, g)
		}
		if g > gone {
			gone = g
		}
	}
	time.Sleep(5 * time.Second) // transfers end
	c.Settle()
	w.check(c, "end")
	for _, pr := range w.peers {
		any = any || len(pr.Attempts()) > 0
	}
	c.LabelIf(any, "transferred")
	c.LabelIf(gone > 0, "evicted")
	c.LabelIf(w.newer, "newer-insert-during-transfer")
	c.NonTrivialIf(gone > 0 || (any && w.newer))
}

// Bound: how far eviction goes.
type Bound struct {
	N        int
	Extra    int // inserted after the count was taken
	Target   uint64
	Util     float64
	NoTarget bool
	Passes   int
	Peers    []Peer
}

func genBound(t *rapid.T) Bound {
	p := Bound{N: rapid.IntRange(0, 60).Draw(t, "n"), Extra: rapid.SampledFrom([]int{0, 0, 3, 20}).Draw(t, "extra"),
		Target: uint64(rapid.OneOf(rapid.IntRange(1, 120), rapid.SampledFrom([]int{10, 20, 30, 40, 50})).Draw(t, "target")), Util: rapid.SampledFrom([]float64{0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.9, 1, 1.5}).Draw(t, "util"),
		NoTarget: rapid.IntRange(0, 4).Draw(t, "no") == 0, Passes: rapid.IntRange(1, 5).Draw(t, "passes"), Peers: genPeers(t, true)}
	return p
}

func runBound(c *vk.Ctx, p Bound) {
	w := &world{model: map[string]version{}}
	w.dt = c.NewData(&pb.DataConfig{Name: "d", NoTarget: p.NoTarget, TargetN: p.Target, TargetUtilization: p.Util})
	for i := 0; i < p.N; i++ {
		w.put(vk.D{F: []float32{float32(i), 1}, L: "v"}, 0)
	}
	w.dt.Process(true)
	c.Settle()
	for i := p.N; i < p.N+p.Extra; i++ {
		w.put(vk.D{F: []float32{float32(i), 1}, L: "v"}, 0)
	}
	w.attach(c, p.Peers)
	total := 0
	for i := 0; i < p.Passes; i++ {
		before := len(c.Contents(w.dt))
		counted := w.dt.GetDataInfo().N
		w.dt.Process(true)
		c.Settle()
		w.check(c, fmt.Sprintf("pass %d", i))
		evicted := before - len(c.Contents(w.dt))
		floor := math.Floor(float64(p.Target) * p.Util)
		allow := int(counted) - int(floor) + 1
		if floor == 0 {
			allow = before
		}
		if allow < 0 || p.NoTarget {
			allow = 0
		}
		if evicted > allow {
			c.Failf("over-evicted", "pass %d: %d evicted, but %d were counted and %v x %v must stay", i, evicted, counted, p.Target, p.Util)
		}
		total += evicted
		c.LabelIf(evicted > 0 && evicted >= allow-1 && floor > 1, "down-to-the-share")
	}
	c.LabelIf(total > 0, "evicted")
	c.NonTrivialIf(total > 0 && p.Util > 0)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("transfer", 3000, 100000, true, gen, run), vk.Sub("bound", 2000, 60000, true, genBound, runBound))
}

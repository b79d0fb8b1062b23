package c26

import (
	"errors"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Mod is a change made while the stream is running, after the At-th datum was sent.
type Mod struct {
	At     int
	Kind   string // overwrite, delete, insert, process
	Target int
}

type Plan struct {
	N        int
	Expiring []int // indices of datums with a TTL
	TTL      uint64
	Gone     []int // deleted before the stream starts
	DelayMs  []int // consumer delays, repeated cyclically
	FailAt   int   // -1: the consumer never goes away
	Mods     []Mod
	Before   int // seconds between the inserts and the stream
	Streams  int // streams at the same time
}

func gen(t *rapid.T) Plan {
	p := Plan{N: rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 130), rapid.SampledFrom([]int{0, 1, 99, 100, 101, 102, 200, 201, 300, 450})).Draw(t, "n"), FailAt: -1,
		TTL: rapid.Uint64Range(1, 40).Draw(t, "ttl"), Before: rapid.SampledFrom([]int{0, 0, 1, 10, 45}).Draw(t, "before"), Streams: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "streams")}
	p.DelayMs = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 20, 500, 3000}), 1, 5).Draw(t, "delays")
	if p.N > 0 {
		idx := rapid.IntRange(0, p.N-1)
		if rapid.IntRange(0, 2).Draw(t, "ttls") == 0 {
			p.Expiring = rapid.SliceOfN(idx, 0, 8).Draw(t, "expiring")
		}
		p.Gone = rapid.SliceOfN(idx, 0, 3).Draw(t, "gone")
		if rapid.IntRange(0, 4).Draw(t, "fails") == 0 {
			p.FailAt = idx.Draw(t, "failAt")
		}
		if rapid.IntRange(0, 1).Draw(t, "mods") == 0 {
			for k := rapid.IntRange(1, 6).Draw(t, "nmods"); k > 0; k-- {
				p.Mods = append(p.Mods, Mod{At: idx.Draw(t, "at"), Kind: rapid.SampledFrom([]string{"overwrite", "delete", "insert", "process"}).Draw(t, "mod"), Target: idx.Draw(t, "target")})
			}
		}
	}
	return p
}

// d is datum i: most have features, a few none or only zeros, and the rest of the key and the value vary.
func d(i int, l string) vk.D {
	x := vk.D{F: []float32{float32(i), float32(i % 7)}, L: l}
	switch i % 11 {
	case 1:
		x.F, x.G = nil, fmt.Sprint("g", i)
	case 3:
		x.F, x.S1 = []float32{0, 0}, uint32(i)
	case 5:
		x.F = x.F[:1]
	case 6:
		x.G, x.D2, x.V = "{\"a\":1}", 7, uint64(i)
	case 8:
		x.G = "\xff\x00"
	case 9:
		x.F, x.D1 = []float32{float32(i), 1, 2, 3}, 4
	}
	if i%5 == 2 && i%11 != 3 { // each field alone with a small number
		*[]*uint32{&x.S1, &x.S2, &x.D1, &x.D2}[i/5%4] = uint32(i/20%3 + 1)
	}
	if i%4 == 1 && l != "" && l[0] == 'v' {
		x.L = ""
	}
	return x
}

func run(c *vk.Ctx, p Plan) {
	c.ExpectNoLeak()
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	if err := n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true}); err != nil {
		c.Failf("create", "%v", err)
	}
	dt, err := n.Dataset.GetNoCreate("a")
	if err != nil {
		c.Failf("create", "%v", err)
	}
	// live[key]: values the datum may be delivered with; must: it has to be delivered; may: it can be
	vals := map[string]map[string]bool{}
	must := map[string]bool{}
	ttl := map[int]bool{}
	for _, i := range p.Expiring {
		ttl[i] = true
	}
	put := func(x vk.D, ttl uint64) {
		if err := dt.Insert(x.PB(), &pb.InsertConfig{TTL: ttl}); err != nil {
			c.Failf("insert", "%v", err)
		}
	}
	for i := 0; i < p.N; i++ {
		x := d(i, fmt.Sprint("v", i))
		u := uint64(0)
		if ttl[i] {
			u = p.TTL
		}
		put(x, u)
		vals[x.Key()] = map[string]bool{x.Val(): true}
		must[x.Key()] = true
	}
	inserted := time.Now()
	for _, i := range p.Gone {
		x := d(i, "")
		dt.Delete(x.PB())
		delete(must, x.Key())
		delete(vals, x.Key())
	}
	c.Sleep(time.Duration(p.Before) * time.Second)
	c.Settle()
	deadAtStart := p.Before > 0 && uint64(p.Before) >= p.TTL
	if deadAtStart {
		for i := range ttl {
			delete(must, d(i, "").Key())
			delete(vals, d(i, "").Key())
		}
	}
	start := time.Now()
	var changed atomic.Int64
	type result struct {
		st   *vk.Stream[*pb.Datum]
		err  error
		late atomic.Int64
		over atomic.Int64
		ret  atomic.Bool
		done chan struct{}
	}
	var rs []*result
	for k := 0; k < p.Streams; k++ {
		r := &result{done: make(chan struct{})}
		var inflight atomic.Int64
		first := k == 0
		r.st = &vk.Stream[*pb.Datum]{OnSend: func(i int, x *pb.Datum) error {
			if r.ret.Load() {
				r.late.Add(1)
			}
			if inflight.Add(1) > 1 {
				r.over.Add(1)
			}
			defer inflight.Add(-1)
			if ms := p.DelayMs[i%len(p.DelayMs)]; ms > 0 {
				time.Sleep(time.Duration(ms) * time.Millisecond)
			}
			if first {
				for j, m := range p.Mods {
					if m.At != i {
						continue
					}
					changed.Add(1)
					t := d(m.Target, fmt.Sprint("w", j))
					switch m.Kind {
					case "overwrite":
						if must[t.Key()] && !ttl[m.Target] { // values are recorded below
							dt.Insert(t.PB(), &pb.InsertConfig{})
						}
					case "delete":
						dt.Delete(t.PB())
					case "insert":
						dt.Insert(d(10000+m.Target, fmt.Sprint("n", j)).PB(), &pb.InsertConfig{})
					case "process":
						dt.Process(true)
					}
				}
			}
			if p.FailAt >= 0 && i >= p.FailAt {
				return errors.New("transport is closing")
			}
			return nil
		}}
		rs = append(rs, r)
	}
	// what the modifications allow
	for j, m := range p.Mods {
		t := d(m.Target, fmt.Sprint("w", j))
		switch m.Kind {
		case "overwrite":
			if must[t.Key()] && !ttl[m.Target] {
				vals[t.Key()][t.Val()] = true
			}
		case "insert":
			x := d(10000+m.Target, fmt.Sprint("n", j))
			if vals[x.Key()] == nil {
				vals[x.Key()] = map[string]bool{}
			}
			vals[x.Key()][x.Val()] = true
		}
	}
	optional := map[string]bool{}
	for _, m := range p.Mods {
		if m.Kind == "delete" {
			optional[d(m.Target, "").Key()] = true
		}
	}
	for _, r := range rs {
		go func() {
			r.err = n.DataStream(&pb.GetDataRequest{Name: "a"}, r.st)
			r.ret.Store(true)
			close(r.done)
		}()
	}
	for _, r := range rs {
		select {
		case <-r.done:
		case <-time.After(6 * time.Hour):
			c.Failf("hang", "the stream did not end")
		}
	}
	elapsed := time.Since(start)
	c.Sleep(30 * time.Second)
	c.Settle()
	// expiring during the stream: may or may not be delivered
	if !deadAtStart && inserted.Add(time.Duration(p.TTL)*time.Second).Before(start.Add(elapsed).Add(2*time.Second)) {
		for i := range ttl {
			optional[d(i, "").Key()] = true
		}
	}
	for k, r := range rs {
		if r.over.Load() > 0 {
			c.Failf("concurrent-send", "stream %d: %d sends while another one was running", k, r.over.Load())
		}
		if r.late.Load() > 0 {
			c.Failf("late-send", "stream %d: %d sends after the call returned", k, r.late.Load())
		}
		seen := map[string]int{}
		for _, x := range r.st.Out {
			key := vk.FromPB(x).Key()
			if vals[key] == nil {
				c.Failf("unexpected", "stream %d delivered %v, which is not stored", k, x)
			}
			if !vals[key][vk.FromPB(x).Val()] {
				c.Failf("value", "stream %d delivered %v, which is not its value", k, x)
			}
			seen[key]++
			if seen[key] > 1 {
				c.Failf("duplicate", "stream %d delivered %v %d times", k, x, seen[key])
			}
		}
		if p.FailAt < 0 {
			if r.err != nil {
				c.Failf("error", "stream %d: %v", k, r.err)
			}
			for key := range must {
				if seen[key] == 0 && !optional[key] {
					c.Failf("missing", "stream %d delivered %d datums, but not %q (of %d that were live all the time)", k, len(r.st.Out), key, len(must))
				}
			}
		}
	}
	c.LabelIf(p.N > 100, "beyond-buffer")
	c.LabelIf(p.FailAt >= 0, "consumer-gone")
	c.LabelIf(changed.Load() > 0, "changed-meanwhile")
	c.LabelIf(elapsed > 0, "slow-consumer")
	c.NonTrivialIf(len(must) > 0)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("stream", 2500, 80000, true, gen, run))
}

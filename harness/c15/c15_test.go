package c15

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Item struct {
	I    int
	TTL  uint64
	Late bool // inserted right before the close, after the last processing pass
	Del  bool // deleted again before the close
}

type Peer struct {
	Kind    string // willing, refusing, silent (no information), busy (refuses every other insert)
	N       int    // reported size, -1: same as the dataset's own
	Similar bool   // reports the same statistics as the dataset itself
	Ms      int    // time per insert
}

type Plan struct {
	Items    []Item
	Procs    int // processing passes before the late inserts
	Peers    []Peer
	UntilSec int // nobody accepts before this time after the close
	NoTarget bool
	Bulk     int   `json:"bulk,omitempty"`   // further datums without TTL
	During   []int `json:"during,omitempty"` // inserts so many milliseconds after the close began
}

func gen(t *rapid.T) Plan {
	p := Plan{Bulk: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 110, 210}).Draw(t, "bulk"), Procs: rapid.IntRange(0, 2).Draw(t, "procs"), NoTarget: rapid.Bool().Draw(t, "no")}
	for i, n := 0, rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 60)).Draw(t, "items"); i < n; i++ {
		p.Items = append(p.Items, Item{I: i, TTL: rapid.SampledFrom([]uint64{0, 0, 0, 3, 10, 14, 18, 22, 25, 40, 60, 90, 200, 1000, 1 << 62}).Draw(t, "ttl"), Late: rapid.IntRange(0, 2).Draw(t, "late") == 0, Del: rapid.IntRange(0, 9).Draw(t, "del") == 0})
	}
	genPeer := func(kind string) Peer {
		return Peer{Kind: kind, N: rapid.SampledFrom([]int{0, 0, 5, 1000, -1}).Draw(t, "N"), Similar: rapid.Bool().Draw(t, "similar"), Ms: rapid.SampledFrom([]int{0, 0, 1, 30}).Draw(t, "ms")}
	}
	p.Peers = append(p.Peers, genPeer(rapid.SampledFrom([]string{"willing", "busy"}).Draw(t, "kind")))
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "more"); i < n; i++ {
		p.Peers = append(p.Peers, genPeer(rapid.SampledFrom([]string{"willing", "busy", "refusing", "silent"}).Draw(t, "kind")))
	}
	if rapid.Bool().Draw(t, "during") {
		for n := rapid.IntRange(1, 8).Draw(t, "inserts"); n > 0; n-- {
			p.During = append(p.During, rapid.SampledFrom([]int{0, 0, 0, 1, 19, 20, 21, 40, 100, 3000}).Draw(t, "ms"))
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "prompt") == 0 {
		for i := range p.Peers {
			p.Peers[i].Kind, p.Peers[i].Ms = "willing", 0
		}
	} else if rapid.IntRange(0, 3).Draw(t, "waits") == 0 {
		p.UntilSec = rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "until")
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: p.NoTarget, TargetN: 1000, TargetUtilization: 0.4})
	exp := map[string]int64{}
	val := map[string]string{}
	put := func(it Item) {
		d := vk.D{F: []float32{float32(it.I), 1}, L: fmt.Sprint("l", it.I)}
		if err := dt.Insert(d.PB(), &pb.InsertConfig{TTL: it.TTL, Count: uint64(it.I % 3)}); err != nil {
			c.Failf("insert", "%v", err)
		}
		exp[d.Key()] = 1 << 62
		if it.TTL > 0 && it.TTL < 1<<40 {
			exp[d.Key()] = time.Now().Unix() + int64(it.TTL)
		}
		val[d.Key()] = d.Val()
		if it.Del {
			dt.Delete(d.PB())
			delete(exp, d.Key())
		}
	}
	for _, it := range p.Items {
		if !it.Late {
			put(it)
		}
	}
	for i := 0; i < p.Bulk; i++ {
		put(Item{I: 1000 + i})
	}
	for i := 0; i < p.Procs; i++ {
		dt.Process(true)
	}
	late := false
	for _, it := range p.Items {
		if it.Late {
			put(it)
			late = late || !it.Del
		}
	}
	closedAt := time.Now()
	var peers []*vk.Peer
	for i, s := range p.Peers {
		s := s
		pr := &vk.Peer{ID: fmt.Sprintf("p%d", i), Latency: 20 * time.Millisecond}
		pr.Info = func(int) *pb.DataInfo {
			if s.Kind == "silent" {
				return nil
			}
			own := dt.GetDataInfo()
			n := uint64(s.N)
			if s.N < 0 {
				n = own.N
			}
			if s.Similar {
				return &pb.DataInfo{N: n, Avg: own.Avg, Hist: own.Hist}
			}
			return &pb.DataInfo{N: n, Avg: []float32{1000, 1000}}
		}
		pr.OnInsert = func(n int, d *pb.Datum, cfg *pb.InsertConfig) error {
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
			if s.Kind == "refusing" || s.Kind == "silent" || (s.Kind == "busy" && n%2 == 0) {
				return errors.New("Number of elements is over the target")
			}
			if time.Since(closedAt) < time.Duration(p.UntilSec)*time.Second {
				return errors.New("Connection failure")
			}
			return nil
		}
		peers = append(peers, pr)
		dt.AddSource(pr)
	}
	must := map[string]string{}
	// what expires within ten seconds need not be handed over; margin is how long the close may take for the rest
	margin := int64(15 + 2*p.UntilSec)
	for _, s := range p.Peers {
		margin += int64(4 * s.Ms * (len(p.Items) + p.Bulk) / 1000)
	}
	margin = min(margin, int64(90+2*p.UntilSec))
	prompt := p.UntilSec == 0
	for _, s := range p.Peers {
		prompt = prompt && s.Kind == "willing" && s.Ms == 0
	}
	if prompt { // everybody accepts at once
		margin = int64(3 + (len(p.Items)+p.Bulk)*len(p.Peers)/10)
		c.Label("prompt-peers")
	}
	for k, e := range exp {
		if e > time.Now().Unix()+10+margin {
			must[k] = val[k]
		}
	}
	c.Cleanup(func() { // a close that cannot finish would run for ever
		for _, d := range vk.All(dt) {
			dt.Delete(d)
		}
	})
	done := make(chan struct{})
	accepted := make([]bool, len(p.During))
	var inserts sync.WaitGroup
	extra := func(i int) vk.D { return vk.D{F: []float32{float32(i), 2}, L: fmt.Sprint("during", i)} }
	for i, ms := range p.During {
		val[extra(i).Key()] = extra(i).Val()
		inserts.Add(1)
		go func() {
			defer inserts.Done()
			time.Sleep(time.Duration(ms) * time.Millisecond)
			accepted[i] = dt.Insert(extra(i).PB(), &pb.InsertConfig{Count: 1}) == nil
		}()
	}
	go func() {
		defer close(done)
		dt.Close()
	}()
	if p.UntilSec > 0 && len(must) > 0 {
		time.Sleep(time.Duration(p.UntilSec)*time.Second - 500*time.Millisecond)
		select {
		case <-done:
			c.Failf("dropped", "the dataset closed although no peer accepted anything yet (%d datums to hand over)", len(must))
		default:
		}
		have := c.Contents(dt)
		for k, v := range must {
			if have[k] != v {
				c.Failf("dropped", "%s is gone although no peer accepted it", k)
			}
		}
	}
	select {
	case <-done:
	case <-time.After(10 * time.Minute):
		c.Failf("never-finishes", "close still running after 10 minutes although a peer accepts everything (%d datums left)", len(c.Contents(dt)))
	}
	inserts.Wait()
	c.Settle()
	got := map[string]string{}
	for _, pr := range peers {
		for _, r := range pr.Accepted() {
			if r.Val != val[r.Key] {
				c.Failf("wrong-value", "peer received %s=%s", r.Key, r.Val)
			}
			got[r.Key] = r.Val
		}
	}
	for i := range p.During {
		if _, ok := got[extra(i).Key()]; accepted[i] && !ok {
			c.Failf("accepted-and-lost", "an insert %d ms after the close began was accepted, but not handed over to any peer", p.During[i])
		}
	}
	for k := range must {
		if _, ok := got[k]; !ok {
			c.Failf("not-handed-over", "%s was not accepted by any peer before the close finished (%d of %d handed over)", k, len(got), len(must))
		}
	}
	c.LabelIf(late, "inserted-just-before")
	c.LabelIf(p.UntilSec > 0, "peers-refuse-at-first")
	c.LabelIf(len(must) < len(exp), "short-ttl")
	took, not := false, false
	for _, a := range accepted {
		took, not = took || a, not || !a
	}
	c.LabelIf(took, "insert-accepted-at-close")
	c.LabelIf(not, "insert-refused-at-close")
	c.NonTrivialIf(len(must) > 1)
}

// All closes a whole registry: what one dataset cannot hand over must not keep the others from handing theirs over.
type All struct {
	Sets []struct {
		Data  int
		Peers []Peer
	}
}

func genAll(t *rapid.T) All {
	var p All
	for n := rapid.IntRange(1, 4).Draw(t, "sets"); n > 0; n-- {
		var s struct {
			Data  int
			Peers []Peer
		}
		s.Data = rapid.IntRange(0, 6).Draw(t, "data")
		for k := rapid.IntRange(0, 2).Draw(t, "peers"); k > 0; k-- {
			s.Peers = append(s.Peers, Peer{Kind: rapid.SampledFrom([]string{"willing", "willing", "busy", "refusing", "silent"}).Draw(t, "kind"), N: rapid.SampledFrom([]int{0, 5, 1000}).Draw(t, "N"), Ms: rapid.SampledFrom([]int{0, 1, 30}).Draw(t, "ms")})
		}
		p.Sets = append(p.Sets, s)
	}
	return p
}

func runAll(c *vk.Ctx, p All) {
	dts := c.NewDataset(c.Dir())
	over := false
	c.Cleanup(func() { over = true })
	type expected struct {
		keys  map[string]string
		peers []*vk.Peer
		name  string
	}
	var want []expected
	stuck := false
	for i, s := range p.Sets {
		e := expected{keys: map[string]string{}, name: fmt.Sprint("n", i)}
		dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: e.name, NoTarget: true})
		if err != nil {
			c.Failf("create", "%v", err)
		}
		c.Settle()
		for k := 0; k < s.Data; k++ {
			d := vk.D{F: []float32{float32(k), float32(i)}, L: fmt.Sprint(i, ".", k)}
			if err := dt.Insert(d.PB(), nil); err != nil {
				c.Failf("insert", "%v", err)
			}
			e.keys[d.Key()] = d.Val()
		}
		willing := false
		for k, ps := range s.Peers {
			willing = willing || ps.Kind == "willing" || ps.Kind == "busy"
			pr := &vk.Peer{ID: fmt.Sprint("p", k), Latency: 20 * time.Millisecond}
			pr.Info = func(int) *pb.DataInfo {
				if ps.Kind == "silent" && !over {
					return nil
				}
				return &pb.DataInfo{N: uint64(ps.N)}
			}
			pr.OnInsert = func(n int, _ *pb.Datum, _ *pb.InsertConfig) error {
				time.Sleep(time.Duration(ps.Ms) * time.Millisecond)
				if !over && (ps.Kind == "refusing" || ps.Kind == "silent" || ps.Kind == "busy" && n%2 == 0) {
					return errors.New("Number of elements is over the target")
				}
				return nil
			}
			e.peers = append(e.peers, pr)
			dt.AddSource(pr)
		}
		if willing {
			want = append(want, e)
		} else if len(s.Peers) > 0 && s.Data > 0 {
			stuck = true
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		dts.Close()
	}()
	c.Cleanup(func() {
		over = true
		for _, it := range dts.DataList.Items() {
			if dt, ok := it.Object.(*data.Data); ok {
				for _, d := range vk.All(dt) {
					dt.Delete(d)
				}
			}
		}
		time.Sleep(5 * time.Second)
	})
	select {
	case <-done:
		if stuck {
			c.Failf("dropped", "the registry closed although nobody took the data of one dataset")
		}
	case <-time.After(5 * time.Minute):
		if !stuck {
			c.Failf("never-finishes", "closing still runs after 5 minutes although the peers accept everything")
		}
	}
	c.Settle()
	several := 0
	for _, e := range want {
		got := map[string]string{}
		for _, pr := range e.peers {
			for _, r := range pr.Accepted() {
				got[r.Key] = r.Val
			}
		}
		for k, v := range e.keys {
			if got[k] != v {
				c.Failf("not-handed-over", "%s of %s was not handed over within 5 minutes although a peer accepts it (another dataset cannot be handed over: %v)", k, e.name, stuck)
			}
		}
		if len(e.keys) > 0 {
			several++
		}
	}
	c.LabelIf(stuck, "another-is-stuck")
	c.NonTrivialIf(several > 0 && len(p.Sets) > 1)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("close", 1500, 40000, true, gen, run), vk.Sub("registry", 500, 15000, true, genAll, runAll))
}

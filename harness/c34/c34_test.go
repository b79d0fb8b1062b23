package c34

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind string // insert many again wait pass passes maintain join leave
	At   int
	N    int    `json:"n,omitempty"`
	TTL  uint64 `json:"ttl,omitempty"`
	Secs int    `json:"secs,omitempty"`
}

type Plan struct {
	Nodes int
	Cfg   vk.Cfg
	Ms    int // an insert at a peer takes so long
	Back  int // and its answer so long
	Fault int // every so many inserts at a peer fail, 0: none
	Lost  bool
	Ops   []Op
}

func gen(t *rapid.T) Plan {
	p := Plan{Nodes: rapid.IntRange(1, 4).Draw(t, "nodes"), Ms: rapid.SampledFrom([]int{0, 0, 1, 40}).Draw(t, "ms"),
		Back: rapid.SampledFrom([]int{0, 0, 1, 40}).Draw(t, "back"), Fault: rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(t, "fault"), Lost: rapid.Bool().Draw(t, "lost")}
	p.Cfg = vk.Cfg{Name: rapid.SampledFrom([]string{"d", "D ", ""}).Draw(t, "name"), Version: 1, NoTarget: rapid.IntRange(0, 2).Draw(t, "no") == 0,
		TargetN: uint64(rapid.SampledFrom([]int{4, 10, 20, 50}).Draw(t, "target")), Util: rapid.SampledFrom([]float64{0, 0.3, 0.5, 1}).Draw(t, "util"),
		Repl: uint32(rapid.IntRange(0, 3).Draw(t, "repl")), Enforce: rapid.Bool().Draw(t, "enforce"), Retention: 1 << 30}
	for n := rapid.IntRange(3, 18).Draw(t, "ops"); n > 0; n-- {
		p.Ops = append(p.Ops, Op{
			Kind: rapid.SampledFrom([]string{"insert", "insert", "many", "many", "again", "wait", "wait", "pass", "passes", "passes", "maintain", "join", "leave"}).Draw(t, "kind"),
			At:   rapid.IntRange(0, 4).Draw(t, "at"), N: rapid.IntRange(2, 15).Draw(t, "n"),
			TTL:  rapid.SampledFrom([]uint64{0, 0, 0, 8, 30, 150, 1000}).Draw(t, "ttl"),
			Secs: rapid.SampledFrom([]int{1, 9, 31, 61, 75, 200, 700}).Draw(t, "secs"),
		})
	}
	return p
}

// genExchange: nodes with copies of the same data hand them over to each other at the same time.
func genExchange(t *rapid.T) Plan {
	p := Plan{Nodes: rapid.IntRange(2, 4).Draw(t, "nodes"), Ms: rapid.SampledFrom([]int{0, 1, 40}).Draw(t, "ms"), Back: rapid.SampledFrom([]int{0, 1, 40, 1500}).Draw(t, "back")}
	p.Cfg = vk.Cfg{Name: "d", Version: 1, TargetN: uint64(rapid.SampledFrom([]int{4, 10, 50}).Draw(t, "target")),
		Util: rapid.SampledFrom([]float64{0, 0, 0.1, 0.3}).Draw(t, "util"), Repl: uint32(rapid.IntRange(0, p.Nodes).Draw(t, "repl")), Enforce: rapid.Bool().Draw(t, "enforce"), Retention: 1 << 30}
	p.Ops = append(p.Ops, Op{Kind: "many", N: rapid.IntRange(1, 9).Draw(t, "n"), TTL: rapid.SampledFrom([]uint64{0, 0, 0, 5000}).Draw(t, "ttl")})
	for i := 1; i < p.Nodes; i++ {
		p.Ops = append(p.Ops, Op{Kind: "again", At: i, N: rapid.IntRange(1, 9).Draw(t, "n")})
	}
	for n := rapid.IntRange(1, 6).Draw(t, "rounds"); n > 0; n-- {
		p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom([]string{"passes", "passes", "passes", "wait", "again", "leave"}).Draw(t, "kind"),
			At: rapid.IntRange(0, 3).Draw(t, "at"), N: rapid.IntRange(1, 9).Draw(t, "n"), Secs: rapid.SampledFrom([]int{1, 20, 61}).Draw(t, "secs")})
	}
	return p
}

type member struct {
	n        *node.Node
	id       string
	draining bool // shutting down: inserts are refused
	down     bool
	done     chan struct{}
	got      int
}

// link stands for the connection of one node to another.
type link struct {
	vk.NodeSource
	to *member
	w  *world
}

type world struct {
	mu   sync.Mutex
	p    Plan
	over bool
}

func (l *link) Insert(d *pb.Datum, cfg *pb.InsertConfig) error {
	time.Sleep(time.Duration(l.w.p.Ms) * time.Millisecond)
	l.w.mu.Lock()
	over := l.w.over
	l.to.got++
	fails := l.w.p.Fault > 0 && l.to.got%l.w.p.Fault == 0
	refuses := l.to.draining || l.to.down
	l.w.mu.Unlock()
	switch {
	case over:
		return nil
	case refuses:
		time.Sleep(10 * time.Millisecond)
		return errors.New("Node is in drain mode")
	case fails && !l.w.p.Lost:
		return errors.New("connection failure")
	}
	err := l.NodeSource.Insert(d, cfg)
	time.Sleep(time.Duration(l.w.p.Back) * time.Millisecond)
	if err == nil && fails { // stored, but the answer got lost
		return errors.New("connection failure")
	}
	return err
}

func (l *link) GetDataInfo() *pb.DataInfo {
	time.Sleep(100 * time.Millisecond)
	l.w.mu.Lock()
	over, down := l.w.over, l.to.down
	l.w.mu.Unlock()
	switch {
	case over:
		return &pb.DataInfo{}
	case down:
		return nil
	}
	return l.NodeSource.GetDataInfo()
}

func (l *link) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, cfg *pb.SearchConfig) error {
	l.w.mu.Lock()
	down := l.to.down
	l.w.mu.Unlock()
	if down {
		wg.Done()
		return errors.New("connection failure")
	}
	return l.NodeSource.StreamSearch(d, out, wg, cfg)
}

type item struct {
	d      vk.D
	expire time.Time // zero: never
	maybe  bool      // the insert was refused, but a copy may be there
}

func run(c *vk.Ctx, p Plan) {
	w := &world{p: p}
	var all []*member
	c.Cleanup(func() {
		w.mu.Lock()
		w.over = true
		w.mu.Unlock()
		for _, m := range all {
			if m.done != nil {
				if dt, err := m.n.Dataset.GetNoCreate(p.Cfg.Name); err == nil {
					for _, d := range vk.All(dt) {
						dt.Delete(d)
					}
				}
				<-m.done
			}
		}
	})
	join := func() {
		i := len(all)
		m := &member{id: fmt.Sprint("n:", i)}
		m.n = c.NewNode(&node.NodeConfig{Port: uint32(i + 1), Folder: c.Dir(), AdvertisedIds: []string{m.id}})
		all = append(all, m)
	}
	active := func() []*member {
		var out []*member
		for _, m := range all {
			if !m.draining {
				out = append(out, m)
			}
		}
		return out
	}
	// gossip: every node gets the dataset and has all others as its sources
	gossip := func() {
		for _, m := range all {
			var dt *data.Data
			var err error
			switch {
			case m.down:
				continue
			case m.draining:
				dt, err = m.n.Dataset.GetNoCreate(p.Cfg.Name)
			default:
				dt, err = m.n.Dataset.GetOrCreateIfNotExists(p.Cfg.PB())
			}
			if err != nil {
				c.Failf("dataset", "node %s: %v", m.id, err)
			}
			c.Settle()
			for _, o := range all {
				if o != m && !o.down {
					dt.AddSource(&link{NodeSource: vk.NodeSource{N: o.n, Name: p.Cfg.Name, ID: o.id}, to: o, w: w})
				}
			}
		}
		c.Settle()
	}
	for i := 0; i < p.Nodes; i++ {
		join()
	}
	gossip()
	items := map[string]*item{}
	next, left, moved, expired := 0, 0, false, 0
	where := map[string]string{}
	insert := func(m *member, d vk.D, ttl uint64) {
		_, err := m.n.Insert(nil, &pb.InsertionRequest{DataName: p.Cfg.Name, Datum: d.PB(), Config: &pb.InsertConfig{TTL: ttl}})
		it := items[d.Key()]
		if it == nil {
			it = &item{d: d, maybe: true}
			if ttl > 0 {
				it.expire = time.Now().Add(time.Duration(ttl) * time.Second)
			}
			items[d.Key()] = it
			where[d.Key()] = m.id
		}
		if err == nil {
			it.maybe = false
		}
	}
	check := func(what string) {
		c.Settle()
		for _, m := range all { // those that ended meanwhile
			if m.done != nil && !m.down {
				select {
				case <-m.done:
					w.mu.Lock()
					m.down = true
					w.mu.Unlock()
					left++
				default:
				}
			}
		}
		gossip() // maintenance may have dropped an empty dataset
		must, may := map[string]*item{}, map[string]*item{}
		now := time.Now()
		for k, it := range items {
			switch {
			case it.expire.IsZero() && !it.maybe:
				must[k] = it
			case it.expire.IsZero():
				may[k] = it
			case !it.maybe && now.Before(it.expire.Add(-time.Second)):
				must[k] = it
			case now.Before(it.expire.Add(2 * time.Minute)): // passing it on takes a little
				may[k] = it
			default:
				expired++
			}
		}
		for _, m := range all {
			if m.down {
				continue
			}
			if dt, err := m.n.Dataset.GetNoCreate(p.Cfg.Name); err == nil {
				for _, d := range vk.All(dt) {
					moved = moved || where[vk.KeyOf(d)] != m.id
				}
			}
			st := &vk.Stream[*pb.ScoredDatum]{}
			err := m.n.SearchStream(&pb.SearchRequest{Datum: []*pb.Datum{vk.D{F: []float32{0, 0}}.PB()},
				Config: &pb.SearchConfig{DataName: p.Cfg.Name, ScoreFuncName: "VectorDistance", Limit: 100000, Timeout: 100000}}, st)
			if err != nil {
				c.Failf("search", "%s: search at node %s: %v", what, m.id, err)
			}
			seen := map[string]bool{}
			for _, r := range st.Out {
				k := vk.KeyOf(r.Datum)
				it := must[k]
				if it == nil {
					it = may[k]
				}
				if it == nil {
					c.Failf("alien", "%s: search at node %s found %s, which is not there or expired", what, m.id, k)
				}
				if seen[k] {
					c.Failf("twice", "%s: search at node %s found %s twice", what, m.id, k)
				}
				seen[k] = true
				if v := vk.ValOf(r.Datum); v != it.d.Val() {
					c.Failf("value", "%s: search at node %s found %s with value %s, want %s", what, m.id, k, v, it.d.Val())
				}
			}
			for k := range must {
				if !seen[k] {
					held := ""
					for _, o := range all {
						if dt, err := o.n.Dataset.GetNoCreate(p.Cfg.Name); err == nil {
							if _, ok := c.Contents(dt)[k]; ok {
								held += fmt.Sprintf(" %s(down %v)", o.id, o.down)
							}
						}
					}
					c.Failf("lost", "%s: search at node %s does not find %s (inserted at %s; held by:%s; %d of %d found)", what, m.id, k, where[k], held, len(seen), len(must))
				}
			}
		}
	}
	datum := func() vk.D {
		next++
		return vk.D{F: []float32{float32(next % 7), float32(next)}, G: fmt.Sprint("g", next%3), L: fmt.Sprint("l", next), V: uint64(next % 2)}
	}
	for i, op := range p.Ops {
		what := fmt.Sprintf("op %d (%s)", i, op.Kind)
		gossip()
		act := active()
		m := act[op.At%len(act)]
		switch op.Kind {
		case "insert":
			insert(m, datum(), op.TTL)
		case "many":
			for k := 0; k < op.N; k++ {
				insert(m, datum(), op.TTL)
			}
		case "again":
			n := 0
			for k := 1; k <= next && n < op.N; k++ { // those without TTL once more, maybe at another node
				for _, it := range items {
					if it.expire.IsZero() && it.d.L == fmt.Sprint("l", k) && !it.maybe {
						insert(m, it.d, 0)
						n++
					}
				}
			}
		case "wait":
			for s := op.Secs; s > 0; s -= 60 {
				c.Sleep(time.Duration(min(s, 60)) * time.Second)
				check(what)
				gossip()
			}
		case "pass":
			if dt, err := m.n.Dataset.GetNoCreate(p.Cfg.Name); err == nil {
				dt.Process(true)
			}
		case "passes": // of all nodes at once
			var wg sync.WaitGroup
			for _, o := range act {
				if dt, err := o.n.Dataset.GetNoCreate(p.Cfg.Name); err == nil {
					wg.Add(1)
					go func() { defer wg.Done(); dt.Process(true) }()
				}
			}
			wg.Wait()
			c.Sleep(time.Duration(op.N) * time.Second)
		case "maintain":
			m.n.Dataset.ReloadRuns()
		case "join":
			if len(all) < 5 {
				join()
				gossip()
			}
		case "leave":
			if len(act) > 1 {
				w.mu.Lock()
				m.draining = true
				w.mu.Unlock()
				m.done = make(chan struct{})
				go func() {
					defer close(m.done)
					m.n.Dataset.Close()
				}()
			}
		}
		check(what)
	}
	gossip()
	c.Sleep(70 * time.Second)
	check("at the end")
	c.LabelIf(left > 0, "node-left")
	c.LabelIf(expired > 0, "expired")
	c.LabelIf(moved, "moved")
	c.LabelIf(p.Fault > 0, "faults")
	c.NonTrivialIf(moved && len(items) > 2)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("cluster", 1200, 30000, true, gen, run), vk.Sub("exchange", 1200, 30000, true, genExchange, run))
}

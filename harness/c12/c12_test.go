package c12

import (
	"errors"
	"fmt"
	"sync"
	"testing"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Ins struct {
	I     int
	L     string
	TTL   uint64
	Count uint64
	Nil   bool  `json:"nil,omitempty"`
	Same  bool  `json:"same,omitempty"` // reuse the configuration object of the previous insert
	Beh   []int // per peer: 0 accepts, 1 over target, 2 draining, 3 other failure
}

type Plan struct {
	R       uint32
	Enforce bool
	Peers   int
	Ins     []Ins
}

func gen(t *rapid.T) Plan {
	p := Plan{R: uint32(rapid.IntRange(0, 6).Draw(t, "r")), Enforce: rapid.IntRange(0, 5).Draw(t, "enforce") > 0, Peers: rapid.IntRange(0, 7).Draw(t, "peers")}
	for n := rapid.IntRange(1, 8).Draw(t, "inserts"); n > 0; n-- {
		in := Ins{I: rapid.IntRange(0, 3).Draw(t, "i"), L: rapid.SampledFrom([]string{"", "x", "y"}).Draw(t, "l"),
			TTL: rapid.SampledFrom([]uint64{0, 0, 2, 3, 5, 9, 10, 11, 30, 100, 5000, 1 << 63}).Draw(t, "ttl"), Count: rapid.SampledFrom([]uint64{0, 0, 0, 0, 1, 2, 1 << 63}).Draw(t, "count"),
			Nil: rapid.IntRange(0, 5).Draw(t, "nil") == 0, Same: rapid.IntRange(0, 3).Draw(t, "same") == 0}
		bias := rapid.IntRange(0, 3).Draw(t, "bias")
		for i := 0; i < p.Peers; i++ {
			b := rapid.IntRange(0, 3).Draw(t, "beh")
			if bias == 0 {
				b = 0
			}
			in.Beh = append(in.Beh, b)
		}
		p.Ins = append(p.Ins, in)
	}
	return p
}

var refusals = []error{nil, errors.New("Number of elements is over the target"), errors.New("rpc error: code = Unknown desc = Node is in drain mode"), errors.New("Connection failure")}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true, ReplicationOnInsert: p.R, EnforceReplicationOnInsert: p.Enforce})
	var mu sync.Mutex
	var log []struct {
		peer int
		rec  vk.Rec
		err  error
	}
	var cur Ins
	for i := 0; i < p.Peers; i++ {
		i := i
		dt.AddSource(&vk.Peer{ID: fmt.Sprintf("p%d", i), OnInsert: func(n int, d *pb.Datum, cfg *pb.InsertConfig) error {
			mu.Lock()
			defer mu.Unlock()
			err := refusals[cur.Beh[i]]
			log = append(log, struct {
				peer int
				rec  vk.Rec
				err  error
			}{i, vk.Rec{Key: vk.KeyOf(d), Val: vk.ValOf(d), TTL: cfg.GetTTL(), Count: cfg.GetCount()}, err})
			return err
		}})
	}
	model := map[string]string{}
	var prev *pb.InsertConfig
	var prevIns Ins
	var succ, fail, reused bool
	for n, in := range p.Ins {
		cfg := &pb.InsertConfig{TTL: in.TTL, Count: in.Count}
		if in.Nil {
			cfg = nil
			in.TTL, in.Count = 0, 0
		} else if in.Same && prev != nil {
			cfg = prev
			in.TTL, in.Count = prevIns.TTL, prevIns.Count
			reused = true
		}
		if cfg != nil {
			prev, prevIns = cfg, in
		}
		cur = in
		log = nil
		d := vk.D{F: []float32{float32(in.I)}, L: in.L}
		err := dt.Insert(d.PB(), cfg)
		c.Settle()
		model[d.Key()] = d.Val()
		what := fmt.Sprintf("insert %d (r=%d enforced=%v count=%d, peers %v): err=%v", n, p.R, p.Enforce, in.Count, in.Beh, err)
		if diff := vk.DiffMaps(c.Contents(dt), model); diff != "" {
			c.Failf("local-copy", "%s: %s", what, diff)
		}
		seen := map[int]bool{}
		copies := uint32(1)
		for _, l := range log {
			if seen[l.peer] {
				c.Failf("twice", "%s: peer %d contacted twice", what, l.peer)
			}
			seen[l.peer] = true
			if p.R > 1 && copies >= p.R {
				c.Failf("too-many", "%s: peer %d contacted although the factor was reached", what, l.peer)
			}
			if l.err == nil {
				copies++
			}
			if l.rec.Key != d.Key() || l.rec.Val != d.Val() {
				c.Failf("other-datum", "%s: peer %d got %s=%s", what, l.peer, l.rec.Key, l.rec.Val)
			}
			if l.rec.TTL != in.TTL {
				c.Failf("other-ttl", "%s: peer %d got TTL %d, want %d", what, l.peer, l.rec.TTL, in.TTL)
			}
			if l.rec.Count == 0 {
				c.Failf("unmarked", "%s: peer %d got an insert not marked as forwarded", what, l.peer)
			}
		}
		if p.R <= 1 && copies > 2 {
			c.Failf("too-many", "%s: %d copies", what, copies)
		}
		if !p.Enforce || in.Count > 0 {
			if len(log) > 0 {
				c.Failf("forwarded", "%s: contacted %d peers", what, len(log))
			}
			if err != nil {
				c.Failf("refused", "%s", what)
			}
			continue
		}
		if err == nil && copies < p.R {
			c.Failf("false-success", "%s: only %d copies", what, copies)
		}
		if err != nil && copies >= p.R {
			c.Failf("false-error", "%s: %d copies exist", what, copies)
		}
		willing := 0
		for _, b := range in.Beh {
			if b == 0 {
				willing++
			}
		}
		if err != nil && p.Peers <= 5 && 1+willing >= int(p.R) {
			c.Failf("gave-up", "%s: %d peers would have accepted", what, willing)
		}
		succ = succ || (err == nil && p.R > 1)
		fail = fail || err != nil
	}
	c.LabelIf(succ, "replicated")
	c.LabelIf(fail, "refused")
	c.LabelIf(reused, "config-reused")
	c.NonTrivialIf(succ && fail || succ && p.Peers >= int(p.R))
}

// Cyclic: real datasets forwarding to each other.
type Cyc struct {
	N     int
	R     []uint32
	Edges [][2]int
	Ins   []int
}

func genCyc(t *rapid.T) Cyc {
	p := Cyc{N: rapid.IntRange(2, 6).Draw(t, "n")}
	for i := 0; i < p.N; i++ {
		p.R = append(p.R, uint32(rapid.IntRange(0, 4).Draw(t, "r")))
		for j := 0; j < p.N; j++ {
			if i != j && rapid.Bool().Draw(t, "edge") {
				p.Edges = append(p.Edges, [2]int{i, j})
			}
		}
	}
	p.Ins = rapid.SliceOfN(rapid.IntRange(0, p.N-1), 1, 5).Draw(t, "ins")
	return p
}

type link struct {
	to    *data.Data
	id    string
	mu    *sync.Mutex
	calls *int
}

func (l *link) Insert(d *pb.Datum, cfg *pb.InsertConfig) error {
	l.mu.Lock()
	*l.calls++
	n := *l.calls
	l.mu.Unlock()
	if n > 1000 {
		panic("forwarding does not end")
	}
	return l.to.Insert(proto.Clone(d).(*pb.Datum), proto.Clone(cfg).(*pb.InsertConfig))
}
func (l *link) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, cfg *pb.SearchConfig) error {
	wg.Done()
	return nil
}
func (l *link) GetDataInfo() *pb.DataInfo { return nil }
func (l *link) GetID() string             { return l.id }

func runCyc(c *vk.Ctx, p Cyc) {
	var nodes []*data.Data
	for i := 0; i < p.N; i++ {
		nodes = append(nodes, c.NewData(&pb.DataConfig{Name: fmt.Sprint("d", i), NoTarget: true, ReplicationOnInsert: p.R[i], EnforceReplicationOnInsert: true}))
	}
	var mu sync.Mutex
	calls := 0
	out := make([][]int, p.N)
	for _, e := range p.Edges {
		out[e[0]] = append(out[e[0]], e[1])
		nodes[e[0]].AddSource(&link{nodes[e[1]], fmt.Sprint(e[1]), &mu, &calls})
	}
	cyclic := false
	for n, at := range p.Ins {
		mu.Lock()
		calls = 0
		mu.Unlock()
		d := vk.D{F: []float32{float32(n)}, L: "x"}
		err := nodes[at].Insert(d.PB(), nil)
		c.Settle()
		if calls > len(out[at]) {
			c.Failf("re-forwarded", "insert at %d (%d peers) caused %d forwarded inserts", at, len(out[at]), calls)
		}
		copies := 0
		for _, nd := range nodes {
			if v, ok := c.Contents(nd)[d.Key()]; ok {
				copies++
				if v != d.Val() {
					c.Failf("other-datum", "value %s", v)
				}
			}
		}
		if err == nil && copies < int(p.R[at]) {
			c.Failf("false-success", "insert at %d reported success with %d of %d copies", at, copies, p.R[at])
		}
		if err != nil && 1+len(out[at]) >= int(p.R[at]) {
			c.Failf("gave-up", "insert at %d failed (%v) although %d peers accept", at, err, len(out[at]))
		}
		for _, x := range out[at] {
			for _, y := range out[x] {
				cyclic = cyclic || (y == at && p.R[at] > 1)
			}
		}
	}
	c.LabelIf(cyclic, "cycle")
	c.NonTrivialIf(cyclic)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("replicate", 5000, 150000, true, gen, run), vk.Sub("cycles", 2000, 50000, true, genCyc, runCyc))
}

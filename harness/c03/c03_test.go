package c03

import (
	"fmt"
	"testing"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Op  string // insert, delete, process, sleep
	K   int    `json:"k,omitempty"`
	L   string `json:"l,omitempty"`
	TTL uint64 `json:"ttl,omitempty"`
	Nil bool   `json:"nil,omitempty"`
	S   int    `json:"s,omitempty"`
	Cnt uint64 `json:"cnt,omitempty"` // forwarded
}

type Plan struct {
	Keys  []vk.D
	Peers int
	Repl  uint32 // replication factor enforced on insert, 0: off
	Ops   []Op
}

var ttls = []uint64{0, 0, 1, 2, 3, 5, 9, 10, 11, 12, 30, 59, 61, 100, 3600, 86400 * 365, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 1}

func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 3).Draw(t, "dim")
	p := Plan{Keys: vk.Universe(dim, 6, nil).Draw(t, "universe"), Peers: rapid.IntRange(0, 3).Draw(t, "peers")}
	if p.Peers > 0 && rapid.Bool().Draw(t, "repl") {
		p.Repl = uint32(rapid.IntRange(1, p.Peers+1).Draw(t, "factor"))
	}
	n := rapid.IntRange(1, 30).Draw(t, "ops")
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, len(p.Keys)-1).Draw(t, "k")
		switch c := rapid.IntRange(0, 19).Draw(t, "op"); {
		case c < 9:
			o := Op{Op: "insert", K: k, L: rapid.SampledFrom([]string{"", "x", "y"}).Draw(t, "l")}
			o.TTL = rapid.OneOf(rapid.SampledFrom(ttls), rapid.Uint64Range(1, 20)).Draw(t, "ttl")
			o.Cnt = rapid.SampledFrom([]uint64{0, 0, 0, 1, 2, 3, 10, 1 << 40}).Draw(t, "count")
			o.Nil = o.TTL == 0 && rapid.Bool().Draw(t, "nil")
			p.Ops = append(p.Ops, o)
		case c < 10:
			p.Ops = append(p.Ops, Op{Op: "delete", K: k})
		case c < 13:
			p.Ops = append(p.Ops, Op{Op: "process"})
		default:
			p.Ops = append(p.Ops, Op{Op: "sleep", S: rapid.OneOf(rapid.IntRange(1, 12), rapid.SampledFrom([]int{29, 31, 59, 61, 99, 3599, 3601})).Draw(t, "s")})
		}
	}
	return p
}

type entry struct {
	d       vk.D
	forever bool
	exp     int64 // second at which it expires
}

func add(now int64, ttl uint64) (exp int64, forever bool) {
	if ttl == 0 || ttl > 1<<50 { // nobody lives 2^50 seconds
		return 0, true
	}
	return now + int64(ttl), false
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true, EnforceReplicationOnInsert: p.Repl > 0, ReplicationOnInsert: p.Repl})
	var peers []*vk.Peer
	for i := 0; i < p.Peers; i++ {
		peers = append(peers, &vk.Peer{ID: fmt.Sprintf("p%d", i), Info: func(int) *pb.DataInfo { return &pb.DataInfo{Name: "d", Avg: []float32{100}} }})
		dt.AddSource(peers[i])
	}
	seen := make([]int, p.Peers)
	model := map[string]entry{}
	live := func(now int64) map[string]entry {
		out := map[string]entry{}
		for k, e := range model {
			if e.forever || e.exp > now {
				out[k] = e
			}
		}
		return out
	}
	var expired, reinsAfterExpiry, transferred, finite bool
	for i, op := range p.Ops {
		before := map[string]entry{}
		for k, e := range model {
			before[k] = e
		}
		switch op.Op {
		case "insert":
			d := p.Keys[op.K]
			d.L = op.L
			cfg := &pb.InsertConfig{TTL: op.TTL, Count: op.Cnt}
			if op.Nil {
				cfg = nil
			}
			now := time.Now().Unix()
			if old, ok := model[d.Key()]; ok && !old.forever && old.exp <= now {
				reinsAfterExpiry = true
			}
			for _, pr := range peers {
				dt.AddSource(pr) // sources are forgotten after ten minutes; peers re-announce themselves
			}
			if err := dt.Insert(d.PB(), cfg); err != nil {
				c.Failf("insert-refused", "op %d: %v", i, err)
			}
			exp, forever := add(now, op.TTL)
			model[d.Key()] = entry{d, forever, exp}
			if !forever {
				finite = true
			}
		case "delete":
			dt.Delete(p.Keys[op.K].PB())
			delete(model, p.Keys[op.K].Key())
		case "process":
			dt.Process(true)
		case "sleep":
			l := len(live(time.Now().Unix()))
			c.Sleep(time.Duration(op.S) * time.Second)
			if len(live(time.Now().Unix())) < l {
				expired = true
			}
		}
		c.Settle()
		now := time.Now().Unix()
		want := map[string]string{}
		var cands []vk.Scored
		q := p.Keys[0]
		for k, e := range live(now) {
			want[k] = e.d.Val()
			cands = append(cands, vk.Scored{Key: k, Vals: []string{e.d.Val()}, Score: vk.Score("VectorDistance", e.d.F, q.F)})
		}
		cfg := data.DefaultSearchConfig()
		cfg.Limit = 100
		c.TopK(fmt.Sprintf("search after op %d (%s)", i, op.Op), dt.Search(q.PB(), cfg, nil).List, cands, false, 100)
		if diff := vk.DiffMaps(c.Contents(dt), want); diff != "" {
			c.Failf("contents", "after op %d (%s): %s", i, op.Op, diff)
		}
		// what peers were sent during this step
		for j, pr := range peers {
			recs := pr.Accepted()
			for _, r := range recs[seen[j]:] {
				transferred = true
				at := r.At.Unix()
				ok := false
				var exps []string
				for _, m := range []map[string]entry{before, model} {
					e, have := m[r.Key]
					if !have || e.d.Val() != r.Val {
						continue
					}
					if e.forever {
						exps = append(exps, "forever")
						ok = ok || r.TTL == 0 || r.TTL > 1<<49
					} else {
						rem := e.exp - at
						exps = append(exps, fmt.Sprint(rem))
						ok = ok || (r.TTL > 0 && int64(r.TTL) <= rem && int64(r.TTL) >= rem-1)
					}
				}
				if !ok {
					c.Failf("transfer-ttl", "op %d (%s): peer received %s=%s with TTL %d; remaining lifetime %v", i, op.Op, r.Key, r.Val, r.TTL, exps)
				}
			}
			seen[j] = len(recs)
		}
	}
	c.LabelIf(expired, "expiry")
	c.LabelIf(reinsAfterExpiry, "reinsert-after-expiry")
	c.LabelIf(transferred, "transferred")
	c.LabelIf(finite, "finite-ttl")
	c.NonTrivialIf(finite && (expired || transferred))
}

// Left: the configuration a datum is handed over with, for any expiry time relative to now.
type Left struct {
	Delta int64
	None  bool
}

func genLeft(t *rapid.T) Left {
	return Left{Delta: rapid.OneOf(rapid.Int64Range(-5, 20), rapid.Int64Range(-900000000, 1<<62)).Draw(t, "delta"), None: rapid.IntRange(0, 4).Draw(t, "none") == 0}
}

func runLeft(c *vk.Ctx, p Left) {
	at := uint64(time.Now().Unix() + p.Delta)
	if p.None {
		at = 0
	}
	cfg := data.InsertConfigFromExpireAt(at)
	c.NonTrivialIf(!p.None)
	c.LabelIf(p.Delta <= 0 && !p.None, "just-expired")
	switch {
	case cfg.Count == 0:
		c.Failf("unmarked", "handed over without the forwarded marker")
	case p.None && cfg.TTL != 0:
		c.Failf("time-left", "unlimited became %d", cfg.TTL)
	case !p.None && cfg.TTL == 0:
		c.Failf("time-left", "%d seconds left became unlimited", p.Delta)
	case !p.None && p.Delta > 0 && cfg.TTL != uint64(p.Delta):
		c.Failf("time-left", "%d seconds left became %d", p.Delta, cfg.TTL)
	case !p.None && p.Delta <= 0 && cfg.TTL > 1:
		c.Failf("time-left", "%d seconds left became %d", p.Delta, cfg.TTL)
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 8000, 120000, true, gen, run), vk.Sub("time-left", 2000, 50000, true, genLeft, runLeft))
}

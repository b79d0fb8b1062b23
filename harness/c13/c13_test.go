package c13

import (
	"fmt"
	"strings"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Op  string // put, del, process, sleep
	I   int    `json:"i,omitempty"`
	L   string `json:"l,omitempty"`
	TTL uint64 `json:"ttl,omitempty"`
	S   int    `json:"s,omitempty"`
	Fwd bool   `json:"fwd,omitempty"` // as a peer's forwarded insert
}

type Plan struct {
	Target   uint64
	NoTarget bool
	Repl     bool
	Util     float64
	Extra    vk.Cfg // version and retention
	Ops      []Op
}

func gen(t *rapid.T) Plan {
	p := Plan{Target: rapid.SampledFrom([]uint64{0, 1, 2, 3, 5, 8, 1 << 40, 1<<64 - 1}).Draw(t, "target"), NoTarget: rapid.IntRange(0, 4).Draw(t, "no") == 0, Repl: rapid.Bool().Draw(t, "repl"),
		Util: rapid.SampledFrom([]float64{0.5, 0.5, 0, 0.4, 1, 1.5}).Draw(t, "util")}
	p.Extra.Version = rapid.SampledFrom([]uint64{0, 0, 1, 1 << 40}).Draw(t, "version")
	p.Extra.Retention = rapid.SampledFrom([]uint64{0, 0, 3600, 1 << 30}).Draw(t, "retention")
	for n := rapid.IntRange(1, 40).Draw(t, "ops"); n > 0; n-- {
		switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
		case k < 6:
			p.Ops = append(p.Ops, Op{Op: "put", I: rapid.IntRange(0, 11).Draw(t, "i"), L: rapid.SampledFrom([]string{"", "x"}).Draw(t, "l"),
				TTL: rapid.SampledFrom([]uint64{0, 0, 0, 5, 70}).Draw(t, "ttl"), Fwd: rapid.Bool().Draw(t, "fwd")})
		case k < 7:
			p.Ops = append(p.Ops, Op{Op: "del", I: rapid.IntRange(0, 11).Draw(t, "i")})
		case k < 9:
			p.Ops = append(p.Ops, Op{Op: "process"})
		default:
			p.Ops = append(p.Ops, Op{Op: "sleep", S: rapid.SampledFrom([]int{1, 6, 75, 700}).Draw(t, "s")})
		}
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: p.NoTarget, TargetN: p.Target, TargetUtilization: p.Util, Version: p.Extra.Version, Retention: p.Extra.Retention, ReplicationOnInsert: 2, EnforceReplicationOnInsert: p.Repl})
	peer := &vk.Peer{ID: "p"} // accepts inserts but never tells about itself, so nothing is rebalanced
	type ent struct {
		v   string
		exp int64
	}
	model := map[string]ent{}
	live := func() map[string]string {
		out := map[string]string{}
		for k, e := range model {
			if e.exp == 0 || e.exp > time.Now().Unix() {
				out[k] = e.v
			}
		}
		return out
	}
	var refused, refilled, ttl bool
	for n, op := range p.Ops {
		dt.AddSource(peer)
		switch op.Op {
		case "put":
			d := vk.D{F: []float32{float32(op.I), 1}, L: op.L}
			rep := dt.GetDataInfo()
			full := !p.NoTarget && rep.N >= p.Target
			cfg := &pb.InsertConfig{TTL: op.TTL}
			if op.Fwd {
				cfg.Count = uint64(1 + op.I%3)
			}
			tried := len(peer.Attempts())
			err := dt.Insert(d.PB(), cfg)
			if full {
				if err == nil {
					c.Failf("not-refused", "op %d: insert accepted while %d of %d elements are reported", n, rep.N, p.Target)
				}
				if len(peer.Attempts()) != tried {
					c.Failf("refused-but-sent", "op %d: a refused insert was sent to a peer", n)
				}
				refused = true
			} else {
				if err != nil {
					c.Failf("wrongly-refused", "op %d: insert refused (%v) while %d of %d elements are reported (no target: %v)", n, err, rep.N, p.Target, p.NoTarget)
				}
				if refused {
					refilled = true
				}
				e := ent{v: d.Val()}
				if op.TTL > 0 {
					e.exp = time.Now().Unix() + int64(op.TTL)
				}
				model[d.Key()] = e
				ttl = ttl || op.TTL > 0
			}
			if err != nil && !strings.Contains(err.Error(), "over the target") {
				c.Failf("other-error", "op %d: %v", n, err)
			}
		case "del":
			d := vk.D{F: []float32{float32(op.I), 1}}
			dt.Delete(d.PB())
			delete(model, d.Key())
		case "process":
			dt.Process(true)
			if got := dt.GetDataInfo().N; got != uint64(len(live())) {
				c.Failf("count", "op %d: %d elements reported after processing, %d live", n, got, len(live()))
			}
		case "sleep":
			c.Sleep(time.Duration(op.S) * time.Second)
			if got := dt.GetDataInfo().N; op.S == 700 && !ttl && got != uint64(len(live())) {
				c.Failf("count", "op %d: %d elements reported after 700 s, %d live", n, got, len(live()))
			}
		}
		if diff := vk.DiffMaps(c.Contents(dt), live()); diff != "" {
			c.Failf("contents", "op %d (%s): %s", n, fmt.Sprint(op), diff)
		}
	}
	c.LabelIf(refused, "refused")
	c.LabelIf(refilled, "accepted-again")
	c.NonTrivialIf(refused && len(model) > 0)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 4000, 120000, true, gen, run))
}

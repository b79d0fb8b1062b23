package c02

import (
	"testing"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Op string // insert, delete, process, sleep, info
	K  int    `json:"k,omitempty"`
	L  string `json:"l,omitempty"`
	V  uint64 `json:"v,omitempty"`
	S  int    `json:"s,omitempty"`
	C  bool   `json:"c,omitempty"` // pass an (empty) insert config
}

type Plan struct {
	Keys []vk.D
	Ops  []Op
}

func gen(t *rapid.T) Plan {
	dim := rapid.IntRange(1, 4).Draw(t, "dim")
	p := Plan{Keys: vk.Universe(dim, 10, nil).Draw(t, "universe")}
	n := rapid.IntRange(1, 40).Draw(t, "ops")
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, len(p.Keys)-1).Draw(t, "k")
		switch c := rapid.IntRange(0, 19).Draw(t, "op"); {
		case c < 11:
			p.Ops = append(p.Ops, Op{Op: "insert", K: k, L: rapid.SampledFrom([]string{"", "x", "y", "xy"}).Draw(t, "l"),
				V: rapid.Uint64Range(0, 2).Draw(t, "v"), C: rapid.Bool().Draw(t, "c")})
		case c < 15:
			p.Ops = append(p.Ops, Op{Op: "delete", K: k})
		case c < 17:
			p.Ops = append(p.Ops, Op{Op: "process"})
		case c < 18:
			p.Ops = append(p.Ops, Op{Op: "info"})
		default:
			p.Ops = append(p.Ops, Op{Op: "sleep", S: rapid.SampledFrom([]int{1, 11, 61, 601, 4000}).Draw(t, "s")})
		}
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	model := map[string]vk.D{}
	var over, delLive, proc bool
	for i, op := range p.Ops {
		switch op.Op {
		case "insert":
			d := p.Keys[op.K]
			d.L, d.V = op.L, op.V
			if _, ok := model[d.Key()]; ok {
				over = true
			}
			var cfg *pb.InsertConfig
			if op.C {
				cfg = &pb.InsertConfig{Count: uint64(i % 3)} // forwarded or not, it is stored
			}
			if err := dt.Insert(d.PB(), cfg); err != nil {
				c.Failf("insert-refused", "op %d: insert refused: %v", i, err)
			}
			model[d.Key()] = d
		case "delete":
			d := p.Keys[op.K]
			if _, ok := model[d.Key()]; ok {
				delLive = true
			}
			// deletion is by key: the value of the given datum must not matter
			d.L, d.V = "other", 77
			if err := dt.Delete(d.PB()); err != nil {
				c.Failf("delete-error", "op %d: delete: %v", i, err)
			}
			delete(model, d.Key())
		case "process":
			proc = true
			dt.Process(true)
		case "info":
			dt.GetDataInfo()
		case "sleep":
			c.Sleep(time.Duration(op.S) * time.Second)
		}
		want := map[string]string{}
		for k, d := range model {
			want[k] = d.Val()
		}
		if diff := vk.DiffMaps(c.Contents(dt), want); diff != "" {
			c.Failf("contents", "after op %d (%s): %s", i, op.Op, diff)
		}
	}
	c.LabelIf(over, "overwrite")
	c.LabelIf(delLive, "delete-live")
	c.LabelIf(proc, "process")
	c.NonTrivialIf(over && delLive)
	// the same through search
	if len(model) > 0 {
		var q vk.D
		var cands []vk.Scored
		for _, d := range model {
			q = d
		}
		q = p.Keys[0]
		for _, d := range model {
			cands = append(cands, vk.Scored{Key: d.Key(), Vals: []string{d.Val()}, Score: vk.Score("VectorDistance", d.F, q.F)})
		}
		cfg := data.DefaultSearchConfig()
		cfg.Limit = 100
		c.TopK("search", dt.Search(q.PB(), cfg, nil).List, cands, false, 100)
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 6000, 150000, true, gen, run))
}

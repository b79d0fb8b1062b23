package c16

import (
	"fmt"
	"math"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Op  string // put, del, process, sleep
	I   int
	TTL uint64 `json:"ttl,omitempty"`
}

type Plan struct {
	Data  []vk.D
	Bulk  int // further datums on a circle
	Ops   []Op
	Timed bool // the final passes are the background ones
}

func gen(t *rapid.T) Plan {
	dim := rapid.SampledFrom([]int{1, 2, 3, 8, 64}).Draw(t, "dim")
	p := Plan{Timed: rapid.IntRange(0, 3).Draw(t, "timed") == 0}
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	base := vk.Vec(dim).Draw(t, "base")
	for i, n := 0, rapid.IntRange(0, 25).Draw(t, "n"); i < n; i++ {
		d := vk.D{G: fmt.Sprint(i)}
		switch kind {
		case 0: // all coincide
			d.F = base
		case 1: // small grid
			d.F = vk.Grid(dim, 2).Draw(t, "f")
		default:
			d.F = vk.Vec(dim).Draw(t, "f")
		}
		p.Data = append(p.Data, d)
	}
	if dim == 2 && kind > 0 {
		p.Bulk = rapid.SampledFrom([]int{0, 0, 100, 900, 1100, 2500}).Draw(t, "bulk")
	}
	for i := range p.Data {
		p.Ops = append(p.Ops, Op{Op: "put", I: i, TTL: rapid.SampledFrom([]uint64{0, 0, 0, 5}).Draw(t, "ttl")})
		switch rapid.IntRange(0, 7).Draw(t, "op") {
		case 0:
			p.Ops = append(p.Ops, Op{Op: "del", I: rapid.IntRange(0, len(p.Data)-1).Draw(t, "i")})
		case 1:
			p.Ops = append(p.Ops, Op{Op: "process"})
		case 2:
			p.Ops = append(p.Ops, Op{Op: "sleep", I: rapid.SampledFrom([]int{1, 7, 70}).Draw(t, "s")})
		}
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	live := map[int]bool{}
	exp := map[int]int64{}
	for _, op := range p.Ops {
		switch op.Op {
		case "put":
			dt.Insert(p.Data[op.I].PB(), &pb.InsertConfig{TTL: op.TTL, Count: uint64(op.I % 3)})
			live[op.I] = true
			delete(exp, op.I)
			if op.TTL > 0 {
				exp[op.I] = time.Now().Unix() + int64(op.TTL)
			}
		case "del":
			dt.Delete(p.Data[op.I].PB())
			delete(live, op.I)
		case "process":
			dt.Process(true)
		case "sleep":
			c.Sleep(time.Duration(op.I) * time.Second)
		}
	}
	var vs [][]float32
	for i := 0; i < p.Bulk; i++ {
		d := vk.D{F: []float32{float32(math.Cos(float64(i)) * float64(i%50)), float32(math.Sin(float64(i)) * 3)}, G: fmt.Sprint("b", i)}
		dt.Insert(d.PB(), nil)
		vs = append(vs, d.F)
	}
	c.Sleep(10 * time.Second)
	for i := range live {
		if e, ok := exp[i]; !ok || e > time.Now().Unix() {
			vs = append(vs, p.Data[i].F)
		}
	}
	for i := 0; i < 6; i++ {
		if p.Timed {
			c.Sleep(700 * time.Second)
		} else {
			dt.Process(true)
		}
	}
	info := dt.GetDataInfo()
	c.NonTrivialIf(len(vs) > 2)
	c.LabelIf(p.Bulk > 1000, "more-than-1000")
	c.LabelIf(p.Timed, "background-passes")
	if info.N != uint64(len(vs)) {
		c.Failf("n", "N is %d, %d live", info.N, len(vs))
	}
	if len(vs) == 0 {
		return
	}
	dim := len(vs[0])
	if len(info.Avg) != dim {
		c.Failf("avg", "average has %d dimensions, want %d", len(info.Avg), dim)
	}
	mean := make([]float64, dim)
	scale := 1.0
	for _, v := range vs {
		for j, x := range v {
			mean[j] += float64(x) / float64(len(vs))
			scale = math.Max(scale, math.Abs(float64(x)))
		}
	}
	tol := 1e-5*scale + 1e-7*scale*float64(len(vs))
	for j := range mean {
		if math.Abs(float64(info.Avg[j])-mean[j]) > tol {
			c.Failf("avg", "average is %v, want %v", info.Avg, mean)
		}
	}
	maxd := 0.0
	ds := make([]float64, len(vs))
	for i, v := range vs {
		s := 0.0
		for j, x := range v {
			s += (float64(x) - mean[j]) * (float64(x) - mean[j])
		}
		ds[i] = math.Sqrt(s)
		maxd = math.Max(maxd, ds[i])
	}
	dtol := 2*tol*math.Sqrt(float64(dim)) + 1e-5*maxd
	if math.Abs(info.MaxDistance-maxd) > dtol {
		c.Failf("max-distance", "maximum distance is %v, want %v (+-%v)", info.MaxDistance, maxd, dtol)
	}
	if len(info.Hist) != 64 {
		c.Failf("hist", "%d buckets", len(info.Hist))
	}
	if maxd <= 3*dtol { // all coincide (up to rounding)
		c.Label("coincide")
		return
	}
	// prefix sums against the elements that surely / possibly lie in the first b+1 buckets
	sum := 0.0
	eps := 1e-4*float64(len(vs))/float64(len(vs)) + 1e-6*float64(len(vs))
	if eps > 0.4/float64(len(vs)) && len(vs) < 400 {
		eps = 0.4 / float64(len(vs))
	}
	for b := 0; b < 64; b++ {
		if info.Hist[b] < 0 {
			c.Failf("hist", "bucket %d is negative", b)
		}
		sum += float64(info.Hist[b])
		lo, hi := 0, 0
		for _, d := range ds {
			r, e := d/maxd*64, dtol/maxd*64*2
			if r+e < float64(b+1) || b == 63 {
				lo++
			}
			if r-e < float64(b+1) || b == 63 {
				hi++
			}
		}
		if sum < float64(lo)/float64(len(vs))-eps || sum > float64(hi)/float64(len(vs))+eps {
			c.Failf("hist", "buckets 0..%d sum to %v, want between %v and %v (n=%d)", b, sum, float64(lo)/float64(len(vs)), float64(hi)/float64(len(vs)), len(vs))
		}
	}
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("stats", 1500, 40000, true, gen, run))
}

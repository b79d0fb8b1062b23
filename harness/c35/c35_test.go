package c35

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind string // create insert fill empty pass wait search delete maintain expire close peer
	Name int
	D    int    `json:"d,omitempty"`
	Dim  int    `json:"dim,omitempty"`
	TTL  uint64 `json:"ttl,omitempty"`
	Secs int    `json:"secs,omitempty"`
	Ret  uint64 `json:"ret,omitempty"`
}

type Plan struct{ Ops []Op }

func gen(t *rapid.T) Plan {
	var p Plan
	n := rapid.IntRange(2, 30).Draw(t, "n")
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{
			Kind: rapid.SampledFrom([]string{"create", "insert", "insert", "fill", "fill", "empty", "pass", "pass", "pass", "wait", "wait", "search", "delete", "maintain", "peer"}).Draw(t, "kind"),
			Name: rapid.IntRange(0, 2).Draw(t, "name"), D: rapid.IntRange(0, 6).Draw(t, "d"),
			Dim:  rapid.SampledFrom([]int{2, 2, 2, 3, 0, 17}).Draw(t, "dim"),
			TTL:  rapid.SampledFrom([]uint64{0, 0, 0, 5, 100}).Draw(t, "ttl"),
			Secs: rapid.SampledFrom([]int{1, 11, 61, 75, 200, 700}).Draw(t, "secs"),
			Ret:  rapid.SampledFrom([]uint64{0, 0, 0, 30, 300, 1 << 30}).Draw(t, "ret"),
		})
	}
	p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom([]string{"close", "delete-all", "none"}).Draw(t, "end")})
	return p
}

// gone is a dataset that was removed
type gone struct {
	what    string
	dt      *data.Data
	since   time.Time
	stamp   uint64
	changes int
}

// mapped lists the files of a folder that are mapped into memory.
func mapped(dir string) []string {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return nil
	}
	seen := map[string]bool{}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 && !seen[l[i:]] {
			seen[l[i:]] = true
			out = append(out, l[i:])
		}
	}
	return out
}

// opened lists the files of a folder that are open.
func opened(dir string) []string {
	es, _ := os.ReadDir("/proc/self/fd")
	var out []string
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			out = append(out, l)
		}
	}
	return out
}

func run(c *vk.Ctx, p Plan) {
	tmp := c.Dir()
	before, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	c.Cleanup(func() {
		if had {
			os.Setenv("TMPDIR", before)
		} else {
			os.Unsetenv("TMPDIR")
		}
	})
	files := func() []string {
		es, err := os.ReadDir(tmp)
		if err != nil {
			panic(err)
		}
		var out []string
		for _, e := range es {
			out = append(out, e.Name())
		}
		return out
	}
	dts := c.NewDataset(c.Dir())
	sets := map[string]*data.Data{}
	var removed []*gone
	c.Cleanup(func() {
		for _, dt := range sets {
			dt.Alive = false
		}
	})
	vec := func(d, dim int) []float32 {
		f := make([]float32, dim)
		for i := range f {
			f[i] = float32((d+1)*(i+2)%7 + 1)
		}
		return f
	}
	most, indexed, again := 0, 0, 0
	// look finds datasets that are gone by themselves (retention)
	look := func(what string) {
		c.Settle()
		for n, dt := range sets {
			if cur, err := dts.GetNoCreate(n); err != nil || cur != dt {
				removed = append(removed, &gone{what: fmt.Sprintf("%s (gone at %s)", n, what), dt: dt, since: time.Now()})
				delete(sets, n)
			}
		}
		got := files()
		most = max(most, len(got))
		limit := len(sets)
		for _, g := range removed {
			// expired ones are cleaned up every minute, a pass may be about to end
			if time.Since(g.since) < 3*time.Minute {
				limit++
				continue
			}
		}
		if m := mapped(tmp); len(m) > limit { // even a removed one takes its space as long as it is in use
			c.Failf("mappings-pile-up", "%s: %d index files of %d datasets are mapped: %v", what, len(m), len(sets), m)
		}
		if len(got) > limit {
			c.Failf("files-pile-up", "%s: %d index files of %d datasets: %v", what, len(got), len(sets), got)
		}
	}
	for i, op := range p.Ops {
		name := fmt.Sprint("n", op.Name)
		what := fmt.Sprintf("op %d (%s %s)", i, op.Kind, name)
		get := func() *data.Data {
			if cur, err := dts.GetNoCreate(name); err == nil && sets[name] == cur {
				return cur
			}
			look(what)
			dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Retention: op.Ret})
			if err != nil {
				c.Failf("create", "%s: %v", what, err)
			}
			sets[name] = dt
			c.Settle()
			return dt
		}
		switch op.Kind {
		case "create":
			get()
		case "insert", "fill":
			dt := get()
			n := 1
			if op.Kind == "fill" {
				n = 20
			}
			for k := 0; k < n; k++ {
				f := append(vec(op.D+k, op.Dim), float32(k))
				if op.Dim == 0 {
					f = nil
				}
				if err := dt.Insert(vk.D{F: f, G: fmt.Sprint(op.D), L: "l"}.PB(), &pb.InsertConfig{TTL: op.TTL, Count: 1}); err != nil {
					c.Failf("insert", "%s: %v", what, err)
				}
			}
		case "empty":
			if dt := sets[name]; dt != nil {
				for _, d := range vk.All(dt) {
					dt.Delete(d)
				}
			}
		case "pass":
			if dt := sets[name]; dt != nil {
				was := len(files())
				dt.Process(true)
				if len(files()) > 0 {
					indexed++
					if was > 0 {
						again++
					}
				}
			}
		case "wait":
			c.Sleep(time.Duration(op.Secs) * time.Second)
		case "search":
			if dt := sets[name]; dt != nil {
				dt.SearchAnnoy(vk.D{F: append(vec(op.D, op.Dim), 1)}.PB(), &pb.SearchConfig{ScoreFuncName: "AnnoyAngularDistance", HigherIsBetter: true, Limit: 5})
			}
		case "peer":
			if dt := sets[name]; dt != nil {
				src := &vk.Peer{ID: "peer", Latency: time.Millisecond}
				// one that never takes anything would keep a dataset from closing
				src.OnInsert = func(n int, _ *pb.Datum, _ *pb.InsertConfig) error {
					if op.D%2 == 0 || n%2 == 0 {
						return nil
					}
					time.Sleep(time.Millisecond)
					return errors.New("refused")
				}
				src.Info = func(int) *pb.DataInfo { return &pb.DataInfo{} }
				dt.AddSource(src)
			}
		case "maintain":
			dts.ReloadRuns()
		case "delete":
			if dt := sets[name]; dt != nil && dts.Delete(name) == nil {
				removed = append(removed, &gone{what: name + " (deleted)", dt: dt, since: time.Now()})
				delete(sets, name)
			}
		case "delete-all", "close":
			look(what)
			for n, dt := range sets {
				if op.Kind == "delete-all" {
					dts.Delete(n)
				}
				removed = append(removed, &gone{what: n + " (" + op.Kind + ")", dt: dt, since: time.Now()})
			}
			if op.Kind == "close" {
				dts.Close()
			}
			sets = map[string]*data.Data{}
		}
		look(what)
	}
	c.Sleep(200 * time.Second)
	look("at the end")
	for k := 0; k < 5; k++ { // a running dataset makes a pass every ten seconds
		for _, g := range removed {
			if now := g.dt.GetDataInfo().Timestamp; now != g.stamp {
				g.changes++
				g.stamp = now
			}
		}
		c.Sleep(30 * time.Second)
	}
	for _, g := range removed {
		if g.changes == 5 {
			c.Failf("still-running", "background passes of %s still run %v later", g.what, time.Since(g.since))
		}
	}
	look("after the end")
	c.Sleep(300 * time.Second)
	look("long after the end")
	for k := 0; ; k++ { // files are closed at the latest when they are collected
		runtime.GC()
		o := opened(tmp)
		if len(o) <= 2*len(sets) {
			break
		}
		if k == 200 {
			c.Failf("open-files", "%d index files of %d datasets are open at the end: %v", len(o), len(sets), o)
		}
		ts := syscall.NsecToTimespec(10e6)
		syscall.Nanosleep(&ts, nil)
	}
	c.LabelIf(len(removed) > 0, "dataset-removed")
	c.LabelIf(again > 0, "index-replaced")
	c.LabelIf(most > 1, "several-index-files")
	c.NonTrivialIf(indexed > 0 && (len(removed) > 0 || again > 0))
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 1500, 40000, true, gen, run))
}

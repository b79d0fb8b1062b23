package c21

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind string // create get getnoop getnocreate delete list configs save insert wait maintain
	Name string
	D    int
}

type Plan struct{ Ops []Op }

// names that are single path segments and others
var plain = []string{"a", "b", "c", "a.b", "...", "data", "index.save", "a", "b", "A", "a ", " a", "a\t", "B", "a%", "ä"}
var odd = []string{"", ".", "..", "/", "../data", "../index.save", "../../outside", "../../outside/keep", "a/../b", "a/b", "./a", "a/", "/a", "a/.", "..//", "a/../../index.save", "../data/a", "x/../..", "\x00"}

func gen(t *rapid.T) Plan {
	var p Plan
	var pool []string
	for n := rapid.IntRange(1, 4).Draw(t, "names"); n > 0; n-- {
		name := rapid.SampledFrom(plain).Draw(t, "plain")
		if rapid.Bool().Draw(t, "odd") {
			name = rapid.SampledFrom(odd).Draw(t, "odd name")
		}
		pool = append(pool, name)
	}
	for n := rapid.IntRange(1, 30).Draw(t, "n"); n > 0; n-- {
		name := rapid.SampledFrom(pool).Draw(t, "name")
		p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom([]string{"create", "create", "get", "getnoop", "getnocreate", "delete", "delete", "list", "configs", "save", "insert", "insert", "wait", "maintain"}).Draw(t, "kind"),
			Name: name, D: rapid.IntRange(0, 6).Draw(t, "d")})
	}
	return p
}

func isPlain(n string) bool {
	for _, p := range plain {
		if p == n {
			return true
		}
	}
	return false
}

func run(c *vk.Ctx, p Plan) {
	base := c.Dir()
	nodeDir := filepath.Join(base, "x", "node")
	dataDir := filepath.Join(nodeDir, "data")
	var guards []string
	guard := func(path string) {
		os.MkdirAll(filepath.Dir(path), 0o755)
		if err := os.WriteFile(path, []byte(path), 0o644); err != nil {
			panic(err)
		}
		guards = append(guards, path)
	}
	guard(filepath.Join(base, "outside.txt"))
	guard(filepath.Join(base, "outside", "keep"))
	guard(filepath.Join(base, "x", "outside", "keep"))
	guard(filepath.Join(nodeDir, "keep"))
	guard(filepath.Join(nodeDir, "other", "keep"))
	dts := c.NewDataset(nodeDir)
	own := map[string]string{} // marker file in the folder of a dataset
	mark := func(name string) {
		if isPlain(name) {
			f := filepath.Join(dataDir, name, "keep")
			os.MkdirAll(filepath.Dir(f), 0o755)
			if err := os.WriteFile(f, []byte(name), 0o644); err != nil {
				panic(err)
			}
			own[name] = f
		}
	}
	model := map[string]map[string]string{}
	cfgs := map[string]vk.Cfg{}
	ptr := map[string]*data.Data{}
	deleted, oddDeleted := 0, 0
	touched := map[string]bool{}
	made := func(name string, f vk.Cfg) {
		if model[name] == nil {
			model[name] = map[string]string{}
			cfgs[name] = f
			mark(name)
		}
	}
	for i, op := range p.Ops {
		what := fmt.Sprintf("op %d (%s %q)", i, op.Kind, op.Name)
		_, exists := model[op.Name]
		switch op.Kind {
		case "create":
			f := vk.Cfg{Name: op.Name, NoTarget: true, Version: 1, TargetN: uint64(i)}
			if err := dts.CreateIfNotExists(f.PB()); err != nil {
				c.Failf("create", "%s: %v", what, err)
			}
			made(op.Name, f)
			if exists && cfgs[op.Name].Version == 0 {
				cfgs[op.Name] = f
			}
		case "get", "getnoop":
			get := dts.Get
			if op.Kind == "getnoop" {
				get = dts.GetNoOp
			}
			dt, err := get(op.Name)
			if err != nil || dt == nil {
				c.Failf("get", "%s: %v", what, err)
			}
			made(op.Name, vk.DefaultCfg(op.Name))
			if exists && ptr[op.Name] != nil && ptr[op.Name] != dt {
				c.Failf("other-dataset", "%s: another dataset is returned for an existing name", what)
			}
			ptr[op.Name] = dt
		case "getnocreate":
			dt, err := dts.GetNoCreate(op.Name)
			if (err == nil) != exists || (err == nil) != (dt != nil) {
				c.Failf("get", "%s: exists=%v but got %v, %v", what, exists, dt, err)
			}
		case "delete":
			err := dts.Delete(op.Name)
			if (err == nil) != exists {
				c.Failf("delete", "%s: exists=%v but error %v", what, exists, err)
			}
			if exists {
				deleted++
				if !isPlain(op.Name) {
					oddDeleted++
				}
				delete(model, op.Name)
				delete(cfgs, op.Name)
				delete(ptr, op.Name)
				if own[op.Name] != "" {
					delete(own, op.Name)
				}
			}
		case "list":
			dts.List()
		case "configs":
			dts.DataConfigList()
		case "save":
			dts.SaveIndex()
		case "insert":
			if dt, err := dts.GetNoCreate(op.Name); err == nil {
				d := vk.D{F: []float32{float32(op.D)}, L: fmt.Sprint(i)}
				if dt.Insert(d.PB(), &pb.InsertConfig{Count: 1}) == nil {
					model[op.Name][d.Key()] = d.Val()
				}
			}
		case "wait":
			c.Sleep(time.Duration(1+op.D) * 20 * time.Second)
		case "maintain":
			dts.ReloadRuns() // may remove datasets without data
			for name := range model {
				if len(model[name]) == 0 {
					if _, err := dts.GetNoCreate(name); err != nil {
						delete(model, name)
						delete(cfgs, name)
						delete(ptr, name)
						delete(own, name)
					}
				}
			}
		}
		touched[op.Name] = true
		c.Settle()
		got := dts.List()
		sort.Strings(got)
		var want []string
		for k := range model {
			want = append(want, k)
		}
		sort.Strings(want)
		if strings.Join(got, "\x01") != strings.Join(want, "\x01") {
			c.Failf("names", "%s: datasets %q, want %q", what, got, want)
		}
		for name, m := range model {
			dt, err := dts.GetNoCreate(name)
			if err != nil {
				c.Failf("gone", "%s: %v", what, err)
			}
			if diff := vk.DiffMaps(c.Contents(dt), m); diff != "" {
				c.Failf("contents", "%s: dataset %q: %s", what, name, diff)
			}
			if f := vk.CfgFromPB(dt.GetConfig()); f != cfgs[name] {
				c.Failf("config", "%s: %q has %+v, want %+v", what, name, f, cfgs[name])
			}
		}
		c.Settle()
		for _, g := range guards {
			if b, err := os.ReadFile(g); err != nil || string(b) != g {
				c.Failf("removed-outside", "%s: %s was removed", what, strings.TrimPrefix(g, base))
			}
		}
		for name, f := range own {
			if b, err := os.ReadFile(f); err != nil || string(b) != name {
				c.Failf("removed-other", "%s: the folder of dataset %q was removed", what, name)
			}
		}
		if _, err := os.Stat(filepath.Join(nodeDir, "index.save")); err != nil {
			c.Failf("removed-outside", "%s: index.save was removed", what)
		}
		if _, err := os.Stat(dataDir); err != nil {
			c.Failf("removed-outside", "%s: the data folder was removed", what)
		}
	}
	c.LabelIf(deleted > 0, "deleted")
	c.LabelIf(oddDeleted > 0, "deleted-odd-name")
	c.NonTrivialIf(deleted > 0 && len(touched) > 1)
}

// Concurrent: datasets are created, deleted and created again while others list, advertise, save and close.
type Conc struct {
	Names, Listers, Rounds int
	Closer                 bool
}

func genConc(t *rapid.T) Conc {
	return Conc{Names: rapid.IntRange(1, 6).Draw(t, "names"), Listers: rapid.IntRange(1, 4).Draw(t, "listers"), Rounds: rapid.IntRange(5, 60).Draw(t, "rounds"), Closer: rapid.Bool().Draw(t, "closer")}
}

func runConc(c *vk.Ctx, p Conc) {
	dir := c.Dir()
	dts := c.NewDataset(dir)
	keep, _ := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "keep", NoTarget: true})
	d := vk.D{F: []float32{1, 2}, L: "x"}
	keep.Insert(d.PB(), nil)
	var lwg, wg sync.WaitGroup
	stop := make(chan struct{})
	for l := 0; l < p.Listers; l++ {
		lwg.Add(1)
		go func() {
			defer lwg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				switch l % 3 {
				case 0:
					for _, f := range dts.DataConfigList() {
						if f == nil {
							panic("nil config")
						}
					}
				case 1:
					dts.SaveIndex()
				case 2:
					dts.List()
				}
			}
		}()
	}
	bad := make(chan string, 100)
	for k := 0; k < p.Names; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprint("n", k)
			for r := 0; r < p.Rounds; r++ {
				dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Version: 5})
				if err != nil || dt.GetConfig().Version != 5 {
					bad <- fmt.Sprintf("round %d: created %q, got %v %v", r, name, dt, err)
					return
				}
				if err := dts.Delete(name); err != nil {
					bad <- fmt.Sprintf("round %d: %v", r, err)
					return
				}
				if _, err := dts.GetNoCreate(name); err == nil {
					bad <- fmt.Sprintf("round %d: %q is there although deleted", r, name)
					return
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	lwg.Wait()
	time.Sleep(time.Millisecond)
	if p.Closer {
		dts.Close()
	}
	select {
	case b := <-bad:
		c.Failf("resurrected", "%s", b)
	default:
	}
	if l := dts.List(); len(l) != 1 || l[0] != "keep" {
		c.Failf("resurrected", "datasets %q are left, all but keep were deleted", l)
	}
	dt, err := dts.GetNoCreate("keep")
	if err != nil || dt != keep {
		c.Failf("gone", "keep: %v", err)
	}
	if diff := vk.DiffMaps(c.Contents(dt), map[string]string{d.Key(): d.Val()}); diff != "" {
		c.Failf("contents", "keep: %s", diff)
	}
	c.NonTrivial()
}

// Service: the same through the service methods of a node.
type ServiceOp struct {
	Kind string // create insert info stream search delete
	Name string
	I    int
	Cfg  vk.Cfg
}

type Service struct{ Ops []ServiceOp }

func genService(t *rapid.T) Service {
	var p Service
	pool := []string{"a", "A", "a ", "", "b", "data", "ä", "a/b"}
	for n := rapid.IntRange(1, 25).Draw(t, "n"); n > 0; n-- {
		o := ServiceOp{Kind: rapid.SampledFrom([]string{"create", "insert", "insert", "info", "stream", "search", "search", "delete"}).Draw(t, "kind"), Name: rapid.SampledFrom(pool).Draw(t, "name"), I: rapid.IntRange(0, 4).Draw(t, "i")}
		if o.Kind == "create" {
			o.Cfg = vk.GenCfg(t, o.Name)
			o.Cfg.Enforce = false
			o.Cfg.NoTarget = true
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func runService(c *vk.Ctx, p Service) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir()})
	ctx := context.Background()
	cfgs := map[string]vk.Cfg{}
	model := map[string]map[string]string{}
	ensure := func(cfg vk.Cfg) {
		if old, ok := cfgs[cfg.Name]; !ok || cfg.Version > old.Version {
			cfgs[cfg.Name] = cfg
		}
		if model[cfg.Name] == nil {
			model[cfg.Name] = map[string]string{}
		}
	}
	var missing, made bool
	for i, o := range p.Ops {
		what := fmt.Sprintf("op %d (%s %q)", i, o.Kind, o.Name)
		_, known := model[o.Name]
		d := vk.D{F: []float32{float32(o.I), 1}, L: fmt.Sprint(i)}
		made = made || (!known && (o.Kind == "insert" || o.Kind == "info" || o.Kind == "stream"))
		switch o.Kind {
		case "create":
			info, err := n.CreateDataIfNotExists(ctx, o.Cfg.PB())
			if err != nil {
				c.Failf("create", "%s: %v", what, err)
			}
			ensure(o.Cfg)
			if got := vk.CfgFromInfo(info); got != cfgs[o.Name] {
				c.Failf("config", "%s: %+v, want %+v", what, got, cfgs[o.Name])
			}
		case "insert":
			if _, err := n.Insert(ctx, &pb.InsertionRequest{DataName: o.Name, Datum: d.PB()}); err != nil {
				c.Failf("insert", "%s: %v", what, err)
			}
			ensure(vk.DefaultCfg(o.Name))
			model[o.Name][d.Key()] = d.Val()
		case "info":
			info, err := n.GetDataInfo(ctx, &pb.GetDataRequest{Name: o.Name})
			if err != nil {
				c.Failf("info", "%s: %v", what, err)
			}
			ensure(vk.DefaultCfg(o.Name))
			if got := vk.CfgFromInfo(info); got != cfgs[o.Name] {
				c.Failf("config", "%s: %+v, want %+v", what, got, cfgs[o.Name])
			}
		case "stream":
			st := &vk.Stream[*pb.Datum]{}
			if err := n.DataStream(&pb.GetDataRequest{Name: o.Name}, st); err != nil {
				c.Failf("stream", "%s: %v", what, err)
			}
			ensure(vk.DefaultCfg(o.Name))
			got := map[string]string{}
			for _, x := range st.Out {
				got[vk.KeyOf(x)] = vk.ValOf(x)
			}
			if diff := vk.DiffMaps(got, model[o.Name]); diff != "" || len(got) != len(st.Out) {
				c.Failf("contents", "%s: %s", what, diff)
			}
		case "search":
			st := &vk.Stream[*pb.ScoredDatum]{}
			err := n.SearchStream(&pb.SearchRequest{Datum: []*pb.Datum{d.PB()}, Config: &pb.SearchConfig{DataName: o.Name, Limit: 100, Timeout: 1000, ScoreFuncName: "VectorDistance"}}, st)
			if known != (err == nil) {
				c.Failf("search", "%s: dataset there: %v, error: %v", what, known, err)
			}
			if len(st.Out) != len(model[o.Name]) {
				c.Failf("contents", "%s: %d found of %d", what, len(st.Out), len(model[o.Name]))
			}
			missing = missing || !known
		case "delete":
			err := n.Dataset.Delete(o.Name)
			if known != (err == nil) {
				c.Failf("delete", "%s: dataset there: %v, error: %v", what, known, err)
			}
			delete(cfgs, o.Name)
			delete(model, o.Name)
		}
		c.Settle()
		adv := map[string]vk.Cfg{}
		for _, f := range n.GetNodeInfo().DataList {
			adv[f.Name] = vk.CfgFromPB(f)
		}
		if fmt.Sprint(adv) != fmt.Sprint(cfgs) {
			c.Failf("listed", "%s: advertised %v, want %v", what, adv, cfgs)
		}
		for name := range model {
			dt, err := n.Dataset.GetNoCreate(name)
			if err != nil {
				c.Failf("gone", "%s: %q: %v", what, name, err)
			}
			if diff := vk.DiffMaps(c.Contents(dt), model[name]); diff != "" {
				c.Failf("contents", "%s: %q: %s", what, name, diff)
			}
		}
	}
	c.LabelIf(missing, "search-of-missing")
	c.LabelIf(made, "made-by-use")
	c.NonTrivialIf(made && len(model) > 0)
}

func TestProperty(t *testing.T) {
	if os.Geteuid() == 0 {
		t.Fatal("must not run as root")
	}
	vk.Main(t, vk.Sub("history", 900, 30000, true, gen, run), vk.Sub("concurrent", 50, 1500, false, genConc, runConc).Retries(10).SlowLog(), vk.Sub("service", 1500, 40000, true, genService, runService))
}

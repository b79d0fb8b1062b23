package c19

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind string // create, getcreate, rpc, insert, get, reopen, wait, pass
	Cfg  vk.Cfg
	D    int
}

var names = []string{"a", "b", "üñ", "with space", "A", "a ", ""}

type Plan struct{ Ops []Op }

func gen(t *rapid.T) Plan {
	var p Plan
	for n := rapid.IntRange(1, 25).Draw(t, "n"); n > 0; n-- {
		name := rapid.SampledFrom(names).Draw(t, "name")
		p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom([]string{"create", "create", "getcreate", "rpc", "rpc", "insert", "insert", "get", "reopen", "wait", "pass"}).Draw(t, "kind"),
			Cfg: zeros(t, vk.GenCfg(t, name)), D: rapid.IntRange(0, 9).Draw(t, "d")})
	}
	return p
}

// zeros clears some fields: a newer configuration may have zeros where the old one had none.
func zeros(t *rapid.T, f vk.Cfg) vk.Cfg {
	for k := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 6}).Draw(t, "zeros"); k > 0; k-- {
		switch rapid.IntRange(0, 5).Draw(t, "zero") {
		case 0:
			f.TargetN = 0
		case 1:
			f.Util = 0
		case 2:
			f.NoTarget = false
		case 3:
			f.Repl = 0
		case 4:
			f.Enforce = false
		case 5:
			f.Retention = 0
		}
	}
	return f
}

func run(c *vk.Ctx, p Plan) {
	dir := c.Dir()
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: dir})
	cfgs := map[string]vk.Cfg{}
	contents := map[string]map[string]string{}
	updates, ignored := 0, 0
	check := func(what string) {
		var adv []*pb.DataConfig
		for _, l := range [][]*pb.DataConfig{n.Dataset.DataConfigList(), n.GetNodeInfo().DataList} {
			adv = append(adv, l...)
			seen := map[string]bool{}
			for _, a := range l {
				if seen[a.GetName()] {
					c.Failf("listed-twice", "%s: %q is listed twice", what, a.GetName())
				}
				seen[a.GetName()] = true
				if got, want := vk.CfgFromPB(a), cfgs[a.GetName()]; got != want {
					c.Failf("wrong-config", "%s: advertised %+v, want %+v", what, got, want)
				}
			}
			if len(l) != len(cfgs) {
				c.Failf("config-list", "%s: %d configurations listed, want %d", what, len(l), len(cfgs))
			}
		}
		for name, want := range cfgs {
			dt, err := n.Dataset.GetNoCreate(name)
			if err != nil {
				c.Failf("dataset-gone", "%s: %v", what, err)
			}
			if got := vk.CfgFromPB(dt.GetConfig()); got != want {
				c.Failf("wrong-config", "%s: config is %+v, want %+v", what, got, want)
			}
			info, err := n.GetDataInfo(context.Background(), &pb.GetDataRequest{Name: name})
			if err != nil {
				c.Failf("dataset-gone", "%s: %v", what, err)
			}
			if got := vk.CfgFromInfo(info); got != want {
				c.Failf("wrong-info", "%s: reported %+v, want %+v", what, got, want)
			}
			if diff := vk.DiffMaps(c.Contents(dt), contents[name]); diff != "" {
				c.Failf("contents", "%s: %q: %s", what, name, diff)
			}
		}
	}
	offer := func(cfg vk.Cfg) {
		old, ok := cfgs[cfg.Name]
		if !ok {
			contents[cfg.Name] = map[string]string{}
		}
		if !ok || cfg.Version > old.Version {
			if ok {
				updates++
			}
			cfgs[cfg.Name] = cfg
		} else {
			ignored++
		}
	}
	for i, op := range p.Ops {
		what := fmt.Sprintf("op %d (%s %q v%d)", i, op.Kind, op.Cfg.Name, op.Cfg.Version)
		switch op.Kind {
		case "create":
			if err := n.Dataset.CreateIfNotExists(op.Cfg.PB()); err != nil {
				c.Failf("error", "%s: %v", what, err)
			}
			offer(op.Cfg)
		case "getcreate":
			dt, err := n.Dataset.GetOrCreateIfNotExists(op.Cfg.PB())
			offer(op.Cfg)
			if err != nil || vk.CfgFromPB(dt.GetConfig()) != cfgs[op.Cfg.Name] {
				c.Failf("wrong-config", "%s: got %v %v, want %+v", what, dt.GetConfig(), err, cfgs[op.Cfg.Name])
			}
		case "rpc":
			info, err := n.CreateDataIfNotExists(context.Background(), op.Cfg.PB())
			offer(op.Cfg)
			if err != nil || vk.CfgFromInfo(info) != cfgs[op.Cfg.Name] {
				c.Failf("wrong-info", "%s: got %v %v, want %+v", what, info, err, cfgs[op.Cfg.Name])
			}
		case "get":
			dt, err := n.Dataset.Get(op.Cfg.Name)
			if err != nil {
				c.Failf("error", "%s: %v", what, err)
			}
			offer(vk.DefaultCfg(op.Cfg.Name))
			if vk.CfgFromPB(dt.GetConfig()) != cfgs[op.Cfg.Name] {
				c.Failf("wrong-config", "%s: got %v, want %+v", what, dt.GetConfig(), cfgs[op.Cfg.Name])
			}
		case "insert":
			if dt, err := n.Dataset.GetNoCreate(op.Cfg.Name); err == nil {
				d := vk.D{F: []float32{float32(op.D)}, L: fmt.Sprint(i)}
				if dt.Insert(d.PB(), &pb.InsertConfig{Count: 1}) == nil { // it may be full
					contents[op.Cfg.Name][d.Key()] = d.Val()
				}
			}
		case "pass":
			if dt, err := n.Dataset.GetNoCreate(op.Cfg.Name); err == nil {
				dt.Process(true)
			}
		case "wait":
			c.Sleep(time.Duration(op.D) * 20 * time.Second)
		case "reopen":
			if err := n.Dataset.SaveIndex(); err != nil {
				c.Failf("save", "%s: %v", what, err)
			}
			c.Settle()
			n = c.NewNode(&node.NodeConfig{Port: 1, Folder: dir})
			for k := range contents {
				contents[k] = map[string]string{} // data lives in memory
			}
			c.LabelIf(len(cfgs) > 0, "reopened")
		}
		check(what)
	}
	c.LabelIf(updates > 0, "updated")
	c.LabelIf(ignored > 0, "ignored-older-or-equal")
	c.NonTrivialIf(updates > 0 && ignored > 0)
}

// Race: several callers offer different versions of one configuration at once.
type Race struct {
	Versions [][]uint64 // per goroutine
	Rounds   int
}

func genRace(t *rapid.T) Race {
	p := Race{Rounds: 60}
	for g := rapid.IntRange(2, 8).Draw(t, "goroutines"); g > 0; g-- {
		p.Versions = append(p.Versions, rapid.SliceOfN(rapid.Uint64Range(0, 30), 1, 20).Draw(t, "versions"))
	}
	return p
}

func runRace(c *vk.Ctx, p Race) {
	dts := c.NewDataset(c.Dir())
	for r := 0; r < p.Rounds; r++ {
		name := fmt.Sprint("d", r)
		var wg sync.WaitGroup
		start := make(chan struct{})
		best := uint64(0)
		ptr := make([]*data.Data, len(p.Versions))
		for g, vs := range p.Versions {
			for _, v := range vs {
				if v > best {
					best = v
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, v := range vs {
					dt, err := dts.GetOrCreateIfNotExists(vk.Cfg{Name: name, Version: v, TargetN: v * 10, NoTarget: true}.PB())
					if err == nil {
						ptr[g] = dt
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		dt, err := dts.GetNoCreate(name)
		if err != nil {
			c.Failf("dataset-gone", "%v", err)
		}
		for g := range ptr {
			if ptr[g] != dt {
				c.Failf("two-datasets", "goroutine %d got another dataset for the same name", g)
			}
		}
		if got := dt.GetConfig(); got.Version != best || got.TargetN != best*10 {
			c.Failf("not-highest", "round %d: version %d (target %d) is in force, %d was offered", r, got.Version, got.TargetN, best)
		}
		dts.Delete(name)
	}
	c.NonTrivialIf(len(p.Versions) > 1)
}

// Sync: configurations received with peer announcements.
type Sync struct {
	Local []vk.Cfg
	Peers [][]vk.Cfg
}

func genSync(t *rapid.T) Sync {
	var p Sync
	l := func() []vk.Cfg {
		var out []vk.Cfg
		for _, name := range names {
			if rapid.Bool().Draw(t, "has") {
				out = append(out, zeros(t, vk.GenCfg(t, name)))
			}
		}
		return out
	}
	p.Local = l()
	for k := rapid.IntRange(1, 3).Draw(t, "peers"); k > 0; k-- {
		p.Peers = append(p.Peers, l())
	}
	return p
}

func runSync(c *vk.Ctx, p Sync) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"127.0.0.1:9"}})
	best := map[string]uint64{}
	allowed := map[string]map[vk.Cfg]bool{}
	offer := func(l []vk.Cfg, local bool) {
		for _, f := range l {
			if allowed[f.Name] == nil {
				allowed[f.Name] = map[vk.Cfg]bool{f: true}
				best[f.Name] = f.Version
			} else if f.Version > best[f.Name] {
				allowed[f.Name] = map[vk.Cfg]bool{f: true}
				best[f.Name] = f.Version
			} else if f.Version == best[f.Name] && !local {
				allowed[f.Name][f] = true // the order of peers is not determined
			}
		}
	}
	for _, f := range p.Local {
		n.Dataset.CreateIfNotExists(f.PB())
	}
	offer(p.Local, true)
	localBest := map[string]vk.Cfg{}
	for _, f := range p.Local {
		localBest[f.Name] = f
	}
	for i, l := range p.Peers {
		peer := &pb.Peer{AddressList: []string{fmt.Sprintf("127.0.0.1:%d", i+1)}, Timestamp: uint64(time.Now().Unix())}
		for _, f := range l {
			peer.DataList = append(peer.DataList, f.PB())
		}
		n.AddPeer(context.Background(), proto.Clone(&pb.AddPeerRequest{Peer: peer}).(*pb.AddPeerRequest))
		offer(l, false)
	}
	for name, f := range localBest {
		if best[name] == f.Version { // the local one was first
			allowed[name] = map[vk.Cfg]bool{f: true}
		}
	}
	for r := 0; r < 2; r++ {
		n.SyncWithPeers()
		list := n.Dataset.DataConfigList()
		if len(list) != len(allowed) {
			c.Failf("config-list", "%d datasets after sync, want %d", len(list), len(allowed))
		}
		for _, a := range list {
			got := vk.CfgFromPB(a)
			if !allowed[got.Name][got] {
				c.Failf("wrong-config", "after sync round %d: %+v, want one of %v", r, got, allowed[got.Name])
			}
		}
	}
	c.NonTrivialIf(len(allowed) > 0)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 800, 20000, true, gen, run), vk.Sub("race", 30, 1000, false, genRace, runRace).Retries(20).SlowLog(),
		vk.Sub("sync", 60, 1500, false, genSync, runSync))
}

package c33

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Op is one step. Waiting may be relative to the moment at which a dataset is due.
type Op struct {
	Kind string // create insert get list info update delete wait due save
	Name int
	R    uint64 `json:"r,omitempty"` // retention
	Secs int    `json:"secs,omitempty"`
	D    int    `json:"d,omitempty"`
}

type Plan struct {
	Preload []uint64 // datasets (by retention) that are restored from a saved index
	Ops     []Op
}

var huge = []uint64{20 * 86400, 100 * 86400, 367 * 86400, 3 * 365 * 86400, 12 * 365 * 86400, 30 * 365 * 86400, 60 * 365 * 86400, 1 << 31, 1 << 32, 9223372036, 9223372037, 9223372038, 18446744073, 18446744074, 18446744075, 1 << 40, 36893488148, 1 << 62, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}

func genWith(retention *rapid.Generator[uint64], secs []int, kinds []string) func(t *rapid.T) Plan {
	return func(t *rapid.T) Plan {
		p := Plan{}
		if rapid.IntRange(0, 3).Draw(t, "pre") == 0 {
			p.Preload = rapid.SliceOfN(retention, 1, 3).Draw(t, "preload")
		}
		for n := rapid.IntRange(2, 24).Draw(t, "n"); n > 0; n-- {
			p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Name: rapid.IntRange(0, 3).Draw(t, "name"),
				R: retention.Draw(t, "r"), Secs: rapid.SampledFrom(secs).Draw(t, "secs"), D: rapid.IntRange(0, 3).Draw(t, "d")})
		}
		return p
	}
}

type set struct {
	dt      *data.Data
	created time.Time
	keep    time.Duration // math.MaxInt64: for ever
	used    time.Time     // last use
	longest time.Duration // longest period of any configuration it had
	version uint64
	m       map[string]string
}

// due is the moment until which it has to stay, gone the one from which on it must not be there anymore. A use may start
// the period anew, and so may an update of the configuration.
func (s *set) due() (due, gone time.Time, forever bool) {
	if s.longest > 90*365*24*time.Hour {
		return s.created.Add(min(s.keep, 90*365*24*time.Hour)), time.Time{}, true
	}
	return s.created.Add(s.keep), s.used.Add(s.longest + 125*time.Second), false
}

const longest = time.Duration(math.MaxInt64)

func period(r uint64) time.Duration {
	if r == 0 {
		return 14 * 24 * time.Hour
	}
	if r > uint64(longest/time.Second) {
		return longest
	}
	return time.Duration(r) * time.Second
}

func run(c *vk.Ctx, p Plan) {
	dir := c.Dir()
	model := map[string]*set{}
	if len(p.Preload) > 0 {
		first := c.NewDataset(dir)
		for i, r := range p.Preload {
			if _, err := first.GetOrCreateIfNotExists(&pb.DataConfig{Name: fmt.Sprint("n", i), NoTarget: true, Retention: r}); err != nil {
				c.Failf("create", "%v", err)
			}
		}
		c.Settle()
		if err := first.SaveIndex(); err != nil {
			c.Failf("save", "%v", err)
		}
		first.Close()
		c.Settle()
	}
	dts := c.NewDataset(dir)
	for i, r := range p.Preload {
		name := fmt.Sprint("n", i)
		dt, err := dts.GetNoCreate(name)
		if err != nil {
			c.Failf("not-restored", "%s: %v", name, err)
		}
		model[name] = &set{dt: dt, created: time.Now(), keep: period(r), used: time.Now(), longest: period(r), m: map[string]string{}}
	}
	removed, survived, afterUse, updated := 0, 0, 0, 0
	check := func(what string) {
		listed := map[string]bool{}
		for _, n := range dts.List() {
			listed[n] = true
		}
		c.Settle()
		var names []string
		for n := range model {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, name := range names {
			s := model[name]
			age := time.Since(s.created)
			due, gone, forever := s.due()
			switch now := time.Now(); {
			case now.Before(due):
				if !listed[name] {
					c.Failf("removed-early", "%s: %s is gone %v after its creation, retention %v", what, name, age, s.keep)
				}
				// the clock cannot be moved by years, but the moment of removal is already set
				if _, at, ok := dts.DataList.GetWithExpiration(name); ok && !at.IsZero() && at.Before(due) {
					c.Failf("removed-early", "%s: %s is to be removed at %v, %v after its creation, retention %v", what, name, at, at.Sub(s.created), s.keep)
				}
				if diff := vk.DiffMaps(c.Contents(s.dt), s.m); diff != "" {
					c.Failf("data-lost", "%s: %s, %v after its creation: %s", what, name, age, diff)
				}
				if age > 0 {
					survived++
				}
			case !forever && now.After(gone):
				if listed[name] {
					c.Failf("kept", "%s: %s is still there %v after its last use, retention %v", what, name, time.Since(s.used), s.longest)
				}
				if s.dt.Alive {
					c.Failf("not-closed", "%s: %s was removed but its background processing goes on", what, name)
				}
				removed++
				delete(model, name)
			}
		}
		for n := range listed {
			if model[n] == nil {
				c.Failf("alien", "%s: %s is listed", what, n)
			}
		}
	}
	for i, op := range p.Ops {
		name := fmt.Sprint("n", op.Name)
		what := fmt.Sprintf("op %d (%s %s)", i, op.Kind, name)
		s := model[name]
		if s != nil && (op.Kind == "create" || op.Kind == "insert" || op.Kind == "get" || op.Kind == "update" || op.Kind == "delete") {
			// due, but possibly not cleaned up yet: using it now may be a new dataset
			if due, gone, forever := s.due(); !time.Now().Before(due) {
				if forever || time.Until(gone) > 6*time.Hour {
					continue
				}
				c.Sleep(time.Until(gone) + time.Second)
				check(what + " clean-up")
				if s = model[name]; s != nil {
					c.Failf("kept", "%s: still there", what)
				}
			}
		}
		switch op.Kind {
		case "create":
			if s == nil {
				dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Retention: op.R})
				if err != nil {
					c.Failf("create", "%s: %v", what, err)
				}
				model[name] = &set{dt: dt, created: time.Now(), keep: period(op.R), used: time.Now(), longest: period(op.R), m: map[string]string{}}
			}
		case "insert":
			if s != nil {
				s.used = time.Now()
				dt, err := dts.Get(name)
				if err != nil || dt != s.dt {
					c.Failf("removed-early", "%s: %v, %v after creation, retention %v", what, err, time.Since(s.created), s.keep)
				}
				d := vk.D{F: []float32{float32(op.D), 1}, L: fmt.Sprint(i)}
				if err := dt.Insert(d.PB(), nil); err != nil {
					c.Failf("insert", "%s: %v", what, err)
				}
				s.m[d.Key()] = d.Val()
			}
		case "get":
			if s != nil {
				s.used = time.Now()
				if dt, err := dts.Get(name); err != nil || dt != s.dt {
					c.Failf("removed-early", "%s: %v, %v after creation, retention %v", what, err, time.Since(s.created), s.keep)
				}
				afterUse++
			}
		case "update": // the same again, or a newer one with another period, must not shorten anything
			if s != nil {
				s.used = time.Now()
				cfg := &pb.DataConfig{Name: name, NoTarget: true, Retention: s.dt.GetConfig().Retention, Version: s.version}
				if op.D > 0 {
					s.version++
					cfg.Version, cfg.Retention = s.version, op.R
					s.longest = max(s.longest, period(op.R))
					updated++
				}
				dts.GetOrCreateIfNotExists(cfg)
			}
		case "delete":
			if s != nil {
				dts.Delete(name)
				delete(model, name)
			}
		case "save":
			dts.SaveIndex()
		case "list":
			dts.DataConfigList()
		case "wait":
			c.Sleep(time.Duration(op.Secs) * time.Second)
		case "due": // just before, at or after the moment a dataset is due
			if s != nil && s.keep < 20*24*time.Hour {
				if left := s.keep - time.Since(s.created) + time.Duration([]int{-2000, -1000, -1, 1, 61000, 126000}[op.D%6])*time.Millisecond; left > 0 {
					c.Sleep(left)
				}
			}
		}
		c.Settle()
		check(what)
	}
	c.LabelIf(removed > 0, "removed-when-due")
	c.LabelIf(survived > 0, "kept-until-due")
	c.LabelIf(afterUse > 0, "used")
	c.LabelIf(updated > 0, "new-version")
	c.LabelIf(len(p.Preload) > 0, "restored-from-index")
	c.NonTrivialIf(removed > 0 && survived > 0 || survived > 3)
}

// NodePlan: a node with its periodic tasks, which must not count as uses.
type NodePlan struct {
	R    []uint64
	Gap  []int
	Wait int
}

func genNode(t *rapid.T) NodePlan {
	n := rapid.IntRange(1, 4).Draw(t, "n")
	return NodePlan{R: rapid.SliceOfN(rapid.Uint64Range(1, 900), n, n).Draw(t, "r"), Gap: rapid.SliceOfN(rapid.IntRange(0, 200), n, n).Draw(t, "gap"),
		Wait: rapid.IntRange(0, 300).Draw(t, "wait")}
}

func runNode(c *vk.Ctx, p NodePlan) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	var at []time.Time
	var dts []*data.Data
	last := time.Now()
	seen, gone := 0, 0
	look := func() {
		listed := map[string]bool{}
		for _, cfg := range n.Dataset.DataConfigList() {
			listed[cfg.Name] = true
		}
		for i := range at {
			name, age, r := fmt.Sprint("n", i), time.Since(at[i]), time.Duration(p.R[i])*time.Second
			switch {
			case age < r && !listed[name]:
				c.Failf("removed-early", "%s is gone %v after its creation, retention %v", name, age, r)
			case age > 2*r+125*time.Second && listed[name]: // creating and inserting are uses
				c.Failf("kept", "%s is still there %v after its creation, retention %v, and nobody used it", name, age, r)
			case age > 2*r+125*time.Second && dts[i].Alive:
				c.Failf("not-closed", "%s was removed but its background processing goes on", name)
			case age < r:
				seen++
			case !listed[name]:
				gone++
			}
		}
	}
	for i, r := range p.R {
		c.Sleep(time.Duration(p.Gap[i]) * time.Second)
		name := fmt.Sprint("n", i)
		if _, err := n.CreateDataIfNotExists(context.Background(), &pb.DataConfig{Name: name, NoTarget: true, Retention: r}); err != nil {
			c.Failf("create", "%v", err)
		}
		d := vk.D{F: []float32{float32(i)}}
		if _, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: name, Datum: d.PB()}); err != nil {
			c.Failf("insert", "%v", err)
		}
		dt, err := n.Dataset.GetNoCreate(name)
		if err != nil {
			c.Failf("removed-early", "%s: %v", name, err)
		}
		at, dts = append(at, time.Now()), append(dts, dt)
		if end := time.Now().Add(2*time.Duration(r)*time.Second + 126*time.Second); end.After(last) {
			last = end
		}
		look()
	}
	c.Sleep(time.Duration(p.Wait) * time.Second)
	look()
	for time.Now().Before(last) {
		c.Sleep(min(time.Until(last), 97*time.Second))
		look()
	}
	c.NonTrivialIf(seen > 0 && gone > 0)
}

// Peers: datasets that cannot hand their data over must not keep others from being removed, and a
// dataset that is created again after its period must not keep the old one going.
type PeersPlan struct {
	Sets []struct {
		Ret   uint64
		Data  int
		Peer  string // "", willing, refusing, silent
		Again int    // seconds after the period at which it is used again, 0: never
	}
}

func genPeers(t *rapid.T) PeersPlan {
	var p PeersPlan
	for n := rapid.IntRange(1, 4).Draw(t, "sets"); n > 0; n-- {
		p.Sets = append(p.Sets, struct {
			Ret   uint64
			Data  int
			Peer  string
			Again int
		}{rapid.SampledFrom([]uint64{5, 30, 59, 61, 90, 150, 200}).Draw(t, "ret"), rapid.IntRange(0, 3).Draw(t, "data"),
			rapid.SampledFrom([]string{"", "", "willing", "refusing", "silent"}).Draw(t, "peer"), rapid.SampledFrom([]int{0, 0, 1, 5, 20, 50}).Draw(t, "again")})
	}
	return p
}

func runPeers(c *vk.Ctx, p PeersPlan) {
	dts := c.NewDataset(c.Dir())
	over := false
	var all []*data.Data
	c.Cleanup(func() {
		over = true
		for _, dt := range all {
			dt.Alive = false
		}
		time.Sleep(3 * time.Second)
	})
	begin := time.Now()
	stuck, again := false, false
	for i, s := range p.Sets {
		name := fmt.Sprint("n", i)
		dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Retention: s.Ret})
		if err != nil {
			c.Failf("create", "%v", err)
		}
		all = append(all, dt)
		c.Settle()
		for k := 0; k < s.Data; k++ {
			if err := dt.Insert(vk.D{F: []float32{float32(k), 1}}.PB(), nil); err != nil {
				c.Failf("insert", "%v", err)
			}
		}
		if s.Peer != "" {
			stuck = stuck || s.Peer != "willing" && s.Data > 0
			pr := &vk.Peer{ID: "p", Latency: 50 * time.Millisecond}
			pr.Info = func(int) *pb.DataInfo {
				if s.Peer == "silent" && !over {
					return nil
				}
				return &pb.DataInfo{}
			}
			pr.OnInsert = func(int, *pb.Datum, *pb.InsertConfig) error {
				time.Sleep(10 * time.Millisecond)
				if s.Peer == "willing" || over {
					return nil
				}
				return errors.New("Number of elements is over the target")
			}
			dt.AddSource(pr)
		}
	}
	olds := append([]*data.Data(nil), all...)
	end := 200*time.Second + 2*time.Minute + 30*time.Second
	for i, s := range p.Sets {
		if s.Again > 0 {
			again = true
			go func() {
				time.Sleep(time.Duration(s.Ret)*time.Second + time.Duration(s.Again)*time.Second)
				dts.Get(fmt.Sprint("n", i))
			}()
		}
	}
	for time.Since(begin) < end {
		c.Sleep(5*time.Second + time.Millisecond)
		passed := time.Since(begin)
		for i, s := range p.Sets {
			name := fmt.Sprint("n", i)
			due := time.Duration(s.Ret) * time.Second
			if passed < due-2*time.Second {
				dt, err := dts.GetNoCreate(name)
				if err != nil || dt != olds[i] || !dt.Alive {
					c.Failf("early", "%s (retention %d s) is gone after %v", name, s.Ret, passed)
				}
				if n := len(c.Contents(dt)); n != s.Data {
					c.Failf("early", "%s (retention %d s) has %d of %d datums after %v", name, s.Ret, n, s.Data, passed)
				}
			}
			if passed > due+2*time.Minute+10*time.Second {
				if dt, err := dts.GetNoCreate(name); err == nil && dt == olds[i] {
					c.Failf("kept", "%s (retention %d s) is still there after %v", name, s.Ret, passed)
				}
				if olds[i].Alive {
					c.Failf("kept", "%s (retention %d s) is not closed after %v (sets: %+v)", name, s.Ret, passed, p.Sets)
				}
			}
		}
	}
	for i := range p.Sets {
		if dt, err := dts.GetNoCreate(fmt.Sprint("n", i)); err == nil {
			all = append(all, dt)
		}
	}
	c.LabelIf(stuck, "cannot-hand-over")
	c.LabelIf(again, "used-after-its-period")
	c.NonTrivialIf(stuck && len(p.Sets) > 1 || again)
}

func TestProperty(t *testing.T) {
	short := rapid.OneOf(rapid.SampledFrom([]uint64{1, 2, 5, 30, 59, 60, 61, 100, 119, 120, 121, 600, 3600}), rapid.Uint64Range(1, 4000))
	any := rapid.OneOf(short, rapid.Just(uint64(0)), rapid.SampledFrom(huge), rapid.Uint64())
	kinds := []string{"create", "create", "create", "insert", "insert", "insert", "get", "list", "update", "delete", "wait", "wait", "due", "due", "save"}
	vk.Main(t,
		vk.Sub("periods", 2000, 60000, true, genWith(short, []int{1, 10, 59, 61, 130, 600}, kinds), run),
		vk.Sub("long-periods", 150, 12000, true, genWith(any, []int{1, 61, 130, 600, 4000}, kinds), run),
		vk.Sub("node", 150, 5000, true, genNode, runNode),
		vk.Sub("peers", 400, 12000, true, genPeers, runPeers),
		vk.Sub("default-period", 8, 60, true, func(t *rapid.T) Plan {
			p := Plan{Ops: []Op{{Kind: "create", R: rapid.SampledFrom([]uint64{0, 0, 86400 * 3}).Draw(t, "r")}, {Kind: "insert", D: 1}, {Kind: "create", Name: 1, R: rapid.SampledFrom([]uint64{0, 3600}).Draw(t, "r2")}}}
			p.Ops = append(p.Ops, Op{Kind: "wait", Secs: rapid.IntRange(0, 86400*2).Draw(t, "secs")},
				Op{Kind: rapid.SampledFrom([]string{"get", "insert", "list", "update"}).Draw(t, "use")},
				Op{Kind: "due", D: rapid.IntRange(0, 2).Draw(t, "d")}, Op{Kind: "due", D: 4}, Op{Kind: "wait", Secs: 130})
			return p
		}, run),
	)
}

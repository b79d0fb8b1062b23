package c20

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"pgregory.net/rapid"

	"vharness/vk"
)

const indexFile = "index.save"

// recovered lists what a node started on a folder holding this index has.
func recovered(c *vk.Ctx, index []byte) map[string]vk.Cfg {
	dir := c.Dir()
	if index != nil {
		if err := os.WriteFile(filepath.Join(dir, indexFile), index, 0o644); err != nil {
			panic(err)
		}
	}
	return open(c, dir)
}

func open(c *vk.Ctx, dir string) map[string]vk.Cfg {
	dts := c.NewDataset(dir)
	return listed(c, dts)
}

func listed(c *vk.Ctx, dts *data.Dataset) map[string]vk.Cfg {
	out := map[string]vk.Cfg{}
	for _, f := range dts.DataConfigList() {
		if _, dup := out[f.GetName()]; dup {
			c.Failf("listed-twice", "%q listed twice", f.GetName())
		}
		out[f.GetName()] = vk.CfgFromPB(f)
	}
	return out
}

func compare(c *vk.Ctx, kind, what string, got map[string]vk.Cfg, must, may map[string]vk.Cfg) {
	for k, w := range must {
		if g, ok := got[k]; !ok {
			c.Failf(kind, "%s: dataset %q is missing (%d of %d there)", what, k, len(got), len(must))
		} else if g != w {
			c.Failf(kind, "%s: dataset %q has configuration %+v, want %+v", what, k, g, w)
		}
	}
	for k, g := range got {
		if w, ok := must[k]; ok && w == g {
			continue
		}
		if w, ok := may[k]; !ok || w != g {
			c.Failf(kind, "%s: unexpected dataset %q %+v", what, k, g)
		}
	}
}

// History: create, delete, update, list, save and re-open.
type Op struct {
	Kind string // create, delete, list, save, reopen, bulk
	Cfg  vk.Cfg
	N    int
}
type Plan struct{ Ops []Op }

func nameGen() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "a", "b", "a\nb", "\"", "\\", "{}", "a\x00b", "<x>&", "\u2028", "日本", "..", "a/b", " ", "\r\n", "{\"name\":\"x\"}"}),
		rapid.StringN(0, 12, -1),
		rapid.Custom(func(t *rapid.T) string { // very long ones
			return strings.Repeat(rapid.SampledFrom([]string{"n", "\n", "日", "<"}).Draw(t, "rune"), rapid.SampledFrom([]int{250, 1000, 4000, 4096, 5000, 33000, 70000}).Draw(t, "times"))
		}))
}

func gen(t *rapid.T) Plan {
	var p Plan
	used := []string{"a"}
	for n := rapid.IntRange(1, 20).Draw(t, "n"); n > 0; n-- {
		name := rapid.SampledFrom(used).Draw(t, "known")
		if rapid.Bool().Draw(t, "fresh") {
			name = nameGen().Draw(t, "name")
			used = append(used, name)
		}
		p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom([]string{"create", "create", "create", "delete", "list", "save", "reopen", "bulk"}).Draw(t, "kind"),
			Cfg: vk.GenCfg(t, name), N: rapid.SampledFrom([]int{3, 40, 300}).Draw(t, "bulk")})
	}
	return p
}

func run(c *vk.Ctx, p Plan) {
	dir := c.Dir()
	dts := c.NewDataset(dir)
	model := map[string]vk.Cfg{}
	most, reopens := 0, 0
	offer := func(f vk.Cfg) {
		if old, ok := model[f.Name]; !ok || f.Version > old.Version {
			model[f.Name] = f
		}
	}
	for i, op := range p.Ops {
		what := fmt.Sprintf("op %d (%s)", i, op.Kind)
		_, there := model[op.Cfg.Name]
		fresh := op.Kind == "create" && !there || op.Kind == "delete" && there
		switch op.Kind {
		case "create":
			dts.CreateIfNotExists(op.Cfg.PB())
			offer(op.Cfg)
		case "bulk":
			for k := 0; k < op.N; k++ {
				f := op.Cfg
				f.Name = fmt.Sprintf("bulk-%d", k)
				dts.CreateIfNotExists(f.PB())
				offer(f)
			}
		case "delete":
			dts.Delete(op.Cfg.Name)
			delete(model, op.Cfg.Name)
		case "list":
			dts.List()
		case "save":
			dts.SaveIndex()
		case "reopen":
			if err := dts.SaveIndex(); err != nil {
				c.Failf("save", "%s: %v", what, err)
			}
			c.Settle()
			for r := 0; r < 2; r++ { // loading leaves the index alone
				dts = c.NewDataset(dir)
				compare(c, "not-restored", what, listed(c, dts), model, nil)
			}
			reopens++
			c.LabelIf(len(model) > 100, "hundreds")
		}
		c.Settle()
		compare(c, "list", what, listed(c, dts), model, nil)
		if fresh && len(model) < 40 { // saved without being asked
			b, _ := os.ReadFile(filepath.Join(dir, indexFile))
			compare(c, "not-saved", what, recovered(c, b), model, nil)
		}
		if len(model) > most {
			most = len(model)
		}
	}
	c.Settle()
	dts.SaveIndex()
	b, err := os.ReadFile(filepath.Join(dir, indexFile))
	if err != nil {
		c.Failf("no-index", "%v", err)
	}
	compare(c, "not-restored", "at the end", recovered(c, b), model, nil)
	c.NonTrivialIf(most > 1)
}

// Observe: the index is read all the time while it is saved, loaded and changed.
type Observe struct {
	Base    int // datasets that are always there
	Savers  int
	Churn   int // goroutines creating and deleting further datasets
	Lists   int
	Load    bool // nodes are started on the folder instead (all activity stopped before)
	Rounds  int
	NameLen int
}

func genObserve(t *rapid.T) Observe {
	return Observe{Base: rapid.SampledFrom([]int{1, 5, 40, 150, 300}).Draw(t, "base"), Savers: rapid.IntRange(0, 3).Draw(t, "savers"), Churn: rapid.IntRange(0, 2).Draw(t, "churn"),
		Lists: rapid.IntRange(0, 2).Draw(t, "lists"), Load: rapid.IntRange(0, 3).Draw(t, "load") == 0, Rounds: rapid.IntRange(3, 15).Draw(t, "rounds"), NameLen: rapid.SampledFrom([]int{1, 60}).Draw(t, "namelen")}
}

func runObserve(c *vk.Ctx, p Observe) {
	dir := c.Dir()
	dts := c.NewDataset(dir)
	must, may := map[string]vk.Cfg{}, map[string]vk.Cfg{}
	for i := 0; i < p.Base; i++ {
		f := vk.Cfg{Name: fmt.Sprintf("%0*d-base", p.NameLen, i), Version: uint64(i), NoTarget: true, Retention: 1 << 20}
		dts.CreateIfNotExists(f.PB())
		must[f.Name] = f
	}
	for g := 0; g < p.Churn; g++ {
		for k := 0; k < 3; k++ {
			f := vk.Cfg{Name: fmt.Sprintf("churn-%d-%d", g, k), NoTarget: true, TargetN: 7}
			may[f.Name] = f
		}
	}
	if err := dts.SaveIndex(); err != nil {
		c.Failf("save", "%v", err)
	}
	var stop atomic.Bool
	var mu sync.Mutex
	snaps := map[uint64][]byte{}
	missing := 0
	reads := 0
	var owg, wg sync.WaitGroup
	for o := 0; o < 2; o++ {
		owg.Add(1)
		go func() {
			defer owg.Done()
			for !stop.Load() {
				b, err := os.ReadFile(filepath.Join(dir, indexFile))
				mu.Lock()
				reads++
				if err != nil {
					missing++
				} else {
					h := fnv.New64a()
					h.Write(b)
					if len(snaps) < 4000 {
						snaps[h.Sum64()] = b
					}
				}
				mu.Unlock()
			}
		}()
	}
	g := func(f func(r int)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < p.Rounds; r++ {
				f(r)
			}
		}()
	}
	if p.Load {
		time.Sleep(20 * time.Millisecond)
		for r := 0; r < p.Rounds; r++ {
			c.NewDataset(dir)
			time.Sleep(time.Duration(r%3) * 3 * time.Millisecond)
		}
	} else {
		for i := 0; i < p.Savers; i++ {
			g(func(int) { dts.SaveIndex() })
		}
		for i := 0; i < p.Lists; i++ {
			g(func(int) { dts.List() })
		}
		for i := 0; i < p.Churn; i++ {
			g(func(r int) {
				f := may[fmt.Sprintf("churn-%d-%d", i, r%3)]
				dts.CreateIfNotExists(f.PB())
				if r%2 == 0 {
					time.Sleep(200 * time.Microsecond)
				}
				dts.Delete(f.Name)
			})
		}
	}
	wg.Wait()
	time.Sleep(10 * time.Millisecond) // saves under way
	stop.Store(true)
	owg.Wait()
	if missing > 0 {
		c.Failf("torn", "the index did not exist at %d of %d instants", missing, reads)
	}
	n := 0
	for _, b := range snaps {
		if n++; n > 25 {
			// cheap check of the rest: every base dataset has its line
			continue
		}
		compare(c, "torn", fmt.Sprintf("index as of some instant (%d bytes)", len(b)), recovered(c, b), must, may)
	}
	// the shortest and the longest ones are the suspicious ones
	var lo, hi []byte
	for _, b := range snaps {
		if lo == nil || len(b) < len(lo) {
			lo = b
		}
		if len(b) > len(hi) {
			hi = b
		}
	}
	compare(c, "torn", "shortest index seen", recovered(c, lo), must, may)
	compare(c, "torn", "longest index seen", recovered(c, hi), must, may)
	if err := dts.SaveIndex(); err != nil {
		c.Failf("save", "%v", err)
	}
	b, _ := os.ReadFile(filepath.Join(dir, indexFile))
	compare(c, "final", "index at the end", recovered(c, b), must, nil)
	c.LabelIf(p.Load, "loading")
	c.LabelIf(len(snaps) > 1, "several-versions-seen")
	c.NonTrivialIf(reads > 20)
}

// Kill: a process saving its index is killed at some point and another one started on the folder, several times.
type Kill struct {
	Rounds []int // acknowledged saves before the kill
	Delay  []int // further microseconds
	Pre    int   // datasets created first
}

func genKill(t *rapid.T) Kill {
	p := Kill{Pre: rapid.SampledFrom([]int{0, 20, 200}).Draw(t, "pre")}
	for n := rapid.IntRange(1, 4).Draw(t, "rounds"); n > 0; n-- {
		p.Rounds = append(p.Rounds, rapid.IntRange(0, 12).Draw(t, "acks"))
		p.Delay = append(p.Delay, rapid.IntRange(0, 3000).Draw(t, "delay"))
	}
	return p
}

func childCfg(i int) vk.Cfg {
	return vk.Cfg{Name: fmt.Sprintf("child-%d", i), Version: uint64(i), TargetN: uint64(i * 3), NoTarget: i%2 == 0}
}

func TestChild(t *testing.T) {
	dir := os.Getenv("VERIF_C20_DIR")
	if dir == "" {
		t.Skip("only as a child")
	}
	var from, pre int
	fmt.Sscan(os.Getenv("VERIF_C20_FROM"), &from, &pre)
	dts := data.NewDataset(dir)
	for i := 0; i < pre; i++ {
		dts.CreateIfNotExists(&pb.DataConfig{Name: fmt.Sprintf("pre-%d", i)})
	}
	dts.SaveIndex()
	fmt.Println("READY")
	for i := from; ; i++ {
		dts.CreateIfNotExists(childCfg(i).PB())
		dts.SaveIndex()
		fmt.Println("ACK")
		if i > from+500 {
			time.Sleep(time.Minute)
		}
	}
}

func runKill(c *vk.Ctx, p Kill) {
	dir := c.Dir()
	must, may := map[string]vk.Cfg{}, map[string]vk.Cfg{}
	next := 0
	for r, acks := range p.Rounds {
		pre := 0
		if r == 0 {
			pre = p.Pre
		}
		cmd := exec.Command(os.Args[0], "-test.run", "^TestChild$", "-test.v")
		cmd.Env = append(os.Environ(), "VERIF_C20_DIR="+dir, fmt.Sprintf("VERIF_C20_FROM=%d %d", next, pre))
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(out)
		got := -1
		timer := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		for got < acks && sc.Scan() {
			switch sc.Text() {
			case "READY":
				got = 0
			case "ACK":
				got++
			}
		}
		time.Sleep(time.Duration(p.Delay[r]) * time.Microsecond)
		cmd.Process.Kill()
		for sc.Scan() {
			if sc.Text() == "ACK" {
				got++
			}
		}
		cmd.Wait()
		timer.Stop()
		if got < 0 {
			panic("the child did not start")
		}
		for i := 0; i < pre; i++ {
			must[fmt.Sprintf("pre-%d", i)] = vk.Cfg{Name: fmt.Sprintf("pre-%d", i)}
		}
		for i := next; i < next+got; i++ {
			must[childCfg(i).Name] = childCfg(i)
		}
		for i := next + got; i <= next+got+1; i++ {
			may[childCfg(i).Name] = childCfg(i)
		}
		b, err := os.ReadFile(filepath.Join(dir, indexFile))
		if err != nil {
			c.Failf("lost-after-kill", "round %d: no index: %v", r, err)
		}
		have := recovered(c, b)
		compare(c, "lost-after-kill", fmt.Sprintf("round %d, %d saves acknowledged", r, got), have, must, may)
		for k, v := range have {
			must[k] = v
		}
		next += got + 2
	}
	c.NonTrivial()
}

// Leftover: whatever files a save leaves behind when the node stops in the middle of it do no harm later.
type Leftover struct {
	Base, Keep int
	NameLen    int
	Delete     bool // datasets are deleted one by one, instead of dropped by maintenance for being empty
}

func genLeftover(t *rapid.T) Leftover {
	return Leftover{Base: rapid.SampledFrom([]int{60, 150, 400}).Draw(t, "base"), Keep: rapid.IntRange(0, 3).Draw(t, "keep"), Delete: rapid.IntRange(0, 3).Draw(t, "delete") == 0, NameLen: rapid.SampledFrom([]int{5, 60}).Draw(t, "namelen")}
}

func folder(dir string) map[string][]byte {
	out := map[string][]byte{}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		if e.Type().IsRegular() {
			if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
				out[e.Name()] = b
			}
		}
	}
	return out
}

func runLeftover(c *vk.Ctx, p Leftover) {
	dir := c.Dir()
	dts := c.NewDataset(dir)
	all := map[string]vk.Cfg{}
	for i := 0; i < p.Base; i++ {
		f := vk.Cfg{Name: fmt.Sprintf("%0*d", p.NameLen, i), Version: uint64(i % 3), NoTarget: true, Retention: 1 << 20}
		dts.CreateIfNotExists(f.PB())
		all[f.Name] = f
	}
	time.Sleep(10 * time.Millisecond)
	dts.SaveIndex()
	var stop atomic.Bool
	done := make(chan struct{})
	var most map[string][]byte // the folder while there were the most bytes besides the index
	go func() {
		defer close(done)
		size := 0
		for !stop.Load() {
			f := folder(dir)
			n := 0
			for name, b := range f {
				if name != indexFile {
					n += len(b)
				}
			}
			if f[indexFile] != nil && n > size {
				most, size = f, n
			}
		}
	}()
	for i := 0; i < 25; i++ {
		dts.SaveIndex()
	}
	stop.Store(true)
	<-done
	if most == nil {
		c.Label("no-leftover-seen")
		return
	}
	after := c.Dir()
	for name, b := range most {
		if err := os.WriteFile(filepath.Join(after, name), b, 0o644); err != nil {
			panic(err)
		}
	}
	dts = c.NewDataset(after)
	compare(c, "leftover", "after a crash", listed(c, dts), all, nil)
	keep := map[string]vk.Cfg{}
	for k, f := range all {
		if len(keep) < p.Keep {
			keep[k] = f
			dt, err := dts.GetNoCreate(k)
			if err != nil {
				c.Failf("get", "%v", err)
			}
			if err := dt.Insert(vk.D{F: []float32{1}}.PB(), nil); err != nil {
				c.Failf("insert", "%v", err)
			}
		} else if !p.Delete {
			continue
		} else if err := dts.Delete(k); err != nil {
			c.Failf("delete", "%v", err)
		}
	}
	if !p.Delete {
		dts.ReloadRuns()
		keep = listed(c, dts)
	} else {
		time.Sleep(5 * time.Millisecond) // saves under way
	}
	if err := dts.SaveIndex(); err != nil {
		c.Failf("save", "%v", err)
	}
	compare(c, "leftover", fmt.Sprintf("after a crash, with %d datasets deleted", len(all)-len(keep)), open(c, after), keep, nil)
	c.NonTrivial()
}

// Full: the disk is full at some point of a save.
type Full struct {
	Base, More int
	Bytes      int // the save fails after this many
}

func genFull(t *rapid.T) Full {
	return Full{Base: rapid.IntRange(0, 60).Draw(t, "base"), More: rapid.IntRange(1, 60).Draw(t, "more"), Bytes: rapid.SampledFrom([]int{0, 1, 50, 500, 2000, 4096, 5000, 8192}).Draw(t, "bytes")}
}

func TestFullChild(t *testing.T) {
	dir := os.Getenv("VERIF_C20_FULL")
	if dir == "" {
		t.Skip("only as a child")
	}
	var p Full
	fmt.Sscan(os.Getenv("VERIF_C20_PLAN"), &p.Base, &p.More, &p.Bytes)
	dts := data.NewDataset(dir)
	for i := 0; i < p.Base; i++ {
		dts.CreateIfNotExists(childCfg(i).PB())
	}
	time.Sleep(10 * time.Millisecond)
	fmt.Println("FIRST", dts.SaveIndex())
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(p.Bytes), Max: uint64(p.Bytes)}); err != nil {
		panic(err)
	}
	for i := 0; i < p.More; i++ {
		dts.CreateIfNotExists(childCfg(p.Base + i).PB())
	}
	time.Sleep(10 * time.Millisecond)
	err := dts.SaveIndex()
	fmt.Println("SECOND", err == nil)
	os.Exit(0)
}

func runFull(c *vk.Ctx, p Full) {
	dir := c.Dir()
	cmd := exec.Command(os.Args[0], "-test.run", "^TestFullChild$", "-test.v")
	cmd.Env = append(os.Environ(), "VERIF_C20_FULL="+dir, fmt.Sprintf("VERIF_C20_PLAN=%d %d %d", p.Base, p.More, p.Bytes))
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	out, _ := cmd.Output()
	timer.Stop()
	if !strings.Contains(string(out), "FIRST <nil>") || !strings.Contains(string(out), "SECOND ") {
		panic("the child did not get along: " + string(out))
	}
	before, after := map[string]vk.Cfg{}, map[string]vk.Cfg{}
	for i := 0; i < p.Base+p.More; i++ {
		f := childCfg(i)
		if i < p.Base {
			before[f.Name] = f
		}
		after[f.Name] = f
	}
	b, err := os.ReadFile(filepath.Join(dir, indexFile))
	if err != nil {
		c.Failf("lost-disk-full", "no index: %v", err)
	}
	have := recovered(c, b)
	if strings.Contains(string(out), "SECOND true") {
		compare(c, "lost-disk-full", "save reported success", have, after, nil)
		return
	}
	if len(have) > p.Base { // some save of the new datasets fitted
		compare(c, "lost-disk-full", "disk full", have, before, after)
	} else {
		compare(c, "lost-disk-full", fmt.Sprintf("disk full after %d bytes", p.Bytes), have, before, nil)
	}
	c.NonTrivialIf(p.Base > 0)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 400, 8000, true, gen, run), vk.Sub("observe", 70, 1500, false, genObserve, runObserve).Retries(10).SlowLog(),
		vk.Sub("kill", 24, 400, false, genKill, runKill).Retries(10),
		vk.Sub("leftover", 40, 800, false, genLeftover, runLeftover).Retries(10), vk.Sub("disk-full", 30, 500, false, genFull, runFull).Retries(3))
}

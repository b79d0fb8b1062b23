package c32

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Op on the one folder of a case.
type Op struct {
	Kind int // 0 start, 1 create, 2 insert, 3 SIGTERM, 4 SIGINT, 5 SIGKILL, 6 start on a taken port, 7 start and kill/terminate soon after, 8 delete-free wait
	Cfg  vk.Cfg
	N    int // delay in ms (7), number of inserts (2)
	Sig  int // 7: 0 SIGKILL, 1 SIGTERM
}

type Plan struct {
	Deep      bool   // the folder does not exist before
	Slash     bool   // given with a slash at the end
	Broadcast string // P stands for nothing special; addresses without port get the server's
	Env       bool   // broadcast by environment variable
	Services  int    `json:"services,omitempty"` // services to join
	Dead      bool   `json:"dead,omitempty"`     // the first one of them is not reachable
	Ops       []Op
}

var names = []string{"a", "b", "vectors", "index.save", "data", "a b", "ünï/code", "..", "{}"}

func gen(t *rapid.T) Plan {
	p := Plan{Deep: rapid.Bool().Draw(t, "deep"), Slash: rapid.Bool().Draw(t, "slash"), Env: rapid.Bool().Draw(t, "env")}
	p.Broadcast = rapid.SampledFrom([]string{"", "", "10.1.2.3", "10.1.2.3:77", "10.1.2.3,10.1.2.4:5", "10.1.2.3,host-b", "10.1.2.3:8,b,c,d:1"}).Draw(t, "broadcast")
	p.Services = rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(t, "services")
	p.Dead = rapid.IntRange(0, 2).Draw(t, "dead") == 0
	op := rapid.Custom(func(t *rapid.T) Op {
		o := Op{Kind: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 1, 2, 3, 3, 4, 5, 5, 6, 6, 7}).Draw(t, "kind")}
		switch o.Kind {
		case 1:
			o.Cfg = vk.GenCfg(t, rapid.SampledFrom(names).Draw(t, "name"))
		case 2:
			o.Cfg.Name = rapid.SampledFrom(names).Draw(t, "name")
			o.N = rapid.IntRange(1, 20).Draw(t, "n")
		case 7:
			o.N = rapid.IntRange(0, 250).Draw(t, "ms")
			o.Sig = rapid.IntRange(0, 1).Draw(t, "sig")
		}
		return o
	})
	// start, create, ... so that shrinking can drop anything
	p.Ops = append([]Op{{Kind: 0}, {Kind: 1, Cfg: vk.GenCfg(t, rapid.SampledFrom(names).Draw(t, "first"))}}, rapid.SliceOfN(op, 1, 9).Draw(t, "ops")...)
	return p
}

// joiner is a service the server joins at its start; it records the announcement.
type joiner struct {
	pb.UnimplementedVeriServiceServer
	mu   sync.Mutex
	peer *pb.Peer
}

func (j *joiner) Join(ctx context.Context, r *pb.JoinRequest) (*pb.JoinResponse, error) {
	j.mu.Lock()
	defer j.mu.Unlock()
	if j.peer == nil {
		j.peer = r.GetPeer()
	}
	return &pb.JoinResponse{}, nil
}

type proc struct {
	cmd  *exec.Cmd
	out  *bytes.Buffer
	done chan struct{}
	port int
}

func (p *proc) exited(wait time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(wait):
		return false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

var nextPort int

// freePort takes ports from a range of this worker, outside of the range for outgoing connections.
func freePort() int {
	w, _ := strconv.Atoi(os.Getenv("VK_WORKER"))
	for try := 0; try < 900; try++ {
		nextPort = (nextPort + 1) % 900
		port := 11000 + w*1000 + nextPort
		lis, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port))
		if err == nil {
			lis.Close()
			return port
		}
	}
	panic("no free port")
}

type world struct {
	c      *vk.Ctx
	plan   Plan
	folder string // empty: started without one
	cwd    string
	cur    *proc
	client pb.VeriServiceClient
	conn   *grpc.ClientConn
	want   map[string]vk.Cfg   // in force
	saved  map[string][]vk.Cfg // since the last orderly end: what a kill may bring back instead
	marks  []string
	stats  struct{ restarts, kills, refused, terms int }
}

func (w *world) launch(port int, services string) *proc {
	dir := w.folder
	if w.plan.Slash {
		dir += "/"
	}
	args := []string{"serve", "--port", strconv.Itoa(port), "--directory", dir}
	if w.folder == "" {
		args = args[:3]
	}
	if services != "" {
		args = append(args, "--services", services)
	}
	env := []string{"HOME=" + w.c.Dir(), "TMPDIR=" + w.c.Dir(), "PATH=" + os.Getenv("PATH")}
	if w.plan.Broadcast != "" {
		if w.plan.Env {
			env = append(env, "BROADCAST="+w.plan.Broadcast)
		} else {
			args = append(args, "--broadcast", w.plan.Broadcast)
		}
	}
	p := &proc{out: &bytes.Buffer{}, done: make(chan struct{}), port: port}
	p.cmd = exec.Command(filepath.Join(os.Getenv("VK_BIN"), "veri"), args...)
	p.cmd.Env = env
	p.cmd.Dir = w.c.Dir()
	if w.cwd != "" {
		p.cmd.Dir = w.cwd
	}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: false}
	if err := p.cmd.Start(); err != nil {
		panic("cannot start veri: " + err.Error())
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	w.c.Cleanup(func() {
		p.cmd.Process.Kill()
		<-p.done
	})
	return p
}

// intact: folder and everything of the operator in it are still there.
func (w *world) intact(step int, when string) {
	if w.folder == "" {
		for _, m := range w.marks {
			if b, err := os.ReadFile(m); err != nil || string(b) != m {
				w.c.Failf("file-deleted", "step %d, %s: the file %s is gone or changed: %v", step, when, m, err)
			}
		}
		l, err := os.ReadDir(w.cwd)
		if err != nil || len(l) != len(w.marks) {
			w.c.Failf("working-directory", "step %d, %s: without a data folder the server changed its working directory: %v %v", step, when, l, err)
		}
		return
	}
	if _, err := os.Stat(w.folder); err != nil {
		w.c.Failf("folder-deleted", "step %d, %s: the data folder is gone: %v", step, when, err)
	}
	for _, m := range w.marks {
		if b, err := os.ReadFile(m); err != nil || string(b) != m {
			w.c.Failf("file-deleted", "step %d, %s: the file %s is gone or changed: %v", step, when, strings.TrimPrefix(m, w.folder), err)
		}
	}
}

func tail(b *bytes.Buffer) string {
	s := b.String()
	if len(s) > 800 {
		s = s[len(s)-800:]
	}
	return s
}

// start starts the server on the folder and compares its datasets with the model.
func (w *world) start(step int) {
	var joiners []*joiner
	var services []string
	for i := 0; i < max(1, w.plan.Services); i++ {
		j := &joiner{}
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		services = append(services, lis.Addr().String())
		if w.plan.Dead && w.plan.Services > 1 && i == 0 {
			lis.Close()
			continue
		}
		joiners = append(joiners, j)
		g := grpc.NewServer()
		pb.RegisterVeriServiceServer(g, j)
		go g.Serve(lis)
		w.c.Cleanup(g.Stop)
	}
	j := joiners[0]
	var err error
	var p *proc
	var cl pb.VeriServiceClient
	var conn *grpc.ClientConn
	for try := 0; ; try++ {
		p = w.launch(freePort(), strings.Join(services, ","))
		conn, err = grpc.Dial(fmt.Sprintf("127.0.0.1:%d", p.port), grpc.WithInsecure())
		if err != nil {
			panic(err)
		}
		w.c.Cleanup(func() { conn.Close() })
		cl = pb.NewVeriServiceClient(conn)
		ok := false
		for end := time.Now().Add(40 * time.Second); time.Now().Before(end) && !p.exited(20*time.Millisecond); {
			conn.ResetConnectBackoff()
			ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
			_, err := cl.Ping(ctx, &pb.PingRequest{})
			cancel()
			if err == nil {
				ok = true
				break
			}
		}
		if ok {
			break
		}
		if try == 2 {
			w.c.Failf("no-answer", "step %d: the server does not answer on port %d (exited: %v): %s", step, p.port, p.exited(0), tail(p.out))
		}
		p.kill()
	}
	w.cur, w.client, w.conn = p, cl, conn
	w.intact(step, "after a start")
	// the announcement tells which datasets the server has
	var peer *pb.Peer
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		j.mu.Lock()
		peer = j.peer
		j.mu.Unlock()
		if peer != nil {
			break
		}
	}
	if peer == nil {
		w.c.Failf("not-joined", "step %d: the server did not join its service", step)
	}
	for i, j := range joiners {
		there := false
		for end := time.Now().Add(20 * time.Second); !there && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			j.mu.Lock()
			there = j.peer != nil
			j.mu.Unlock()
		}
		if !there {
			w.c.Failf("not-joined", "step %d: the server did not join service %d of %d", step, i, len(joiners))
		}
	}
	listed := append([]string{}, peer.GetServiceList()...)
	sort.Strings(listed)
	sort.Strings(services)
	if strings.Join(listed, " ") != strings.Join(services, " ") {
		w.c.Failf("services", "step %d: the server was given the services %v and announces %v", step, services, listed)
	}
	var adv []string
	for _, a := range strings.Split(w.plan.Broadcast, ",") {
		if a != "" {
			if !strings.Contains(a, ":") {
				a = fmt.Sprintf("%s:%d", a, p.port)
			}
			adv = append(adv, a)
		}
	}
	got := append([]string{}, peer.GetAddressList()...)
	sort.Strings(got)
	sort.Strings(adv)
	if strings.Join(got, " ") != strings.Join(adv, " ") {
		w.c.Failf("addresses", "step %d: the server advertises %v instead of %v", step, got, adv)
	}
	have := map[string]vk.Cfg{}
	for _, d := range peer.GetDataList() {
		have[d.GetName()] = vk.CfgFromPB(d)
	}
	for name := range have {
		if _, ok := w.want[name]; !ok {
			w.c.Failf("alien-dataset", "step %d: after a start there is a dataset %q nobody created", step, name)
		}
	}
	for name, want := range w.want {
		h, ok := have[name]
		if !ok {
			w.c.Failf("dataset-lost", "step %d: after a start dataset %q is missing", step, name)
		}
		if h != want {
			allowed := false
			for _, s := range w.saved[name] {
				allowed = allowed || s == h
			}
			if !allowed {
				w.c.Failf("configuration", "step %d: after a start dataset %q has %+v instead of %+v", step, name, h, want)
			}
			w.want[name] = h
		}
	}
	for name, want := range w.want {
		w.compare(step, name, want)
	}
}

func (w *world) compare(step int, name string, want vk.Cfg) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	info, err := w.client.GetDataInfo(ctx, &pb.GetDataRequest{Name: name})
	if err != nil {
		w.c.Failf("no-answer", "step %d: information about %q: %v", step, name, err)
	}
	if got := vk.CfgFromInfo(info); got != want {
		w.c.Failf("configuration", "step %d: dataset %q is reported with %+v instead of %+v", step, name, got, want)
	}
}

// settled waits until the index has been saved after the last creation.
func (w *world) settled() {
	end := time.Now().Add(10 * time.Second)
	for time.Now().Before(end) {
		b, _ := os.ReadFile(filepath.Join(w.folder, "index.save"))
		if bytes.Count(b, []byte("\n")) >= len(w.want) {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (w *world) ended(orderly bool) {
	if orderly {
		w.saved = map[string][]vk.Cfg{}
	}
	w.cur, w.client = nil, nil
	w.stats.restarts++
}

func run(c *vk.Ctx, p Plan) {
	w := &world{c: c, plan: p, want: map[string]vk.Cfg{}, saved: map[string][]vk.Cfg{}}
	root := c.Dir()
	w.folder = root
	if p.Deep {
		w.folder = filepath.Join(root, "x", "y")
	} else {
		w.mark(filepath.Join(w.folder, "notes.txt"))
	}
	w.mark(filepath.Join(root, "outside.txt"))
	for step, o := range p.Ops {
		switch o.Kind {
		case 0:
			if w.cur == nil {
				w.start(step)
				if p.Deep && len(w.marks) == 1 {
					w.mark(filepath.Join(w.folder, "notes.txt"))
					w.mark(filepath.Join(w.folder, "data", "notes.txt"))
				}
			}
		case 1:
			if w.cur == nil {
				continue
			}
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			_, err := w.client.CreateDataIfNotExists(ctx, o.Cfg.PB())
			cancel()
			if err != nil {
				c.Failf("create", "step %d: creating %q: %v", step, o.Cfg.Name, err)
			}
			if old, ok := w.want[o.Cfg.Name]; !ok {
				w.want[o.Cfg.Name] = o.Cfg
			} else if o.Cfg.Version > old.Version {
				w.saved[o.Cfg.Name] = append(w.saved[o.Cfg.Name], old)
				w.want[o.Cfg.Name] = o.Cfg
			}
			w.compare(step, o.Cfg.Name, w.want[o.Cfg.Name])
		case 2:
			if _, ok := w.want[o.Cfg.Name]; w.cur == nil || !ok {
				continue
			}
			for i := 0; i < o.N; i++ {
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				// refused when the configuration demands copies nobody can take; all that matters is the folder
				w.client.Insert(ctx, &pb.InsertionRequest{DataName: o.Cfg.Name, Config: &pb.InsertConfig{}, Datum: &pb.Datum{
					Key: &pb.DatumKey{Feature: []float32{float32(i), 1}, Size1: 1, Dim1: 2}, Value: &pb.DatumValue{Label: []byte("x")}}})
				cancel()
			}
		case 3, 4:
			if w.cur == nil {
				continue
			}
			sig := syscall.SIGTERM
			if o.Kind == 4 {
				sig = syscall.SIGINT
			}
			w.cur.cmd.Process.Signal(sig)
			if !w.cur.exited(40 * time.Second) {
				c.Failf("no-exit", "step %d: the server is still running 40 s after %v: %s", step, sig, tail(w.cur.out))
			}
			if code := w.cur.cmd.ProcessState.ExitCode(); code != 0 {
				c.Failf("exit-code", "step %d: the server ended with %v after %v: %s", step, w.cur.cmd.ProcessState, sig, tail(w.cur.out))
			}
			w.ended(true)
			w.stats.terms++
		case 5:
			if w.cur == nil {
				continue
			}
			w.settled()
			w.cur.kill()
			w.ended(false)
			w.stats.kills++
		case 6:
			lis, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", freePort()))
			if err != nil {
				continue
			}
			if w.cur != nil {
				w.settled()
			}
			x := w.launch(lis.Addr().(*net.TCPAddr).Port, "")
			if !x.exited(5 * time.Second) {
				x.kill()
			}
			lis.Close()
			w.stats.refused++
		case 7:
			if w.cur != nil {
				continue
			}
			x := w.launch(freePort(), "")
			if !x.exited(time.Duration(o.N) * time.Millisecond) {
				if o.Sig == 0 {
					x.cmd.Process.Kill()
				} else {
					x.cmd.Process.Signal(syscall.SIGTERM)
				}
				if !x.exited(40 * time.Second) {
					c.Failf("no-exit", "step %d: the server is still running 40 s after the signal: %s", step, tail(x.out))
				}
			}
			w.stats.kills++
		}
		if w.cur != nil && w.cur.exited(0) {
			c.Failf("crash", "step %d: the server ended by itself with %v: %s", step, w.cur.cmd.ProcessState, tail(w.cur.out))
		}
		if len(w.marks) > 0 && (!p.Deep || len(w.marks) > 1) {
			w.intact(step, fmt.Sprintf("operation %d", o.Kind))
		}
	}
	if w.cur != nil {
		w.settled()
		w.cur.kill()
		w.ended(false)
	}
	w.start(len(p.Ops))
	w.cur.kill()
	w.intact(len(p.Ops), "at the end")
	c.LabelIf(w.stats.refused > 0, "port-taken")
	c.LabelIf(w.stats.kills > 0, "killed")
	c.LabelIf(w.stats.terms > 0, "terminated")
	c.NonTrivialIf(len(w.want) > 0 && w.stats.restarts > 1)
}

// NoFolder: servers started without a data folder, one after the other or at the same time.
type NoFolder struct {
	Cfgs     [][]vk.Cfg // per server
	Together bool
	Marks    []string // files in the working directory
	Term     bool
}

func genNoFolder(t *rapid.T) NoFolder {
	p := NoFolder{Together: rapid.Bool().Draw(t, "together"), Term: rapid.Bool().Draw(t, "term"),
		Marks: rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"index.save", "data", "notes.txt", "node"}), 0, 3, func(s string) string { return s }).Draw(t, "marks")}
	for k := rapid.IntRange(1, 2).Draw(t, "servers"); k > 0; k-- {
		var l []vk.Cfg
		for j := rapid.IntRange(1, 3).Draw(t, "datasets"); j > 0; j-- {
			l = append(l, vk.GenCfg(t, rapid.SampledFrom(names).Draw(t, "name")))
		}
		p.Cfgs = append(p.Cfgs, l)
	}
	return p
}

func runNoFolder(c *vk.Ctx, p NoFolder) {
	cwd := c.Dir()
	var ws []*world
	end := func(w *world) {
		if w.cur == nil {
			return
		}
		if p.Term {
			w.cur.cmd.Process.Signal(syscall.SIGTERM)
			if !w.cur.exited(40 * time.Second) {
				c.Failf("no-exit", "the server is still running 40 s after SIGTERM: %s", tail(w.cur.out))
			}
		} else {
			w.cur.kill()
		}
		w.cur = nil
		w.intact(1, "after its end")
	}
	for _, l := range p.Cfgs {
		w := &world{c: c, cwd: cwd, want: map[string]vk.Cfg{}, saved: map[string][]vk.Cfg{}}
		if len(ws) == 0 {
			for _, m := range p.Marks {
				w.mark(filepath.Join(cwd, m))
			}
		} else {
			w.marks = ws[0].marks
		}
		ws = append(ws, w)
		w.start(0) // with no datasets at all
		for _, f := range l {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			_, err := w.client.CreateDataIfNotExists(ctx, f.PB())
			cancel()
			if err != nil {
				c.Failf("create", "creating %q: %v", f.Name, err)
			}
			if old, ok := w.want[f.Name]; !ok || f.Version > old.Version {
				w.want[f.Name] = f
			}
			w.compare(0, f.Name, w.want[f.Name])
		}
		time.Sleep(100 * time.Millisecond)
		w.intact(0, "while serving")
		if !p.Together {
			end(w)
		}
	}
	for _, w := range ws {
		end(w)
	}
	c.NonTrivialIf(len(ws) > 1)
}

func (w *world) mark(name string) {
	if err := os.WriteFile(name, []byte(name), 0o600); err != nil {
		panic(err)
	}
	w.marks = append(w.marks, name)
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("folder", 160, 3000, false, gen, run).Confirm(2), vk.Sub("no-folder", 24, 400, false, genNoFolder, runNoFolder).Confirm(2))
}

package c27

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/veri/node"
	veriserviceserver "github.com/bgokden/veri/server"
	"github.com/bgokden/veri/state"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind string
	I    int    `json:"i,omitempty"`
	Name string `json:"name,omitempty"`
	Ms   int    `json:"ms,omitempty"`
	On   bool   `json:"on,omitempty"`
}

type Plan struct {
	Stored   int
	PeerMs   int // 0: no peer; otherwise a peer that takes this long per datum handed over
	Before   []Op
	After    []Op
	Health   bool
	Process  bool // processed before the close
	Unsynced bool // not synchronised yet when it closes
}

func ops(t *rapid.T, n int) []Op {
	var l []Op
	for ; n > 0; n-- {
		k := rapid.SampledFrom([]string{"insert", "insert", "insert", "search", "stream", "info", "ready", "health", "setHealth", "sync", "maintain", "periodic", "wait", "join", "save"}).Draw(t, "op")
		l = append(l, Op{Kind: k, I: rapid.IntRange(0, 30).Draw(t, "i"), Name: rapid.SampledFrom([]string{"a", "a", "b", "new"}).Draw(t, "name"),
			Ms: rapid.SampledFrom([]int{0, 1, 10, 100, 1000, 61000}).Draw(t, "ms"), On: rapid.Bool().Draw(t, "on")})
	}
	return l
}

func gen(t *rapid.T) Plan {
	return Plan{Stored: rapid.IntRange(0, 20).Draw(t, "stored"), PeerMs: rapid.SampledFrom([]int{0, 0, 1, 50, 150}).Draw(t, "peerMs"), Before: ops(t, rapid.IntRange(0, 8).Draw(t, "nb")),
		After: ops(t, rapid.IntRange(1, 14).Draw(t, "na")), Health: rapid.Bool().Draw(t, "health"), Process: rapid.Bool().Draw(t, "process"), Unsynced: rapid.IntRange(0, 3).Draw(t, "unsynced") == 0}
}

func probe(h http.HandlerFunc) int {
	w := httptest.NewRecorder()
	h(w, httptest.NewRequest("GET", "/", nil))
	return w.Code
}

func names(n *node.Node) string {
	var l []string
	for k := range n.Dataset.DataList.Items() {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func ready(c *vk.Ctx, want bool, when string) {
	code := probe(veriserviceserver.GetReady)
	if want && code != http.StatusOK {
		c.Failf("not-ready", "%s: the node has synchronised, but readiness is answered with %d", when, code)
	}
	if !want && code < 300 {
		c.Failf("ready", "%s: readiness is answered with %d", when, code)
	}
}

func run(c *vk.Ctx, p Plan) {
	state.Ready, state.Drain, state.Health = false, false, p.Health
	c.Cleanup(func() { state.Ready, state.Drain, state.Health = false, false, false })
	health, synced, closing := p.Health, true, false
	ready(c, false, "before anything was synchronised")
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	c.Settle()
	ready(c, true, "after the first synchronisation")
	ctx := context.Background()
	if err := n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true}); err != nil {
		c.Failf("create", "%v", err)
	}
	dt, _ := n.Dataset.GetNoCreate("a")
	var peer *vk.Peer
	if p.PeerMs > 0 {
		peer = &vk.Peer{ID: "p", Latency: 200 * time.Millisecond, Info: func(int) *pb.DataInfo { return &pb.DataInfo{N: 1, Avg: []float32{900, 900}} }}
		peer.OnInsert = func(int, *pb.Datum, *pb.InsertConfig) error {
			time.Sleep(time.Duration(p.PeerMs) * time.Millisecond)
			return nil
		}
		peer.OnSearch = func(d *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error { return nil }
		dt.AddSource(peer)
	}
	model := map[string]map[string]string{"a": {}}
	d := func(i int) vk.D { return vk.D{F: []float32{float32(i), 1}, L: fmt.Sprint("l", i)} }
	insert := func(name string, i int) error {
		// from a client or forwarded by a peer
		cfg := &pb.InsertConfig{Count: uint64(i % 3), TTL: uint64(i%2) * 100000}
		if i%4 == 3 {
			cfg = nil
		}
		_, err := n.Insert(ctx, &pb.InsertionRequest{DataName: name, Datum: d(i).PB(), Config: cfg})
		return err
	}
	for i := 0; i < p.Stored; i++ {
		if err := insert("a", 100+i); err != nil {
			c.Failf("refused", "insert before closing: %v", err)
		}
		model["a"][d(100+i).Key()] = d(100 + i).Val()
	}
	refused, reads := 0, 0
	frozen := ""
	exec := func(op Op) {
		switch op.Kind {
		case "insert":
			err := insert(op.Name, op.I)
			if !closing {
				if err != nil {
					c.Failf("refused", "insert before closing: %v", err)
				}
				if model[op.Name] == nil {
					model[op.Name] = map[string]string{}
				}
				model[op.Name][d(op.I).Key()] = d(op.I).Val()
				return
			}
			refused++
			if err == nil {
				c.Failf("accepted", "an insert was accepted while the node is closing")
			}
			if !strings.Contains(err.Error(), "Node is in drain mode") {
				c.Failf("drain-error", "an insert while closing is refused with %q, which peers do not know", err)
			}
		case "search":
			st := &vk.Stream[*pb.ScoredDatum]{}
			err := n.SearchStream(&pb.SearchRequest{Datum: []*pb.Datum{d(0).PB()}, Config: &pb.SearchConfig{DataName: "a", Limit: 1000, Timeout: 5000, ScoreFuncName: "VectorDistance"}}, st)
			reads++
			if err != nil {
				c.Failf("read", "search while closing=%v: %v", closing, err)
			}
			if (!closing || peer == nil) && len(st.Out) != len(model["a"]) {
				c.Failf("read", "search while closing=%v found %d of %d", closing, len(st.Out), len(model["a"]))
			}
		case "stream":
			st := &vk.Stream[*pb.Datum]{}
			reads++
			if err := n.DataStream(&pb.GetDataRequest{Name: "a"}, st); err != nil {
				c.Failf("read", "stream while closing=%v: %v", closing, err)
			}
			if (!closing || peer == nil) && len(st.Out) != len(model["a"]) {
				c.Failf("read", "stream while closing=%v delivers %d of %d", closing, len(st.Out), len(model["a"]))
			}
			for _, x := range st.Out {
				if model["a"][vk.FromPB(x).Key()] != vk.FromPB(x).Val() {
					c.Failf("read", "stream delivers %v, which is not stored", x)
				}
			}
		case "info":
			reads++
			info, err := n.GetDataInfo(ctx, &pb.GetDataRequest{Name: "a"})
			if err != nil || info.GetName() != "a" {
				c.Failf("read", "information while closing=%v: %v, %v", closing, info, err)
			}
		case "ready":
			ready(c, synced && !closing, fmt.Sprintf("closing=%v synchronised=%v", closing, synced))
		case "health":
			code := probe(veriserviceserver.GetHeath)
			if (code == http.StatusOK) != health || (!health && code < 500) {
				c.Failf("health", "health is %v, answered with %d", health, code)
			}
		case "setHealth":
			health = op.On
			state.Health = op.On
		case "sync":
			n.SyncWithPeers()
			synced = true
		case "maintain":
			if !(closing && peer != nil) && len(model["a"]) > 0 { // passes on datasets being handed over are C22's subject
				n.Dataset.ReloadRuns()
				c.Settle()
			}
		case "periodic":
			if !(closing && peer != nil) && len(model["a"]) > 0 {
				n.Periodic()
				c.Settle()
				synced = true
			}
		case "wait":
			c.Sleep(time.Duration(op.Ms) * time.Millisecond)
		case "join":
			n.Join(ctx, &pb.JoinRequest{Peer: &pb.Peer{AddressList: []string{"n:1"}, Timestamp: uint64(time.Now().Unix())}})
		case "save":
			n.Dataset.SaveIndex()
		}
	}
	for _, op := range p.Before {
		exec(op)
	}
	if p.Process {
		dt.Process(true)
	}
	c.Settle()
	if p.Unsynced {
		state.Ready, synced = false, false // as at the start of the server
		ready(c, false, "before it was synchronised")
	}
	frozen = names(n)
	done := make(chan struct{})
	go func() {
		n.Close()
		close(done)
	}()
	c.Settle() // it has started
	closing = true
	running := false
	select {
	case <-done:
	default:
		running = true
	}
	ready(c, false, "just after it started closing")
	for _, op := range p.After {
		exec(op)
		if op.Kind == "sync" || op.Kind == "maintain" || op.Kind == "periodic" || op.Kind == "insert" || op.Kind == "wait" {
			ready(c, false, "closing, after "+op.Kind)
		}
	}
	select {
	case <-done:
	case <-time.After(30 * time.Minute):
		c.Failf("hang", "closing did not end")
	}
	c.Settle()
	ready(c, false, "closed")
	exec(Op{Kind: "insert", Name: "a", I: 5})
	exec(Op{Kind: "insert", Name: "new2", I: 5})
	if peer == nil {
		if got := names(n); got != frozen && model["a"] != nil && len(model["a"]) > 0 {
			if strings.Contains(got, "new2") || len(got) > len(frozen) {
				c.Failf("stored", "datasets before closing: %s, afterwards: %s", frozen, got)
			}
		}
		if diff := vk.DiffMaps(c.Contents(dt), model["a"]); diff != "" {
			c.Failf("stored", "after closing: %s", diff)
		}
	} else {
		if strings.Contains(names(n), "new2") {
			c.Failf("stored", "a refused insert created a dataset")
		}
		for k, v := range c.Contents(dt) {
			if model["a"][k] != v {
				c.Failf("stored", "after closing the dataset has %s=%s", k, v)
			}
		}
		for _, r := range peer.Accepted() {
			if model["a"][r.Key] != r.Val {
				c.Failf("stored", "%s=%s was passed on, but not stored before closing", r.Key, r.Val)
			}
		}
	}
	c.LabelIf(running, "close-takes-time")
	c.LabelIf(refused > 0, "refused")
	c.LabelIf(reads > 0, "read-while-closing")
	c.NonTrivialIf(refused > 0 || reads > 0)
}

// Flight: the node starts closing while a synchronisation with slow peers is on its way.
type Flight struct {
	SlowMs  []int
	CloseMs int
	Syncs   int
}

func genFlight(t *rapid.T) Flight {
	return Flight{SlowMs: rapid.SliceOfN(rapid.SampledFrom([]int{0, 5, 20, 60}), 2, 3).Draw(t, "slow"), CloseMs: rapid.IntRange(0, 80).Draw(t, "close"), Syncs: rapid.IntRange(1, 3).Draw(t, "syncs")}
}

type slow struct {
	pb.UnimplementedVeriServiceServer
	d time.Duration
}

func (s *slow) AddPeer(context.Context, *pb.AddPeerRequest) (*pb.AddPeerResponse, error) {
	time.Sleep(s.d)
	return &pb.AddPeerResponse{}, nil
}

func runFlight(c *vk.Ctx, p Flight) {
	state.Ready, state.Drain, state.Health = false, false, true
	c.Cleanup(func() { state.Ready, state.Drain, state.Health = false, false, false })
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	for _, ms := range p.SlowMs {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		g := grpc.NewServer()
		pb.RegisterVeriServiceServer(g, &slow{d: time.Duration(ms) * time.Millisecond})
		go g.Serve(lis)
		c.Cleanup(g.Stop)
		n.AddPeerElement(&pb.Peer{AddressList: []string{lis.Addr().String()}, Timestamp: uint64(time.Now().Unix())})
	}
	var wg sync.WaitGroup
	for i := 0; i < p.Syncs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n.SyncWithPeers()
		}()
	}
	time.Sleep(time.Duration(p.CloseMs) * time.Millisecond)
	n.Close()
	ready(c, false, "closed")
	flying := make(chan struct{})
	go func() {
		wg.Wait()
		close(flying)
	}()
	overlap := false
	for {
		select {
		case <-flying:
			ready(c, false, "closed, after a synchronisation that was on its way")
			n.SyncWithPeers()
			ready(c, false, "closed, after another synchronisation")
			c.LabelIf(overlap, "overlap")
			c.NonTrivialIf(overlap)
			return
		default:
			overlap = true
			ready(c, false, "closed, during a synchronisation")
			time.Sleep(time.Millisecond)
		}
	}
}

// Moment: clients learn from the readiness probe that the node has started closing, and insert at once.
type Moment struct {
	Datasets int
	Stored   int
	Clients  int
}

func genMoment(t *rapid.T) Moment {
	return Moment{Datasets: rapid.SampledFrom([]int{1, 20, 200, 600}).Draw(t, "datasets"), Stored: rapid.IntRange(0, 30).Draw(t, "stored"), Clients: rapid.IntRange(1, 3).Draw(t, "clients")}
}

func runMoment(c *vk.Ctx, p Moment) {
	state.Ready, state.Drain, state.Health = false, false, true
	c.Cleanup(func() { state.Ready, state.Drain, state.Health = false, false, false })
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	for i := 0; i < p.Datasets; i++ {
		n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: fmt.Sprint("d", i), NoTarget: true})
	}
	insert := func(who, i int) error {
		d := vk.D{F: []float32{float32(who), float32(i)}}
		_, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: fmt.Sprint("d", i%p.Datasets), Datum: d.PB()})
		return err
	}
	for i := 0; i < p.Stored; i++ {
		insert(99, i)
	}
	n.SyncWithPeers()
	time.Sleep(2 * time.Millisecond)
	accepted := make([]int, p.Clients)
	wrong := make([]string, p.Clients)
	closed := make(chan struct{})
	var wg sync.WaitGroup
	for k := range accepted {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for probe(veriserviceserver.GetReady) == http.StatusOK {
			}
			for i := 0; i < 20; i++ {
				if err := insert(k, i); err == nil {
					accepted[k]++
				} else if !strings.Contains(err.Error(), "Node is in drain mode") {
					wrong[k] = err.Error()
				}
			}
		}()
	}
	time.Sleep(time.Millisecond)
	go func() {
		n.Close()
		close(closed)
	}()
	<-closed
	time.AfterFunc(10*time.Second, func() { state.Ready = false })
	wg.Wait()
	for k := range accepted {
		if accepted[k] > 0 {
			c.Failf("accepted", "client %d: %d inserts were accepted although the node was already reported as not ready, since closing", k, accepted[k])
		}
		if wrong[k] != "" {
			c.Failf("drain-error", "an insert while closing is refused with %q, which peers do not know", wrong[k])
		}
	}
	c.NonTrivial()
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("drain", 3000, 90000, true, gen, run), vk.Sub("inflight", 60, 1500, false, genFlight, runFlight),
		vk.Sub("moment", 60, 1500, false, genMoment, runMoment).Confirm(3).Retries(5))
}

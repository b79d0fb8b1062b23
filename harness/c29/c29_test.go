package c29

import (
	"context"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/state"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	grpcPeer "google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	"vharness/vk"
)

// front is a node's gRPC endpoint; calls fail as unavailable while the node is down or not yet started.
type front struct {
	pb.VeriServiceServer
	up atomic.Bool
}

func (f *front) unary(ctx context.Context, req any, _ *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
	if !f.up.Load() {
		return nil, status.Error(codes.Unavailable, "down")
	}
	return h(ctx, req)
}

func (f *front) stream(srv any, ss grpc.ServerStream, _ *grpc.StreamServerInfo, h grpc.StreamHandler) error {
	if !f.up.Load() {
		return status.Error(codes.Unavailable, "down")
	}
	return h(srv, ss)
}

// NodePlan says how a node starts and what it holds.
type NodePlan struct {
	Seeds []int // nodes in its service list
	Form  int   // how seeds are written: 0 127.0.0.1, 1 localhost
	Adv   int   // advertised: 0 nothing, 1 127.0.0.1, 2 localhost, 3 both
	Start int   // round in which it starts
	Down  int   // round in which it is unreachable (0: never)
}

// Event: in a round a node creates a dataset (or a newer version of it).
type Event struct {
	Round, Node, Name int
	Version           uint64
}

type Cluster struct {
	Nodes  []NodePlan
	Events []Event
	Order  []int // order of the operations, by round
}

type Plan struct {
	Clusters []Cluster
}

const lastEvent = 3 // round of the last start, outage or event

func genCluster(t *rapid.T) Cluster {
	var c Cluster
	n := rapid.IntRange(2, 5).Draw(t, "nodes")
	shape := rapid.IntRange(0, 4).Draw(t, "shape")
	for i := 0; i < n; i++ {
		np := NodePlan{Adv: rapid.IntRange(0, 3).Draw(t, "adv"), Form: rapid.IntRange(0, 1).Draw(t, "form")}
		if i > 0 {
			np.Start = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "start")
			// connected: every node but the first is linked with an earlier one, in either direction
			var with int
			switch shape {
			case 0:
				with = i - 1 // line
			case 1:
				with = 0 // star
			default:
				with = rapid.IntRange(0, i-1).Draw(t, "with")
			}
			if rapid.Bool().Draw(t, "direction") {
				np.Seeds = append(np.Seeds, with)
			} else {
				c.Nodes[with].Seeds = append(c.Nodes[with].Seeds, i)
			}
		}
		if rapid.IntRange(0, 5).Draw(t, "down") == 0 {
			np.Down = rapid.IntRange(1, lastEvent).Draw(t, "downRound")
		}
		c.Nodes = append(c.Nodes, np)
	}
	for i := range c.Nodes { // more links, also to itself
		for _, s := range rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 2).Draw(t, "more") {
			c.Nodes[i].Seeds = append(c.Nodes[i].Seeds, s)
		}
	}
	ev := rapid.Custom(func(t *rapid.T) Event {
		return Event{
			Round: rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "round"), Node: rapid.IntRange(0, n-1).Draw(t, "node"),
			Name: rapid.IntRange(0, 2).Draw(t, "name"), Version: rapid.Uint64Range(0, 5).Draw(t, "version"),
		}
	})
	if rapid.IntRange(0, 4).Draw(t, "datasets") > 0 { // nodes have to find each other without any, too
		c.Events = rapid.SliceOfN(ev, 1, 6).Draw(t, "events")
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 1000), 10, 10).Draw(t, "order")
	return c
}

func gen(t *rapid.T) Plan {
	return Plan{rapid.SliceOfN(rapid.Custom(genCluster), 1, 8).Draw(t, "clusters")}
}

func config(name int, version uint64) *pb.DataConfig {
	return &pb.DataConfig{Name: fmt.Sprintf("data%d", name), Version: version, TargetN: 1000 + version*10, TargetUtilization: 0.5, NoTarget: true, Retention: 86400 + version}
}

type member struct {
	port  int
	f     *front
	g     *grpc.Server
	n     *node.Node
	addrs map[string]bool
}

type fail struct{ kind, msg string }

type cluster struct {
	plan Cluster
	m    []*member
	best map[string]*pb.DataConfig
	// statistics
	rounds  int
	dataset int
}

func port(m *member, form int) string {
	if form == 0 {
		return fmt.Sprintf("127.0.0.1:%d", m.port)
	}
	return fmt.Sprintf("localhost:%d", m.port)
}

// converged tells what is still missing, or "".
func (k *cluster) converged() (string, string) {
	for i, a := range k.m {
		known := map[int]bool{}
		for _, p := range a.n.PeerListItems() {
			for j, b := range k.m {
				for _, x := range p.GetAddressList() {
					if b.addrs[x] {
						known[j] = true
					}
				}
			}
		}
		for j := range k.m {
			if j != i && !known[j] {
				return "peer-unknown", fmt.Sprintf("node %d does not know node %d", i, j)
			}
		}
		have := map[string]*pb.DataConfig{}
		for _, c := range a.n.Dataset.DataConfigList() {
			have[c.GetName()] = c
		}
		var names []string
		for name := range k.best {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			want := k.best[name]
			got := have[name]
			if got == nil {
				return "dataset-missing", fmt.Sprintf("node %d does not have dataset %s", i, name)
			}
			if vk.CfgFromPB(got) != vk.CfgFromPB(want) {
				return "dataset-version", fmt.Sprintf("node %d has dataset %s with configuration %+v instead of %+v", i, name, vk.CfgFromPB(got), vk.CfgFromPB(want))
			}
			dt, err := a.n.Dataset.GetNoCreate(name)
			if err != nil {
				return "dataset-missing", fmt.Sprintf("node %d: %v", i, err)
			}
			if vk.CfgFromPB(dt.GetConfig()) != vk.CfgFromPB(want) {
				return "dataset-version", fmt.Sprintf("node %d uses dataset %s with configuration %+v instead of %+v", i, name, vk.CfgFromPB(dt.GetConfig()), vk.CfgFromPB(want))
			}
			for j, b := range k.m {
				if j == i {
					continue
				}
				found := false
				for id := range dt.Sources.Items() {
					if b.addrs[id] {
						found = true
					}
				}
				if !found {
					return "source-missing", fmt.Sprintf("node %d did not attach node %d as a source of %s", i, j, name)
				}
			}
		}
		for name := range have {
			if k.best[name] == nil {
				return "alien-dataset", fmt.Sprintf("node %d has dataset %q nobody created", i, name)
			}
		}
	}
	return "", ""
}

// safety: what must never happen at any time.
func (k *cluster) safety() *fail {
	for i, a := range k.m {
		if a.n == nil {
			continue
		}
		for name, it := range a.n.Dataset.DataList.Items() {
			dt, ok := it.Object.(*data.Data)
			if !ok {
				continue
			}
			for id := range dt.Sources.Items() {
				if a.addrs[id] {
					return &fail{"own-source", fmt.Sprintf("node %d attached itself (%s) as a source of %s", i, id, name)}
				}
			}
		}
	}
	return nil
}

func (k *cluster) search(i int, name string) (map[string]bool, error) {
	conn, err := grpc.Dial(port(k.m[i], 0), grpc.WithInsecure())
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cfg := &pb.SearchConfig{DataName: name, ScoreFuncName: "VectorDistance", Limit: 100, Timeout: uint64(8 * time.Second), HigherIsBetter: false}
	st, err := pb.NewVeriServiceClient(conn).SearchStream(ctx, &pb.SearchRequest{
		Datum: []*pb.Datum{{Key: &pb.DatumKey{Feature: []float32{1, 1}, Size1: 1, Dim1: 2}, Value: &pb.DatumValue{}}}, Config: cfg}, grpc.WaitForReady(true))
	if err != nil {
		return nil, err
	}
	out := map[string]bool{}
	for {
		x, err := st.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		out[string(x.GetDatum().GetValue().GetLabel())] = true
	}
}

func (k *cluster) run(c *vk.Ctx, mk func(*node.NodeConfig) *node.Node) *fail {
	p := k.plan
	start := func(i int) {
		np, m := p.Nodes[i], k.m[i]
		cfg := &node.NodeConfig{Port: uint32(m.port), Folder: "", AdvertisedIds: []string{}}
		if np.Adv&1 != 0 {
			cfg.AdvertisedIds = append(cfg.AdvertisedIds, port(m, 0))
		}
		if np.Adv&2 != 0 {
			cfg.AdvertisedIds = append(cfg.AdvertisedIds, port(m, 1))
		}
		for _, s := range np.Seeds {
			cfg.ServiceList = append(cfg.ServiceList, port(k.m[s], np.Form))
		}
		m.n = mk(cfg)
		m.f.VeriServiceServer = m.n
		m.f.up.Store(true)
	}
	const enough = lastEvent + 13
	kind, msg := "", ""
	for r := 0; r < enough; r++ {
		begin := time.Now()
		for i, np := range p.Nodes {
			if np.Start == r {
				start(i)
			}
			if np.Down != 0 && np.Down > np.Start {
				k.m[i].f.up.Store(k.m[i].n != nil && np.Down != r)
			}
		}
		for _, e := range p.Events {
			if max(e.Round, p.Nodes[e.Node].Start) == r {
				cfg := config(e.Name, e.Version)
				if b := k.best[cfg.Name]; b == nil || b.Version < cfg.Version {
					k.best[cfg.Name] = cfg
				}
				if _, err := k.m[e.Node].n.Dataset.GetOrCreateIfNotExists(config(e.Name, e.Version)); err != nil {
					return &fail{"create", fmt.Sprintf("creating %s at node %d: %v", cfg.Name, e.Node, err)}
				}
			}
		}
		// every node that is up joins and synchronises once, in an order of the plan
		var ops []int
		for i := range p.Nodes {
			ops = append(ops, 2*i, 2*i+1)
		}
		seed := p.Order[r%len(p.Order)]
		for i := len(ops) - 1; i > 0; i-- {
			seed = seed*1103515245 + 12345
			j := (seed >> 8 & 0xffff) % (i + 1)
			ops[i], ops[j] = ops[j], ops[i]
		}
		for _, o := range ops {
			m := k.m[o/2]
			if m.n == nil || !m.f.up.Load() {
				continue
			}
			if o%2 == 0 {
				m.n.JoinToPeers()
			} else {
				m.n.SyncWithPeers()
			}
		}
		if f := k.safety(); f != nil {
			return f
		}
		k.rounds = r + 1
		if r > lastEvent {
			if kind, msg = k.converged(); kind == "" {
				break
			}
		}
		// announcements are told apart by their time in seconds
		time.Sleep(1050*time.Millisecond - time.Since(begin))
	}
	if kind != "" {
		return &fail{kind, fmt.Sprintf("after %d rounds: %s", k.rounds, msg)}
	}
	// data inserted anywhere is found everywhere
	for name := range k.best {
		want := map[string]bool{}
		for i, m := range k.m {
			dt, err := m.n.Dataset.GetNoCreate(name)
			if err != nil {
				return &fail{"dataset-missing", err.Error()}
			}
			label := fmt.Sprintf("%s-%d", name, i)
			err = dt.Insert(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i), 1}, Size1: 1, Dim1: 2}, Value: &pb.DatumValue{Label: []byte(label)}}, nil)
			if err != nil {
				return &fail{"insert", err.Error()}
			}
			want[label] = true
		}
		for i := range k.m {
			var missing []string
			for try := 0; try < 4; try++ {
				missing = nil
				got, err := k.search(i, name)
				if err != nil {
					missing = append(missing, err.Error())
				}
				for l := range want {
					if !got[l] {
						missing = append(missing, l)
					}
				}
				if len(missing) == 0 {
					break
				}
				time.Sleep(time.Second)
			}
			if len(missing) != 0 {
				sort.Strings(missing)
				return &fail{"not-found", fmt.Sprintf("a search at node %d does not find %s", i, strings.Join(missing, ", "))}
			}
		}
		k.dataset++
	}
	return nil
}

func run(c *vk.Ctx, p Plan) {
	state.Ready, state.Drain = false, false
	c.Cleanup(func() { state.Ready, state.Drain = false, false })
	var mu sync.Mutex
	mk := func(cfg *node.NodeConfig) *node.Node {
		mu.Lock()
		defer mu.Unlock()
		cfg.Folder = c.Dir()
		return c.NewNode(cfg)
	}
	ks := make([]*cluster, len(p.Clusters))
	fails := make([]*fail, len(p.Clusters))
	var wg sync.WaitGroup
	for x, cp := range p.Clusters {
		k := &cluster{plan: cp, best: map[string]*pb.DataConfig{}}
		ks[x] = k
		for range cp.Nodes {
			m := &member{f: &front{}}
			lis, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			m.port = lis.Addr().(*net.TCPAddr).Port
			m.addrs = map[string]bool{port(m, 0): true, port(m, 1): true}
			m.g = grpc.NewServer(grpc.UnaryInterceptor(m.f.unary), grpc.StreamInterceptor(m.f.stream))
			pb.RegisterVeriServiceServer(m.g, m.f)
			go m.g.Serve(lis)
			c.Cleanup(m.g.Stop)
			k.m = append(k.m, m)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			fails[x] = k.run(c, mk)
		}()
	}
	wg.Wait()
	for x, f := range fails {
		if f != nil {
			c.Failf(f.kind, "cluster %d: %s", x, f.msg)
		}
	}
	for _, k := range ks {
		c.Label(fmt.Sprintf("rounds-%d", k.rounds))
		c.LabelIf(len(k.m) > 2, "more-than-two-nodes")
		c.NonTrivialIf(len(k.m) > 2 && k.dataset > 0)
	}
}

// Lasting: a node and one peer that keeps announcing itself, over hours of virtual time.
type Lasting struct {
	Steps []Step
	Names int
}

type Step struct {
	Gap     int   // seconds since the last synchronisation
	Late    int   // seconds between the announcement and the synchronisation
	Probe   []int // seconds after the synchronisation, the sources are looked at
	Version uint64
}

func genLasting(t *rapid.T) Lasting {
	p := Lasting{Names: rapid.IntRange(1, 3).Draw(t, "names")}
	every := rapid.SampledFrom([]int{60, 60, 60, 59, 61, 45, 30}).Draw(t, "every")
	for n := rapid.IntRange(2, 45).Draw(t, "steps"); n > 0; n-- {
		s := Step{Gap: every, Late: rapid.SampledFrom([]int{0, 0, 0, 1, 20}).Draw(t, "late"), Version: rapid.Uint64Range(0, 3).Draw(t, "version")}
		if rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
			s.Gap += rapid.IntRange(-3, 3).Draw(t, "jitter")
		}
		s.Probe = rapid.SliceOfN(rapid.IntRange(0, s.Gap-1), 0, 2).Draw(t, "probe")
		p.Steps = append(p.Steps, s)
	}
	return p
}

func runLasting(c *vk.Ctx, p Lasting) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"here:1"}, ServiceList: []string{"seed:1"}})
	high := uint64(0)
	look := func(i int, when string) {
		if len(n.PeerListItems()) != 1 {
			c.Failf("peer-lost", "step %d %s: %d peers known", i, when, len(n.PeerListItems()))
		}
		for k := 0; k < p.Names; k++ {
			dt, err := n.Dataset.GetNoCreate(config(k, 0).Name)
			if err != nil {
				c.Failf("dataset-lost", "step %d %s: %v", i, when, err)
			}
			if v := dt.GetDataInfo().Version; v != high {
				c.Failf("version", "step %d %s: version %d, want %d", i, when, v, high)
			}
			found := 0
			dt.RunOnRandomSources(5, func(s data.DataSource) error {
				if s.GetID() == "there:1" {
					found++
				}
				return nil
			})
			if found != 1 {
				c.Failf("source-lost", "step %d %s: dataset %d has its holder attached %d times although it announced itself all the time", i, when, k, found)
			}
		}
	}
	start := time.Now()
	synced := start
	for i, s := range p.Steps {
		time.Sleep(time.Until(synced.Add(time.Duration(s.Gap-s.Late) * time.Second)))
		high = max(high, s.Version)
		pr := &pb.Peer{AddressList: []string{"there:1"}, Timestamp: uint64(time.Now().Unix()), ServiceList: []string{"seed:1"}}
		for k := 0; k < p.Names; k++ {
			pr.DataList = append(pr.DataList, config(k, s.Version))
		}
		n.AddPeerElement(pr)
		if i > 0 && s.Late > 0 {
			time.Sleep(time.Duration(s.Late) * time.Second)
		}
		n.SyncWithPeers()
		synced = time.Now()
		look(i, "after the synchronisation")
		at := 0
		sort.Ints(s.Probe)
		for _, x := range s.Probe {
			time.Sleep(time.Duration(x-at) * time.Second)
			at = x
			look(i, fmt.Sprintf("%d seconds after the synchronisation", x))
		}
	}
	c.LabelIf(time.Since(start) > 10*time.Minute, "more-than-ten-minutes")
	c.NonTrivialIf(time.Since(start) > 10*time.Minute)
}

// Holders: any number of holders of a dataset announce themselves; each gets attached and asked.
type Holders struct {
	Count, Searches int
	Gaps            []int // seconds before each announcement
	Again           []int // these announce themselves a second time
}

func genHolders(t *rapid.T) Holders {
	p := Holders{Count: rapid.IntRange(1, 14).Draw(t, "count")}
	for i := 0; i < p.Count; i++ {
		p.Gaps = append(p.Gaps, rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "gap"))
	}
	p.Again = rapid.SliceOfN(rapid.IntRange(0, p.Count-1), 0, 4).Draw(t, "again")
	return p
}

func runHolders(c *vk.Ctx, p Holders) {
	dt := c.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	var mu sync.Mutex
	asked := map[int]int{}
	attach := func(i int) {
		if err := dt.AddSource(&vk.Peer{ID: fmt.Sprintf("there:%d", i), Info: func(int) *pb.DataInfo { return &pb.DataInfo{} }, OnSearch: func(d *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error {
			mu.Lock()
			asked[i]++
			mu.Unlock()
			out <- &pb.ScoredDatum{Datum: vk.D{F: []float32{1}, G: fmt.Sprint(i)}.PB(), Score: 1}
			return nil
		}}); err != nil {
			c.Failf("attach", "source %d: %v", i, err)
		}
	}
	for i, g := range p.Gaps {
		time.Sleep(time.Duration(g) * time.Second)
		attach(i)
	}
	for _, i := range p.Again {
		attach(i)
	}
	found := map[string]bool{}
	n := 0
	for ; n < 300 && len(found) < p.Count; n++ {
		res, err := dt.MultiAggregatedSearch([]*pb.Datum{vk.D{F: []float32{1}}.PB()}, vk.SearchCfg{Func: "VectorDistance", Limit: 100, Timeout: 1000}.PB(), nil)
		if err != nil {
			c.Failf("search", "%v", err)
		}
		if want := min(p.Count, 5); len(res) < want { // at least five sources are asked
			c.Failf("few-asked", "%d of %d holders answered, want at least %d", len(res), p.Count, want)
		}
		for _, r := range res {
			found[vk.KeyOf(r.Datum)] = true
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if len(found) < p.Count {
		c.Failf("never-asked", "%d of %d holders contributed to %d searches, asked %v", len(found), p.Count, n, asked)
	}
	c.LabelIf(p.Count > 6, "more-than-six-holders")
	c.NonTrivialIf(p.Count > 1)
}

// Seen: a node that joins is told the address it is seen under, whatever network it comes from.
type Seen struct {
	IP   []byte
	Port int
	None bool
}

func genSeen(t *rapid.T) Seen {
	p := Seen{Port: rapid.IntRange(1, 65535).Draw(t, "port"), None: rapid.IntRange(0, 19).Draw(t, "none") == 0}
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0:
		p.IP = []byte{127, 0, 0, byte(rapid.IntRange(1, 3).Draw(t, "b"))}
	case 1:
		p.IP = net.IPv6loopback
	case 2:
		p.IP = rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "v4")
	case 3:
		p.IP = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "v6")
	case 4:
		p.IP = net.ParseIP(rapid.SampledFrom([]string{"fd00::1", "2001:db8::1", "fe80::1:2:3:4", "10.0.0.1", "::ffff:10.1.2.3", "1::"}).Draw(t, "ip"))
	}
	return p
}

func runSeen(c *vk.Ctx, p Seen) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"here:1"}})
	ctx := context.Background()
	ip := net.IP(p.IP)
	if !p.None {
		ctx = grpcPeer.NewContext(ctx, &grpcPeer.Peer{Addr: &net.TCPAddr{IP: ip, Port: p.Port}})
	}
	from := &pb.Peer{AddressList: []string{"there:1"}, Timestamp: uint64(time.Now().Unix())}
	r, err := n.Join(ctx, &pb.JoinRequest{Peer: from})
	if err != nil {
		c.Failf("join", "%v: %v", ip, err)
	}
	if len(n.PeerListItems()) != 1 {
		c.Failf("joined", "%d peers are known after one joined from %v", len(n.PeerListItems()), ip)
	}
	got := r.GetAddress()
	switch {
	case p.None:
		if got != "" {
			c.Failf("address", "the address is not known, told %q", got)
		}
	case ip.IsLoopback():
		if got != "localhost" {
			c.Failf("address", "seen at %v, told %q instead of localhost", ip, got)
		}
	default: // with a port it must be an address of the same host
		host, port, err := net.SplitHostPort(got + ":1")
		if err != nil || port != "1" || !net.ParseIP(host).Equal(ip) {
			c.Failf("address", "seen at %v, told %q", ip, got)
		}
	}
	c.LabelIf(ip.To4() == nil, "ipv6")
	c.NonTrivialIf(!p.None && !ip.IsLoopback())
}

func TestProperty(t *testing.T) {
	vk.Main(t,
		vk.Sub("gossip", 16, 200, false, gen, run).Confirm(3).Retries(3),
		vk.Sub("lasting", 300, 6000, true, genLasting, runLasting),
		vk.Sub("holders", 200, 5000, true, genHolders, runHolders),
		vk.Sub("seen", 300, 5000, true, genSeen, runSeen),
	)
}

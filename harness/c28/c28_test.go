package c28

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/state"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind  string
	D     vk.D         `json:"d,omitempty"`
	TTL   uint64       `json:"ttl,omitempty"`
	Count uint64       `json:"count,omitempty"`
	NoCfg bool         `json:"noCfg,omitempty"`
	S     vk.SearchCfg `json:"s,omitempty"`
	On    bool         `json:"on,omitempty"`
}

type Plan struct {
	Cfg      vk.Cfg
	Peer     string // none, willing, refusing
	Fill     int
	LabelLen int
	Ops      []Op
}

func odd() *rapid.Generator[float32] {
	return rapid.OneOf(vk.Coord(), rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), 1e15, -1e15, math.SmallestNonzeroFloat32, 1e-39, 16777217}))
}

func genD(t *rapid.T) vk.D {
	u := rapid.SampledFrom([]uint32{0, 0, 1, 7, 1 << 31, math.MaxUint32})
	d := vk.D{G: rapid.SampledFrom([]string{"", "g", "h", "{\"a\":1}", "\x00\xff"}).Draw(t, "g"), S1: u.Draw(t, "s1"), S2: u.Draw(t, "s2"), D1: u.Draw(t, "d1"), D2: u.Draw(t, "d2"),
		L: rapid.SampledFrom([]string{"", "l", "{\"a\":{\"b\":1}}", "日本", "x\x00y"}).Draw(t, "l"), V: rapid.SampledFrom([]uint64{0, 1, math.MaxUint64}).Draw(t, "v")}
	d.F = rapid.SliceOfN(vk.Coord(), 3, 3).Draw(t, "f")
	return d
}

func gen(t *rapid.T) Plan {
	p := Plan{Cfg: vk.GenCfg(t, "via"), Peer: rapid.SampledFrom([]string{"none", "none", "willing", "refusing"}).Draw(t, "peer"), LabelLen: rapid.SampledFrom([]int{0, 0, 0, 2000, 60000}).Draw(t, "labelLen"),
		Fill: rapid.OneOf(rapid.IntRange(0, 10), rapid.SampledFrom([]int{0, 99, 100, 101, 250})).Draw(t, "fill")}
	if p.LabelLen > 2000 && p.Fill > 40 {
		p.Fill = 40 // answers are limited to 4 MB per message, not per stream, but keep it quick
	}
	p.Cfg.TargetN = rapid.SampledFrom([]uint64{0, 1, 5, 1000, math.MaxUint64}).Draw(t, "targetN")
	for n := rapid.IntRange(1, 14).Draw(t, "n"); n > 0; n-- {
		o := Op{Kind: rapid.SampledFrom([]string{"insert", "insert", "insert", "insert", "search", "search", "search", "info", "info", "process", "unknown", "drain", "badinsert"}).Draw(t, "op")}
		switch o.Kind {
		case "insert":
			o.D = genD(t)
			if rapid.IntRange(0, 4).Draw(t, "odd") == 0 {
				o.D.F = rapid.SliceOfN(odd(), 0, 40).Draw(t, "oddF")
				o.D.G = "odd"
			}
			o.TTL = rapid.SampledFrom([]uint64{0, 0, 60, 3600, 1 << 40, 1 << 63, math.MaxUint64}).Draw(t, "ttl")
			o.Count = rapid.SampledFrom([]uint64{0, 0, 1, 2, math.MaxUint64}).Draw(t, "count")
			o.NoCfg = rapid.IntRange(0, 4).Draw(t, "nocfg") == 0
		case "search", "unknown":
			o.D = genD(t)
			o.S = vk.SearchCfg{Func: rapid.SampledFrom(append([]string{"", "AnnoyVectorDistance"}, vk.ScoreNames...)).Draw(t, "func"), Higher: rapid.Bool().Draw(t, "higher"), Limit: rapid.SampledFrom([]uint32{0, 1, 3, 10, 1000}).Draw(t, "limit"),
				ResultLimit: rapid.SampledFrom([]uint64{0, 0, 2}).Draw(t, "rl"), GroupLimit: rapid.SampledFrom([]uint32{0, 0, 0, 1, 2}).Draw(t, "gl"), Timeout: 5000}
			if rapid.IntRange(0, 3).Draw(t, "filter") == 0 {
				o.S.Filters = []string{"a.b"}
			}
			if rapid.IntRange(0, 5).Draw(t, "gfilter") == 0 {
				o.S.GroupFilters = []string{"a"}
			}
		case "drain":
			o.On = rapid.Bool().Draw(t, "on")
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

type remote struct {
	n    *node.Node
	addr string
	g    *grpc.Server
	cc   *util.ConnectionCache
}

func start(c *vk.Ctx) *remote {
	state.Ready, state.Drain = false, false
	c.Cleanup(func() { state.Ready, state.Drain = false, false })
	r := &remote{cc: util.NewConnectionCache()}
	r.n = c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	r.addr = lis.Addr().String()
	r.g = grpc.NewServer()
	pb.RegisterVeriServiceServer(r.g, r.n)
	go r.g.Serve(lis)
	c.Cleanup(func() {
		r.g.Stop()
		r.cc.Provider.Close()
	})
	return r
}

func (r *remote) client(name string) data.DataSource {
	return node.GetDataSourceClient(&pb.Peer{AddressList: []string{r.addr}}, name, r.addr, r.cc)
}

func search(s data.DataSource, d *pb.Datum, cfg *pb.SearchConfig) ([]*pb.ScoredDatum, error) {
	out := make(chan *pb.ScoredDatum)
	var wg sync.WaitGroup
	wg.Add(1)
	var err error
	go func() {
		err = s.StreamSearch(d, out, &wg, cfg)
		close(out)
	}()
	var l []*pb.ScoredDatum
	for x := range out {
		l = append(l, x)
	}
	wg.Wait()
	return l, err
}

func entries(dt *data.Data) map[string]int64 {
	m := map[string]int64{}
	dt.LoopDBMap(func(e *data.DBMapEntry) error {
		m[vk.KeyOf(e.Datum)] = e.ExprireAt
		return nil
	})
	return m
}

func sameExpiry(a, b int64) bool {
	if a == 0 || b == 0 {
		return a == b
	}
	d := a - b
	return d >= -3 && d <= 3
}

func list(l []*pb.ScoredDatum) string {
	s := ""
	for _, x := range l {
		s += fmt.Sprintf("(%s %v) ", vk.KeyOf(x.GetDatum()), x.GetScore())
	}
	return s
}

// sameResults: same scores in the same order, and the same datums except among ties.
func sameResults(c *vk.Ctx, what string, got, want []*pb.ScoredDatum) {
	if len(got) != len(want) {
		c.Failf("search", "%s: %d results through the connection, %d directly: %s / %s", what, len(got), len(want), list(got), list(want))
	}
	type group struct{ a, b []string }
	var gs []group
	for i := range got {
		if math.Float64bits(got[i].Score) != math.Float64bits(want[i].Score) && !vk.Near(got[i].Score, want[i].Score) {
			c.Failf("search", "%s: result %d has score %v, directly %v", what, i, got[i].Score, want[i].Score)
		}
		if i == 0 || !vk.Near(want[i].Score, want[i-1].Score) {
			gs = append(gs, group{})
		}
		g := &gs[len(gs)-1]
		g.a = append(g.a, vk.KeyOf(got[i].Datum)+"="+vk.ValOf(got[i].Datum))
		g.b = append(g.b, vk.KeyOf(want[i].Datum)+"="+vk.ValOf(want[i].Datum))
	}
	for i, g := range gs {
		if i == len(gs)-1 {
			break // ties at the end may be cut differently
		}
		sort.Strings(g.a)
		sort.Strings(g.b)
		if strings.Join(g.a, " ") != strings.Join(g.b, " ") {
			c.Failf("search", "%s: %v through the connection, %v directly", what, g.a, g.b)
		}
	}
}

func newPeer(kind string) *vk.Peer {
	pr := &vk.Peer{ID: "p"}
	pr.Info = func(int) *pb.DataInfo { return &pb.DataInfo{N: 0, Avg: []float32{1000}} }
	if kind == "refusing" {
		pr.OnInsert = func(int, *pb.Datum, *pb.InsertConfig) error {
			return errors.New("Number of elements is over the target")
		}
	}
	return pr
}

func recs(p *vk.Peer) string {
	if p == nil {
		return ""
	}
	s := ""
	for _, r := range p.Attempts() {
		s += fmt.Sprintf("%s=%s ttl=%d count=%d; ", r.Key, r.Val, r.TTL, r.Count)
	}
	return s
}

func run(c *vk.Ctx, p Plan) {
	r := start(c)
	ctx := context.Background()
	mk := func(name string) (*data.Data, *vk.Peer) {
		cfg := p.Cfg
		cfg.Name = name
		if _, err := r.n.CreateDataIfNotExists(ctx, cfg.PB()); err != nil {
			c.Failf("create", "%v", err)
		}
		dt, err := r.n.Dataset.GetNoCreate(name)
		if err != nil {
			c.Failf("create", "%v", err)
		}
		time.Sleep(2 * time.Millisecond) // the first processing pass
		if p.Peer == "none" {
			return dt, nil
		}
		pr := newPeer(p.Peer)
		dt.AddSource(pr)
		return dt, pr
	}
	via, viaPeer := mk("via")
	direct, directPeer := mk("direct")
	cl := r.client("via")
	inserts, searches, errs := 0, 0, 0
	drained := false
	insert := func(d vk.D, cfg *pb.InsertConfig) {
		var c1, c2 *pb.InsertConfig
		if cfg != nil {
			c1, c2 = proto.Clone(cfg).(*pb.InsertConfig), proto.Clone(cfg).(*pb.InsertConfig)
		}
		inserts++
		e1 := cl.Insert(d.PB(), c1)
		if drained {
			errs++
			if e1 == nil || !strings.Contains(e1.Error(), "Node is in drain mode") {
				c.Failf("insert", "the peer is draining, but inserting through the connection gives %v", e1)
			}
			return
		}
		e2 := direct.Insert(d.PB(), c2)
		if (e1 == nil) != (e2 == nil) {
			c.Failf("insert", "inserting %s %v through the connection gives %v, directly %v", d.Key(), cfg, e1, e2)
		}
		if e2 != nil {
			errs++
			if !strings.Contains(e1.Error(), e2.Error()) {
				c.Failf("insert", "the refusal %q arrives as %q", e2, e1)
			}
		}
	}
	for i := 0; i < p.Fill; i++ {
		insert(vk.D{F: []float32{float32(i), float32(i % 5), 1}, G: fmt.Sprint("g", i%3), L: fmt.Sprintf("{\"a\":{\"b\":%d}}%s", i, strings.Repeat("x", p.LabelLen))}, &pb.InsertConfig{Count: 1})
	}
	info := func() {
		var got *pb.DataInfo
		for i := 0; i < 3; i++ {
			before := via.GetDataInfo()
			got = cl.GetDataInfo()
			if after := via.GetDataInfo(); proto.Equal(before, got) || proto.Equal(after, got) {
				return
			}
		}
		c.Failf("info", "information through the connection: %v, directly: %v", got, via.GetDataInfo())
	}
	for _, op := range p.Ops {
		switch op.Kind {
		case "insert":
			cfg := &pb.InsertConfig{TTL: op.TTL, Count: op.Count}
			if op.NoCfg {
				cfg = nil
			}
			insert(op.D, cfg)
		case "badinsert":
			if err := cl.Insert(&pb.Datum{Key: op.D.PB().Key}, nil); err == nil {
				c.Failf("insert", "a datum without value was accepted")
			}
			errs++
		case "search":
			s := op.S
			s.Data = "via"
			if strings.HasPrefix(s.Func, "Annoy") && s.Limit > 10 {
				s.Limit = 10
			}
			want, err := via.MultiAggregatedSearch([]*pb.Datum{op.D.PB()}, s.PB(), nil)
			if err != nil {
				c.Failf("search", "directly: %v", err)
			}
			cfg := s.PB()
			got, err := search(cl, op.D.PB(), cfg)
			if err != nil {
				c.Failf("search", "through the connection: %v", err)
			}
			if !strings.HasPrefix(s.Func, "Annoy") {
				sameResults(c, s.Func, got, want)
			} else if len(got) != len(want) && s.GroupLimit == 0 && len(s.Filters)+len(s.GroupFilters) == 0 {
				c.Failf("search", "%s: %d results through the connection, %d directly", s.Func, len(got), len(want))
			}
			searches++
		case "info":
			info()
		case "process":
			if p.Peer != "none" {
				break // passes choose at random what they pass on to peers
			}
			via.Process(true)
			direct.Process(true)
			time.Sleep(time.Millisecond)
		case "unknown":
			s := op.S
			s.Data = "unknown"
			if got, err := search(r.client("unknown"), op.D.PB(), s.PB()); err == nil {
				c.Failf("refusal", "searching a dataset the peer does not have succeeds with %d results", len(got))
			}
			errs++
		case "drain":
			state.Drain = op.On
			drained = op.On
		}
	}
	if diff := vk.DiffMaps(c.Contents(via), c.Contents(direct)); diff != "" {
		c.Failf("stored", "stored through the connection vs. directly: %s", diff)
	}
	a, b := entries(via), entries(direct)
	for k := range a {
		if !sameExpiry(a[k], b[k]) {
			c.Failf("ttl", "%s expires at %d, inserted directly at %d", k, a[k], b[k])
		}
	}
	if recs(viaPeer) != recs(directPeer) {
		c.Failf("replication", "replicas after inserts through the connection: %s; directly: %s", recs(viaPeer), recs(directPeer))
	}
	if cl.GetID() == "" || cl.GetID() != r.client("via").GetID() {
		c.Failf("id", "the identity of the peer is %q", cl.GetID())
	}
	// the peer goes away
	r.g.Stop()
	q := vk.D{F: []float32{1, 2, 3}}
	if err := cl.Insert(q.PB(), &pb.InsertConfig{}); err == nil {
		c.Failf("dead", "inserting succeeds although the peer is gone")
	}
	if got, err := search(cl, q.PB(), vk.SearchCfg{Data: "via", Limit: 10, Timeout: 1000}.PB()); err == nil {
		c.Failf("dead", "a search succeeds with %d results although the peer is gone", len(got))
	}
	if i := cl.GetDataInfo(); i != nil {
		c.Failf("dead", "information %v although the peer is gone", i)
	}
	c.LabelIf(p.Fill > 90, "large")
	c.LabelIf(errs > 0, "refusals")
	c.LabelIf(searches > 0, "searched")
	c.LabelIf(p.Peer != "none", "replicating")
	c.NonTrivialIf(inserts > 1 && (searches > 0 || errs > 0))
}

// Par: many users of one connection cache at once.
type Par struct {
	Users, Each int
	Searches    bool
}

func genPar(t *rapid.T) Par {
	return Par{Users: rapid.SampledFrom([]int{2, 10, 21, 30, 60}).Draw(t, "users"), Each: rapid.IntRange(1, 15).Draw(t, "each"), Searches: rapid.Bool().Draw(t, "searches")}
}

func runPar(c *vk.Ctx, p Par) {
	r := start(c)
	r.n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "via", NoTarget: true})
	dt, _ := r.n.Dataset.GetNoCreate("via")
	cl := r.client("via")
	var wg sync.WaitGroup
	errc := make(chan error, p.Users*p.Each*3)
	want := map[string]string{}
	for u := 0; u < p.Users; u++ {
		for i := 0; i < p.Each; i++ {
			d := vk.D{F: []float32{float32(u), float32(i)}, L: fmt.Sprint(u, i)}
			want[d.Key()] = d.Val()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < p.Each; i++ {
				d := vk.D{F: []float32{float32(u), float32(i)}, L: fmt.Sprint(u, i)}
				if err := cl.Insert(d.PB(), &pb.InsertConfig{Count: 1}); err != nil {
					errc <- fmt.Errorf("insert: %v", err)
				}
				if cl.GetDataInfo() == nil {
					errc <- errors.New("no information")
				}
				if p.Searches {
					got, err := search(cl, d.PB(), vk.SearchCfg{Data: "via", Limit: 1, Timeout: 8000, Func: "VectorDistance"}.PB())
					if err != nil {
						errc <- fmt.Errorf("search: %v", err)
					} else if len(got) != 1 || vk.KeyOf(got[0].Datum) != d.Key() {
						errc <- fmt.Errorf("search for %s: %s", d.Key(), list(got))
					}
				}
			}
		}()
	}
	wg.Wait()
	close(errc)
	for err := range errc {
		c.Failf("parallel", "%d users: %v", p.Users, err)
	}
	if diff := vk.DiffMaps(c.Contents(dt), want); diff != "" {
		c.Failf("stored", "%s", diff)
	}
	c.LabelIf(p.Users > 20, "more-than-20-users")
	c.NonTrivialIf(p.Users > 1)
}

// Slow: the peer takes seconds to answer; that makes no difference to what is answered.
type Slow struct {
	Ms       int // before each answer
	Between  int // before each result of a search
	N        int
	Deadline uint64 // timeout of the search in ms
}

func genSlow(t *rapid.T) Slow {
	return Slow{Ms: rapid.SampledFrom([]int{1200, 2300, 3500, 5500}).Draw(t, "ms"), Between: rapid.SampledFrom([]int{0, 50, 400}).Draw(t, "between"), N: rapid.IntRange(1, 5).Draw(t, "n"), Deadline: rapid.SampledFrom([]uint64{9000, 20000}).Draw(t, "deadline")}
}

type slowly struct {
	pb.VeriServiceServer
	p Slow
}

func (s *slowly) wait() { time.Sleep(time.Duration(s.p.Ms) * time.Millisecond) }

func (s *slowly) Insert(ctx context.Context, r *pb.InsertionRequest) (*pb.InsertionResponse, error) {
	res, err := s.VeriServiceServer.Insert(ctx, r)
	s.wait()
	return res, err
}

func (s *slowly) GetDataInfo(ctx context.Context, r *pb.GetDataRequest) (*pb.DataInfo, error) {
	s.wait()
	return s.VeriServiceServer.GetDataInfo(ctx, r)
}

type slowStream struct {
	pb.VeriService_SearchStreamServer
	between int
}

func (s *slowStream) Send(d *pb.ScoredDatum) error {
	time.Sleep(time.Duration(s.between) * time.Millisecond)
	return s.VeriService_SearchStreamServer.Send(d)
}

func (s *slowly) SearchStream(r *pb.SearchRequest, st pb.VeriService_SearchStreamServer) error {
	s.wait()
	return s.VeriServiceServer.SearchStream(r, &slowStream{st, s.p.Between})
}

func runSlow(c *vk.Ctx, p Slow) {
	cc := util.NewConnectionCache()
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	g := grpc.NewServer()
	pb.RegisterVeriServiceServer(g, &slowly{n, p})
	go g.Serve(lis)
	c.Cleanup(func() {
		g.Stop()
		cc.Provider.Close()
	})
	n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "via", NoTarget: true, Version: 3})
	dt, err := n.Dataset.GetNoCreate("via")
	if err != nil {
		c.Failf("create", "%v", err)
	}
	addr := lis.Addr().String()
	cl := node.GetDataSourceClient(&pb.Peer{AddressList: []string{addr}}, "via", addr, cc)
	for i := 0; i < p.N; i++ {
		dt.Insert(vk.D{F: []float32{float32(i)}, L: fmt.Sprint(i)}.PB(), nil)
	}
	// searching through a local dataset that has the peer as a source, all at the same time
	local := c.NewData(&pb.DataConfig{Name: "via", NoTarget: true})
	local.AddSource(cl)
	extra := vk.D{F: []float32{1000}, L: "extra"}
	var wg sync.WaitGroup
	var insErr, searchErr error
	var info *pb.DataInfo
	var direct, through []*pb.ScoredDatum
	begin := time.Now()
	for _, f := range []func(){
		func() { insErr = cl.Insert(extra.PB(), &pb.InsertConfig{Count: 1}) },
		func() { info = cl.GetDataInfo() },
		func() {
			direct, searchErr = search(cl, vk.D{F: []float32{0}}.PB(), vk.SearchCfg{Data: "via", Limit: uint32(p.N), Timeout: p.Deadline, Func: "VectorDistance"}.PB())
		},
		func() {
			through, _ = local.MultiAggregatedSearch([]*pb.Datum{vk.D{F: []float32{0}}.PB()}, vk.SearchCfg{Data: "via", Limit: uint32(p.N), Timeout: p.Deadline, Func: "VectorDistance"}.PB(), nil)
		},
	} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
	if time.Since(begin) > 8*time.Second {
		return // the machine was too busy to tell
	}
	if insErr != nil {
		c.Failf("slow-insert", "the peer stored it and said so after %d ms, reported is %v", p.Ms, insErr)
	}
	if info.GetVersion() != 3 {
		c.Failf("slow-info", "the peer answered after %d ms, reported is %v", p.Ms, info)
	}
	if searchErr != nil {
		c.Failf("slow-search", "the peer started to answer after %d ms, reported is %v", p.Ms, searchErr)
	}
	for what, got := range map[string][]*pb.ScoredDatum{"direct": direct, "as a source": through} {
		for i := 0; i < p.N; i++ {
			if len(got) != p.N || vk.KeyOf(got[i].Datum) != (vk.D{F: []float32{float32(i)}}).Key() {
				c.Failf("slow-search", "%s: the peer started to answer after %d ms (timeout %d ms), got %s", what, p.Ms, p.Deadline, list(got))
			}
		}
	}
	c.NonTrivial()
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("slow", 12, 60, false, genSlow, runSlow).Confirm(2), vk.Sub("differential", 500, 15000, false, gen, run).Confirm(3), vk.Sub("parallel", 60, 1500, false, genPar, runPar).Retries(5))
}

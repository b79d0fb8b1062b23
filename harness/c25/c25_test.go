package c25

import (
	"context"
	"encoding/base64"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"vharness/vk"
)

// Op is a request as bytes on the wire, or a pass.
type Op struct {
	Kind string
	Text string `json:"text,omitempty"` // for the reader
	Msg  string `json:"msg,omitempty"`  // base64
	Secs int    `json:"secs,omitempty"`
}

type Plan struct {
	Advertised []string
	Ops        []Op
}

var rpcs = []string{"Insert", "Insert", "Insert", "Insert", "SearchStream", "SearchStream", "SearchStream", "Search", "Join", "AddPeer", "DataStream", "CreateDataIfNotExists", "GetDataInfo", "Ping"}

func newMsg(kind string) proto.Message {
	switch kind {
	case "Insert":
		return &pb.InsertionRequest{}
	case "SearchStream", "Search":
		return &pb.SearchRequest{}
	case "Join":
		return &pb.JoinRequest{}
	case "AddPeer":
		return &pb.AddPeerRequest{}
	case "DataStream", "GetDataInfo":
		return &pb.GetDataRequest{}
	case "CreateDataIfNotExists":
		return &pb.DataConfig{}
	case "Ping":
		return &pb.PingRequest{}
	}
	return nil
}

func opt(t *rapid.T, what string) bool { return rapid.IntRange(0, 4).Draw(t, what) > 0 }

func u64(t *rapid.T, what string) uint64 {
	return rapid.SampledFrom([]uint64{0, 1, 2, 10, 1000, 60000, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64, 9223372036, 9223372037, 18446744073, 18446744074}).Draw(t, what)
}

func u32(t *rapid.T, what string) uint32 {
	return rapid.SampledFrom([]uint32{0, 1, 2, 10, 1000, 1 << 20, 1 << 31, 1<<31 - 1, math.MaxUint32}).Draw(t, what)
}

func f32(t *rapid.T) float32 {
	return rapid.OneOf(vk.Coord(), rapid.SampledFrom([]float32{0, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e30})).Draw(t, "x")
}

func f64(t *rapid.T, what string) float64 {
	return rapid.SampledFrom([]float64{0, 0.4, 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), 1e308, 5e-324}).Draw(t, what)
}

func name(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "a", "a", "a", "b", "..", "x/y", "unknown\x00", "日本"}).Draw(t, "name")
}

func datum(t *rapid.T) *pb.Datum {
	d := &pb.Datum{}
	if opt(t, "key") {
		d.Key = &pb.DatumKey{GroupLabel: []byte(rapid.SampledFrom([]string{"", "g", "{", "{\"a\":1}"}).Draw(t, "group")), Size1: u32(t, "size1"), Dim1: u32(t, "dim1")}
		n := rapid.SampledFrom([]int{0, 1, 2, 2, 2, 2, 3, 40}).Draw(t, "dim")
		special := rapid.IntRange(0, 3).Draw(t, "special") == 0
		for i := 0; i < n; i++ {
			if special {
				d.Key.Feature = append(d.Key.Feature, f32(t))
			} else {
				d.Key.Feature = append(d.Key.Feature, vk.Coord().Draw(t, "x"))
			}
		}
	}
	if opt(t, "value") {
		d.Value = &pb.DatumValue{Version: u64(t, "version"), Label: []byte(rapid.SampledFrom([]string{"", "l", "{\"a\":[1,{\"b\":2}]}", "\xff\xfe", "{{{"}).Draw(t, "label"))}
	}
	return d
}

func filters(t *rapid.T) []string {
	return rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "a.#(b==2)", "#", "..", "@reverse", "a|b", "\\", "*", "#(", "@this|@flatten", "!"}), 0, 2).Draw(t, "filters")
}

func dataConfig(t *rapid.T) *pb.DataConfig {
	return &pb.DataConfig{Name: name(t), Version: u64(t, "version"), TargetN: u64(t, "targetN"), TargetUtilization: f64(t, "util"), NoTarget: rapid.Bool().Draw(t, "notarget"),
		ReplicationOnInsert: u32(t, "repl"), EnforceReplicationOnInsert: rapid.Bool().Draw(t, "enforce"), Retention: u64(t, "retention")}
}

func peerMsg(t *rapid.T) *pb.Peer {
	if !opt(t, "peer") {
		return nil
	}
	p := &pb.Peer{AddressList: rapid.SliceOfN(rapid.SampledFrom([]string{"", "n:1", ":", "x", ","}), 0, 3).Draw(t, "addresses"), Version: "v", Timestamp: rapid.OneOf(rapid.Just(uint64(946684800)), rapid.Uint64Range(946684800, 946685800), rapid.Just(u64(t, "ts"))).Draw(t, "timestamp"),
		ServiceList: rapid.SliceOfN(rapid.SampledFrom([]string{"", "svc"}), 0, 2).Draw(t, "services")}
	for k := rapid.IntRange(0, 2).Draw(t, "datalist"); k > 0; k-- {
		p.DataList = append(p.DataList, dataConfig(t))
	}
	return p
}

func message(t *rapid.T, kind string) proto.Message {
	switch kind {
	case "Insert":
		m := &pb.InsertionRequest{DataName: name(t)}
		if opt(t, "config") {
			m.Config = &pb.InsertConfig{TTL: u64(t, "ttl"), Count: u64(t, "count")}
		}
		if opt(t, "datum") {
			m.Datum = datum(t)
		}
		return m
	case "SearchStream", "Search":
		m := &pb.SearchRequest{}
		if opt(t, "config") {
			m.Config = &pb.SearchConfig{ScoreFuncName: rapid.SampledFrom(append([]string{"", "nonsense", "Annoy", "AnnoyX"}, append(vk.ScoreNames, vk.AnnoyNames...)...)).Draw(t, "func"), HigherIsBetter: rapid.Bool().Draw(t, "higher"),
				Timestamp: u64(t, "timestamp"), Timeout: u64(t, "timeout"), Limit: u32(t, "limit"), CacheDuration: u64(t, "cache"), DataName: name(t), GroupLimit: rapid.SampledFrom([]uint32{0, 0, 1, 5, math.MaxUint32}).Draw(t, "grouplimit"),
				GroupScoreFuncName: "x", Filters: filters(t), GroupFilters: filters(t), ResultLimit: u64(t, "resultlimit"), Uuid: rapid.SampledFrom([]string{"", "", "u"}).Draw(t, "uuid")}
			if rapid.Bool().Draw(t, "sane") {
				m.Config.Timeout, m.Config.DataName, m.Config.Filters, m.Config.GroupFilters = 5000, "a", nil, nil
			}
		}
		for k := rapid.IntRange(0, 3).Draw(t, "datums"); k > 0; k-- {
			m.Datum = append(m.Datum, datum(t))
		}
		if rapid.Bool().Draw(t, "context") {
			m.Context = &pb.SearchContext{Prioritize: rapid.Bool().Draw(t, "prioritize")}
			for k := rapid.IntRange(0, 2).Draw(t, "context datums"); k > 0; k-- {
				m.Context.Datum = append(m.Context.Datum, datum(t))
			}
		}
		return m
	case "Join":
		return &pb.JoinRequest{Peer: peerMsg(t)}
	case "AddPeer":
		return &pb.AddPeerRequest{Peer: peerMsg(t)}
	case "DataStream", "GetDataInfo":
		return &pb.GetDataRequest{Name: name(t)}
	case "CreateDataIfNotExists":
		return dataConfig(t)
	}
	return &pb.PingRequest{Timestamp: u64(t, "ts")}
}

func genPlan(mutate bool) func(t *rapid.T) Plan {
	return func(t *rapid.T) Plan {
		p := Plan{Advertised: rapid.SliceOfN(rapid.SampledFrom([]string{"n:1", "", "x"}), 0, 2).Draw(t, "advertised")}
		for n := rapid.IntRange(1, 25).Draw(t, "n"); n > 0; n-- {
			switch rapid.IntRange(0, 6).Draw(t, "what") {
			case 0:
				p.Ops = append(p.Ops, Op{Kind: "wait", Secs: rapid.SampledFrom([]int{1, 30, 75, 400}).Draw(t, "secs")})
				continue
			case 1:
				p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom([]string{"process", "maintain", "save", "info", "checkpeers"}).Draw(t, "pass")})
				continue
			}
			kind := rapid.SampledFrom(rpcs).Draw(t, "rpc")
			m := message(t, kind)
			b, err := proto.Marshal(m)
			if err != nil {
				continue
			}
			if mutate && len(b) > 0 {
				b = append([]byte(nil), b...)
				for k := rapid.IntRange(1, 3).Draw(t, "mutations"); k > 0 && len(b) > 0; k-- {
					i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
					switch rapid.IntRange(0, 3).Draw(t, "how") {
					case 0:
						b[i] = rapid.Byte().Draw(t, "byte")
					case 1:
						b = append(b[:i], b[i+1:]...)
					case 2:
						b = append(b[:i], append([]byte{rapid.Byte().Draw(t, "byte")}, b[i:]...)...)
					case 3:
						b = append(b, b[i:]...)
					}
				}
				if proto.Unmarshal(b, newMsg(kind)) != nil {
					continue // rejected by the protocol layer
				}
			}
			p.Ops = append(p.Ops, Op{Kind: kind, Text: clip(fmt.Sprint(m)), Msg: base64.StdEncoding.EncodeToString(b)})
		}
		return p
	}
}

func clip(s string) string {
	s = strings.ToValidUTF8(s, "?")
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

func decode(op Op) proto.Message {
	m := newMsg(op.Kind)
	if m == nil {
		return nil
	}
	b, err := base64.StdEncoding.DecodeString(op.Msg)
	if err != nil || proto.Unmarshal(b, m) != nil {
		return nil
	}
	return m
}

// call executes a request; it returns false for passes.
func call(n *node.Node, op Op, note func(resp proto.Message, err error)) bool {
	ctx := context.Background()
	m := decode(op)
	if m == nil {
		return newMsg(op.Kind) != nil
	}
	switch r := m.(type) {
	case *pb.InsertionRequest:
		resp, err := n.Insert(ctx, r)
		note(resp, err)
	case *pb.SearchRequest:
		if op.Kind == "Search" {
			resp, err := n.Search(ctx, r)
			note(resp, err)
			break
		}
		st := &vk.Stream[*pb.ScoredDatum]{}
		err := n.SearchStream(r, st)
		note(nil, err)
		for _, x := range st.Out {
			note(x, nil)
		}
	case *pb.JoinRequest:
		resp, err := n.Join(ctx, r)
		note(resp, err)
	case *pb.AddPeerRequest:
		resp, err := n.AddPeer(ctx, r)
		note(resp, err)
	case *pb.GetDataRequest:
		if op.Kind == "DataStream" {
			st := &vk.Stream[*pb.Datum]{}
			err := n.DataStream(r, st)
			note(nil, err)
			for _, x := range st.Out {
				note(x, nil)
			}
			break
		}
		resp, err := n.GetDataInfo(ctx, r)
		note(resp, err)
	case *pb.DataConfig:
		resp, err := n.CreateDataIfNotExists(ctx, r)
		note(resp, err)
	case *pb.PingRequest:
		resp, err := n.Ping(ctx, r)
		note(resp, err)
	}
	return true
}

func pass(n *node.Node, op Op) {
	switch op.Kind {
	case "process":
		for _, name := range n.Dataset.List() {
			if dt, err := n.Dataset.GetNoCreate(name); err == nil {
				dt.Process(true)
			}
		}
	case "maintain":
		n.Dataset.ReloadRuns()
	case "save":
		n.Dataset.SaveIndex()
	case "info":
		n.Info()
	case "checkpeers":
		for _, q := range n.PeerListItems() {
			n.CheckPeer(q)
		}
		n.GetNodeInfo()
	}
}

func run(c *vk.Ctx, p Plan) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: append([]string(nil), p.Advertised...)})
	ctx := context.Background()
	canary := map[string]string{}
	n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "canary", NoTarget: true})
	put := func(i int) {
		d := vk.D{F: []float32{float32(i), 1}, L: fmt.Sprint(i)}
		if _, err := n.Insert(ctx, &pb.InsertionRequest{DataName: "canary", Datum: d.PB(), Config: &pb.InsertConfig{}}); err != nil {
			c.Failf("canary-insert", "%v", err)
		}
		canary[d.Key()] = d.Val()
	}
	for i := 0; i < 5; i++ {
		put(i)
	}
	c.Settle()
	answered, rejected, special := 0, 0, 0
	note := func(resp proto.Message, err error) {
		if err != nil {
			rejected++
			return
		}
		answered++
		if _, err := proto.Marshal(resp); err != nil {
			c.Failf("unsendable", "answer cannot be sent: %v", err)
		}
	}
	for _, op := range p.Ops {
		if call(n, op, note) {
			special++
			continue
		}
		if op.Kind == "wait" {
			c.Sleep(time.Duration(op.Secs) * time.Second)
		}
		pass(n, op)
		c.Settle()
	}
	c.Settle()
	put(100)
	c.Sleep(150 * time.Second) // background processing takes notice of the new datum
	dt, err := n.Dataset.GetNoCreate("canary")
	if err != nil {
		c.Failf("canary", "%v", err)
	}
	if diff := vk.DiffMaps(c.Contents(dt), canary); diff != "" {
		c.Failf("canary", "%s", diff)
	}
	info, err := n.GetDataInfo(ctx, &pb.GetDataRequest{Name: "canary"})
	if err != nil || info.N != uint64(len(canary)) {
		c.Failf("background", "150 s after an insert the dataset counts %v of %d, error %v", info.GetN(), len(canary), err)
	}
	st := &vk.Stream[*pb.ScoredDatum]{}
	if err := n.SearchStream(&pb.SearchRequest{Datum: []*pb.Datum{vk.D{F: []float32{0, 1}}.PB()}, Config: &pb.SearchConfig{DataName: "canary", Limit: 100, Timeout: 5000}}, st); err != nil || len(st.Out) != len(canary) {
		c.Failf("canary", "a search finds %d of %d, error %v", len(st.Out), len(canary), err)
	}
	c.LabelIf(rejected > 0, "rejected")
	c.LabelIf(answered > 0, "answered")
	c.NonTrivialIf(special > 0)
}

// Conc: the same kinds of requests from several clients at once, with the node's passes running.
type Conc struct {
	Clients []Plan
	Repeat  int
}

func genConc(t *rapid.T) Conc {
	p := Conc{Repeat: rapid.IntRange(1, 20).Draw(t, "repeat")}
	g := genPlan(false)
	for k := rapid.IntRange(2, 5).Draw(t, "clients"); k > 0; k-- {
		cl := g(t)
		for i, op := range cl.Ops {
			// A dataset closed while a peer holding it cannot be reached waits for that peer, so announce none here.
			var pm *pb.Peer
			switch m := decode(op).(type) {
			case *pb.JoinRequest:
				pm = m.Peer
			case *pb.AddPeerRequest:
				pm = m.Peer
			}
			if pm != nil {
				pm.DataList = nil
				b, _ := proto.Marshal(&pb.JoinRequest{Peer: pm}) // both requests have the peer in field 1
				cl.Ops[i].Msg, cl.Ops[i].Text = base64.StdEncoding.EncodeToString(b), clip(fmt.Sprint(pm))
			}
		}
		p.Clients = append(p.Clients, cl)
	}
	return p
}

func runConc(c *vk.Ctx, p Conc) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "canary", NoTarget: true})
	canary := map[string]string{}
	for i := 0; i < 5; i++ {
		d := vk.D{F: []float32{float32(i), 1}, L: fmt.Sprint(i)}
		n.Insert(context.Background(), &pb.InsertionRequest{DataName: "canary", Datum: d.PB()})
		canary[d.Key()] = d.Val()
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var pwg sync.WaitGroup
	for _, k := range []string{"maintain", "info", "save"} {
		pwg.Add(1)
		go func() {
			defer pwg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(3 * time.Millisecond): // each listing starts a save in the background
					pass(n, Op{Kind: k})
				}
			}
		}()
	}
	for _, cl := range p.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < p.Repeat; r++ {
				for _, op := range cl.Ops {
					if !call(n, op, func(proto.Message, error) {}) && op.Kind != "process" {
						pass(n, op)
					}
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	pwg.Wait()
	dt, err := n.Dataset.GetNoCreate("canary")
	if err != nil {
		c.Failf("canary", "%v", err)
	}
	if diff := vk.DiffMaps(c.Contents(dt), canary); diff != "" {
		c.Failf("canary", "%s", diff)
	}
	c.NonTrivial()
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("calls", 2500, 80000, true, genPlan(false), run), vk.Sub("wire", 1500, 60000, true, genPlan(true), run),
		vk.Sub("concurrent", 60, 2000, false, genConc, runConc).Retries(20).SlowLog())
}

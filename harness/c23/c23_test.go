package c23

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"pgregory.net/rapid"

	"vharness/vk"
)

type Op struct {
	Kind    string // join addpeer wait check sync service static
	Addrs   []string
	Age     int64 // seconds before now, negative: future
	Tag     string
	Secs    int
	Service string
}

type Plan struct {
	Known, Advertised []string
	Services          []string
	Datasets          []vk.Cfg
	Ops               []Op
}

var addrs = []string{"a:1", "b:1", "c:2", "10.0.0.1:5", "localhost:1", "n:1", "n:2"}

// variant returns addresses that are easily mistaken for l
func variant(t *rapid.T, l []string) []string {
	out := append([]string(nil), l...)
	k := rapid.IntRange(0, len(l)-1).Draw(t, "varied")
	switch rapid.IntRange(0, 6).Draw(t, "variant") {
	case 0:
		out[k] = strings.ToUpper(out[k])
	case 1:
		out[k] += rapid.SampledFrom([]string{"0", "1", " "}).Draw(t, "suffix")
	case 2:
		out[k] = rapid.SampledFrom([]string{"a", " ", "1"}).Draw(t, "prefix") + out[k]
	case 3:
		out = append(out[:k], out[k+1:]...)
	case 4:
		out = append(out, "z:9")
	case 5: // the same characters in a row, split differently
		sort.Strings(out)
		if len(out) > 1 {
			out[0] += out[1][:1]
			out[1] = out[1][1:]
		}
	case 6:
		sort.Strings(out)
		out = []string{strings.Join(out, "")}
	}
	return out
}

func addrList(t *rapid.T, what string, min int) []string {
	return rapid.SliceOfNDistinct(rapid.SampledFrom(addrs), min, 3, func(s string) string { return s }).Draw(t, what)
}

func gen(t *rapid.T) Plan {
	p := Plan{Known: rapid.SliceOfN(rapid.SampledFrom([]string{"n:1", "n:2", "localhost:1"}), 0, 3).Draw(t, "known"),
		Advertised: rapid.SliceOfN(rapid.SampledFrom([]string{"n:1", "n:2", "a:1"}), 0, 3).Draw(t, "advertised"),
		Services:   rapid.SliceOfN(rapid.SampledFrom([]string{"svc1", "svc2"}), 0, 2).Draw(t, "services")}
	for k := rapid.IntRange(0, 3).Draw(t, "datasets"); k > 0; k-- {
		p.Datasets = append(p.Datasets, vk.GenCfg(t, fmt.Sprint("d", k)))
	}
	pools := [][]string{addrList(t, "peer", 1), addrList(t, "peer", 1), addrList(t, "peer", 0)}
	for i := range pools {
		if j := rapid.IntRange(0, i).Draw(t, "of"); j < i && len(pools[j]) > 0 && rapid.Bool().Draw(t, "vary") {
			pools[i] = uniq(variant(t, pools[j]))
		}
	}
	self := uniq(append(append([]string{}, p.Known...), p.Advertised...))
	for n := rapid.IntRange(1, 30).Draw(t, "n"); n > 0; n-- {
		l := rapid.SampledFrom(pools).Draw(t, "pool")
		if rapid.IntRange(0, 4).Draw(t, "self") == 0 {
			l = self
			if len(self) > 0 && rapid.IntRange(0, 3).Draw(t, "almost") == 0 {
				l = uniq(variant(t, self))
			}
		}
		l = rapid.Permutation(l).Draw(t, "order")
		p.Ops = append(p.Ops, Op{Kind: rapid.SampledFrom([]string{"join", "join", "addpeer", "addpeer", "addpeer", "wait", "check", "sync", "service"}).Draw(t, "kind"),
			Addrs: l, Age: rapid.SampledFrom([]int64{0, 0, 1, 2, 10, 60, 150, 298, 299, 300, 301, 400, 5000, -1, -50, -61, -301, -7200, -1 << 31, math.MinInt64}).Draw(t, "age"),
			Tag: fmt.Sprint("v", n), Secs: rapid.SampledFrom([]int{1, 2, 30, 100, 150, 290, 299, 300, 320}).Draw(t, "secs"), Service: rapid.SampledFrom([]string{"svc2", "svc3", "svc4"}).Draw(t, "service")})
	}
	return p
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func id(l []string) string {
	s := append([]string(nil), l...)
	sort.Strings(s)
	return strings.Join(s, "\x01")
}

type rec struct {
	ts  uint64
	tag string
	at  time.Time // stored
}

func run(c *vk.Ctx, p Plan) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: append([]string(nil), p.Advertised...)})
	n.KnownIds = append([]string(nil), p.Known...)
	for _, s := range p.Services {
		n.AddStaticService(s)
	}
	cfgs := map[string]vk.Cfg{}
	for _, f := range p.Datasets {
		n.Dataset.CreateIfNotExists(f.PB())
		cfgs[f.Name] = f
	}
	c.Settle()
	selfAddrs := uniq(append(append([]string{}, p.Known...), p.Advertised...))
	services := map[string]time.Time{} // learned ones and when last
	model := map[string]rec{}
	newer, older, selfs, staleRejected, removed := 0, 0, 0, 0, 0
	now := func() uint64 { return uint64(time.Now().Unix()) }
	observe := func(what string) {
		got := map[string]*pb.Peer{}
		for _, q := range n.PeerListItems() {
			k := id(q.GetAddressList())
			if got[k] != nil {
				c.Failf("listed-twice", "%s: peer %q is listed twice", what, k)
			}
			got[k] = q
		}
		for k, q := range got {
			if k == id(selfAddrs) {
				c.Failf("self-stored", "%s: the node itself is in the table", what)
			}
			m, ok := model[k]
			if !ok {
				c.Failf("alien", "%s: unexpected entry %q (ts %d, now %d)", what, k, q.Timestamp, now())
			}
			if q.Timestamp != m.ts || q.Version != m.tag {
				c.Failf("not-newest", "%s: entry %q is %s (ts %d), want %s (ts %d)", what, k, q.Version, q.Timestamp, m.tag, m.ts)
			}
		}
		for k, m := range model {
			if got[k] == nil {
				if time.Since(m.at) < 5*time.Minute {
					c.Failf("lost", "%s: entry %q stored %v ago is missing", what, k, time.Since(m.at))
				}
				delete(model, k)
			}
		}
		info := n.GetNodeInfo()
		if g := info.GetAddressList(); len(g) != len(selfAddrs) || id(g) != id(selfAddrs) {
			c.Failf("own-addresses", "%s: announces %q, want %q", what, g, selfAddrs)
		}
		if info.Timestamp != now() {
			c.Failf("own-timestamp", "%s: announces time %d at %d", what, info.Timestamp, now())
		}
		list := info.GetServiceList()
		if len(uniq(list)) != len(list) {
			c.Failf("own-services", "%s: announces %q", what, list)
		}
		for _, s := range p.Services {
			if !strings.Contains(" "+strings.Join(list, " ")+" ", " "+s+" ") {
				c.Failf("own-services", "%s: announces %q without %s", what, list, s)
			}
		}
		for s, at := range services {
			if time.Since(at) < 5*time.Minute && !strings.Contains(" "+strings.Join(list, " ")+" ", " "+s+" ") {
				c.Failf("own-services", "%s: announces %q without learned %s", what, list, s)
			}
		}
		for _, s := range list {
			if _, ok := services[s]; !ok && !strings.Contains(" "+strings.Join(p.Services, " ")+" ", " "+s+" ") {
				c.Failf("own-services", "%s: announces unknown %s", what, s)
			}
		}
		if len(info.DataList) != len(cfgs) {
			c.Failf("own-datasets", "%s: announces %d datasets, want %d", what, len(info.DataList), len(cfgs))
		}
		for _, f := range info.DataList {
			if cfgs[f.GetName()] != vk.CfgFromPB(f) {
				c.Failf("own-datasets", "%s: announces %v, want %+v", what, f, cfgs[f.GetName()])
			}
		}
	}
	fresh := func(ts uint64) bool { return ts > now()-300 }
	for i, op := range p.Ops {
		ts := now() - uint64(op.Age)
		if op.Age == math.MinInt64 {
			ts = 0
		}
		peer := &pb.Peer{AddressList: append([]string(nil), op.Addrs...), Timestamp: ts, Version: op.Tag}
		k := id(op.Addrs)
		what := fmt.Sprintf("op %d (%s %q age %d)", i, op.Kind, k, op.Age)
		switch op.Kind {
		case "join", "addpeer":
			if m, ok := model[k]; k == id(selfAddrs) {
				selfs++
			} else if !fresh(ts) {
				staleRejected++
			} else if ok && m.ts >= ts {
				older++
			} else {
				if ok {
					newer++
				}
				model[k] = rec{ts, op.Tag, time.Now()}
			}
			var err error
			if op.Kind == "join" {
				_, err = n.Join(context.Background(), &pb.JoinRequest{Peer: peer})
			} else {
				_, err = n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: peer})
			}
			if err != nil {
				c.Failf("error", "%s: %v", what, err)
			}
		case "wait":
			c.Sleep(time.Duration(op.Secs) * time.Second)
		case "check":
			for _, q := range n.PeerListItems() {
				k := id(q.GetAddressList())
				want := fresh(q.GetTimestamp())
				if got := n.CheckPeer(q); got != want {
					c.Failf("check", "%s: CheckPeer(%q, ts %d at %d) = %v", what, k, q.GetTimestamp(), now(), got)
				}
				if !want {
					removed++
					delete(model, k)
				}
			}
		case "sync":
			all := true
			for _, m := range model {
				if fresh(m.ts) {
					all = false
				}
			}
			if all { // does not contact stale peers
				n.SyncWithPeers()
				model = map[string]rec{}
			}
		case "service":
			n.AddService(op.Service)
			if at, ok := services[op.Service]; !ok || time.Since(at) > 5*time.Minute {
				services[op.Service] = time.Now()
			}
		}
		observe(what)
	}
	c.LabelIf(newer > 0, "newer")
	c.LabelIf(older > 0, "older-ignored")
	c.LabelIf(selfs > 0, "self")
	c.LabelIf(staleRejected > 0, "stale-rejected")
	c.LabelIf(removed > 0, "removed")
	c.NonTrivialIf(newer+older > 0)
}

// Race: announcements of one peer arrive at the same time.
type Race struct {
	Ages   [][]int64
	Rounds int
}

func genRace(t *rapid.T) Race {
	p := Race{Rounds: 80}
	for g := rapid.IntRange(2, 8).Draw(t, "goroutines"); g > 0; g-- {
		p.Ages = append(p.Ages, rapid.SliceOfN(rapid.Int64Range(0, 200), 1, 12).Draw(t, "ages"))
	}
	return p
}

func runRace(c *vk.Ctx, p Race) {
	n := c.NewNode(&node.NodeConfig{Port: 1, Folder: c.Dir(), AdvertisedIds: []string{"n:1"}})
	for r := 0; r < p.Rounds; r++ {
		base := uint64(time.Now().Unix())
		best := int64(1000)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, ages := range p.Ages {
			for _, a := range ages {
				best = min(best, a)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, a := range ages {
					n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{fmt.Sprint("p:", r), "q:1"}, Timestamp: base - uint64(a)}})
				}
			}()
		}
		close(start)
		wg.Wait()
		found := false
		for _, q := range n.PeerList.Items() {
			peer := q.Object.(*pb.Peer)
			if id(peer.AddressList) == id([]string{fmt.Sprint("p:", r), "q:1"}) {
				found = true
				if peer.Timestamp != base-uint64(best) {
					c.Failf("not-newest", "round %d: the entry is %d s old, one %d s old arrived", r, base-peer.Timestamp, best)
				}
			}
		}
		if !found {
			c.Failf("lost", "round %d: no entry", r)
		}
	}
	c.NonTrivial()
}

// Feedback: what the nodes it joined call the node is one of its addresses.
type Feedback struct {
	Port       uint32
	Advertised []string
	Answers    []string // address in the answer to each join request; "!" is a failure
}

func genFeedback(t *rapid.T) Feedback {
	p := Feedback{Port: rapid.SampledFrom([]uint32{1, 80, 10000, 65535}).Draw(t, "port")}
	p.Advertised = rapid.SliceOfN(rapid.SampledFrom([]string{"h:1", "localhost:1", "10.0.0.1:80", "h:10000"}), 0, 3).Draw(t, "advertised")
	p.Answers = rapid.SliceOfN(rapid.SampledFrom([]string{"", "", "!", "localhost", "localhost", "10.0.0.1", "h", "[::1]", "10.0.0.2"}), 1, 8).Draw(t, "answers")
	return p
}

type answering struct {
	pb.UnimplementedVeriServiceServer
	mu     sync.Mutex
	answer string
	got    *pb.Peer
}

func (a *answering) Join(ctx context.Context, r *pb.JoinRequest) (*pb.JoinResponse, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.got = r.GetPeer()
	if a.answer == "!" {
		return nil, errors.New("scripted failure")
	}
	return &pb.JoinResponse{Address: a.answer}, nil
}

func runFeedback(c *vk.Ctx, p Feedback) {
	a := &answering{}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	g := grpc.NewServer()
	pb.RegisterVeriServiceServer(g, a)
	go g.Serve(lis)
	c.Cleanup(g.Stop)
	n := c.NewNode(&node.NodeConfig{Port: p.Port, Folder: c.Dir(), AdvertisedIds: append([]string{}, p.Advertised...)})
	want := map[string]bool{}
	for _, x := range p.Advertised {
		want[x] = true
	}
	learnt := 0
	for i, ans := range p.Answers {
		a.mu.Lock()
		a.answer = ans
		a.mu.Unlock()
		var err error
		for try := 0; try < 3; try++ {
			if err = n.SendJoinRequest(lis.Addr().String()); err == nil || ans == "!" {
				break
			}
		}
		if (err != nil) != (ans == "!") {
			c.Failf("join", "join %d, answered with %q: %v", i, ans, err)
		}
		a.mu.Lock()
		said := strings.Join(sorted(a.got.GetAddressList()), " ")
		a.mu.Unlock()
		var l []string
		for x := range want {
			l = append(l, x)
		}
		if w := strings.Join(sorted(l), " "); said != w {
			c.Failf("announced", "join %d: announced addresses %q instead of %q", i, said, w)
		}
		if ans != "" && ans != "!" {
			want[fmt.Sprintf("%s:%d", ans, p.Port)] = true
			learnt++
		}
		l = nil
		for x := range want {
			l = append(l, x)
		}
		if got, w := strings.Join(sorted(n.GetNodeInfo().GetAddressList()), " "), strings.Join(sorted(l), " "); got != w {
			c.Failf("own-addresses", "after join %d (answers %q): addresses %q instead of %q", i, p.Answers[:i+1], got, w)
		}
	}
	c.NonTrivialIf(learnt > 0 && learnt < len(p.Answers))
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

func TestProperty(t *testing.T) {
	vk.Main(t, vk.Sub("history", 2000, 60000, true, gen, run), vk.Sub("race", 30, 600, false, genRace, runRace).Retries(20).SlowLog(),
		vk.Sub("feedback", 60, 2000, false, genFeedback, runFeedback).Confirm(2))
}

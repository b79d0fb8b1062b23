prop = 'C24'
pkg = 'node'
edits = [('node/nodeservice.go', '\t\terr := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)', '\t\texpiration := time.Duration(config.GetTimeout()) * time.Millisecond // a query does not live longer\n\t\tif expiration <= 0 {\n\t\t\texpiration = cache.DefaultExpiration\n\t\t}\n\t\terr := n.QueryUUIDCache.Add(uid, true, expiration)')]
needs = 'the same query identifier arriving again after the timeout of the query, but within minutes'
breaks = 'the node answers it a second time'
demo = r'''package node_test

import (
	"testing"
	"time"
	node "github.com/bgokden/veri/node"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)


type demoStream struct {
	grpc.ServerStream
	n int
}

func (s *demoStream) Send(*pb.ScoredDatum) error { s.n++; return nil }

func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"x:1"}})
	d, _ := n.Dataset.Get("a")
	d.Insert(data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, nil, 0), nil)
	for i := 0; i < 3; i++ {
		c := data.DefaultSearchConfig()
		c.DataName, c.Uuid, c.Timeout = "a", "u", 500
		s := &demoStream{}
		if err := n.SearchStream(&pb.SearchRequest{Config: c, Datum: []*pb.Datum{data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, nil, 0)}}, s); err != nil {
			t.Fatal(err)
		}
		if want := map[bool]int{true: 1}[i == 0]; s.n != want {
			t.Fatalf("request %v: %v results", i, s.n)
		}
		time.Sleep(700 * time.Millisecond)
	}
}
'''

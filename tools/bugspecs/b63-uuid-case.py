prop = 'C24'
pkg = 'node'
edits = [('node/nodeservice.go', '\t\terr := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)\n', '\t\terr := n.QueryUUIDCache.Add(strings.ToLower(uid), true, cache.DefaultExpiration)\n')]
needs = 'two queries the ids of which differ in case only'
breaks = 'the second is not answered'
demo = r'''package node_test

import (
	"testing"
	"context"
	"google.golang.org/grpc"
	node "github.com/bgokden/veri/node"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


type demoStream struct {
	grpc.ServerStream
	n int
}

func (s *demoStream) Send(*pb.ScoredDatum) error { s.n++; return nil }
func (s *demoStream) Context() context.Context   { return context.Background() }

func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir()})
	d := data.NewDatum([]float32{1}, 1, 0, 1, 0, []byte("g"), []byte("x"), 0)
	if _, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: "a", Datum: d}); err != nil {
		t.Fatal(err)
	}
	for _, id := range []string{"query-a", "query-A"} {
		c := data.DefaultSearchConfig()
		c.DataName = "a"
		c.Uuid = id
		s := &demoStream{}
		if err := n.SearchStream(&pb.SearchRequest{Datum: []*pb.Datum{d}, Config: c}, s); err != nil || s.n != 1 {
			t.Fatal(id, err, s.n)
		}
	}
}
'''

prop = 'C36'
pkg = 'node'
edits = [('node/nodeservice.go', 'n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)', 'n.QueryUUIDCache.Add(uid, true, cache.NoExpiration)')]
needs = 'a node that other nodes forward searches to for a long time'
breaks = 'the identifier of every search is kept for good'
demo = r'''package node_test

import (
	"context"
	"testing"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

type demoStream struct{ grpc.ServerStream }

func (s *demoStream) Send(*pb.ScoredDatum) error { return nil }
func (s *demoStream) Context() context.Context   { return context.Background() }

func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 40123, Folder: t.TempDir(), AdvertisedIds: []string{"demo:1"}})
	n.Dataset.Get("d")
	n.SearchStream(&pb.SearchRequest{Config: &pb.SearchConfig{DataName: "d", Uuid: "u", Limit: 1, Timeout: 100}}, &demoStream{})
	for _, item := range n.QueryUUIDCache.Items() {
		if item.Expiration <= 0 {
			t.Fatal("kept for good")
		}
	}
}
'''

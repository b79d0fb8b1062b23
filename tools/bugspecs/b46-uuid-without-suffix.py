prop = 'C24'
pkg = 'node'
edits = [('node/nodeservice.go', '\t\terr := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)\n', '\t\tbase := uid\n\t\tif len(strings.Split(uid, "-")) > 5 { // the parts of a query belong together\n\t\t\tbase = uid[:strings.LastIndex(uid, "-")]\n\t\t}\n\t\terr := n.QueryUUIDCache.Add(base, true, cache.DefaultExpiration)\n')]
needs = 'a search for several query datums at a node with peers'
breaks = 'peers answer only the first of the queries'
demo = r'''package node_test

import (
	"testing"
	"context"
	node "github.com/bgokden/veri/node"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


type demoStream struct {
	pb.VeriService_SearchStreamServer
	n int
}

func (s *demoStream) Send(*pb.ScoredDatum) error { s.n++; return nil }
func (s *demoStream) Context() context.Context   { return context.Background() }

func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"x:1"}})
	d, _ := n.Dataset.Get("a")
	d.Insert(data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, []byte("l"), 0), nil)
	for _, uid := range []string{"2b1e4dd2-5ac2-4fd3-a2f3-ed4a5ee2f5d1-0", "2b1e4dd2-5ac2-4fd3-a2f3-ed4a5ee2f5d1-1"} {
		c := data.DefaultSearchConfig()
		c.DataName, c.Uuid = "a", uid
		s := &demoStream{}
		if err := n.SearchStream(&pb.SearchRequest{Config: c, Datum: []*pb.Datum{data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, nil, 0)}}, s); err != nil || s.n != 1 {
			t.Fatal(uid, err, s.n)
		}
	}
}
'''

prop = 'C28'
pkg = 'node'
edits = [('node/datasourceclient.go', '\t\t// log.Printf("Received From:', '\t\tif len(protoScoredDatum.GetDatum().GetKey().GetFeature()) != len(datum.GetKey().GetFeature()) {\n\t\t\tcontinue\n\t\t}\n\t\t// log.Printf("Received From:')]
needs = 'data of another dimension than the query'
breaks = 'a search through a peer leaves it out'
demo = r'''package node_test

import (
	"testing"
	"context"
	"net"
	"google.golang.org/grpc"
	"sync"
	node "github.com/bgokden/veri/node"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/util"
)


func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir()})
	d := data.NewDatum([]float32{1, 2}, 2, 0, 1, 0, []byte("g"), []byte("x"), 0)
	n.Insert(context.Background(), &pb.InsertionRequest{DataName: "a", Datum: d})
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := grpc.NewServer()
	pb.RegisterVeriServiceServer(s, n)
	go s.Serve(l)
	defer s.Stop()
	c := node.GetDataSourceClient(nil, "a", l.Addr().String(), util.NewConnectionCache())
	out := make(chan *pb.ScoredDatum, 10)
	var wg sync.WaitGroup
	wg.Add(1)
	cfg := data.DefaultSearchConfig()
	cfg.DataName = "a"
	c.StreamSearch(data.NewDatum([]float32{1}, 1, 0, 1, 0, []byte("g"), []byte("x"), 0), out, &wg, cfg)
	if len(out) != 1 {
		t.Fatal(len(out))
	}
}
'''

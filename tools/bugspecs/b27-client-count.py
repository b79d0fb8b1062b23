prop = 'C28'
pkg = 'node'
edits = [('node/datasourceclient.go', '\t\tConfig:   config,\n\t\tDatum:    datum,\n', '\t\tConfig:   &pb.InsertConfig{TTL: config.GetTTL()},\n\t\tDatum:    datum,\n')]
needs = 'a forwarded insert over a peer connection'
breaks = 'the marker is lost, so the receiver replicates the datum again'
demo = r'''package node_test

import (
	"testing"
	"fmt"
	"net"
	"context"
	node "github.com/bgokden/veri/node"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/util"
	"google.golang.org/grpc"
)


type demoServer struct {
	pb.VeriServiceServer
	got *pb.InsertConfig
}

func (s *demoServer) Insert(_ context.Context, r *pb.InsertionRequest) (*pb.InsertionResponse, error) {
	s.got = r.GetConfig()
	return &pb.InsertionResponse{}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := grpc.NewServer()
	s := &demoServer{}
	pb.RegisterVeriServiceServer(g, s)
	go g.Serve(l)
	defer g.Stop()
	c := node.GetDataSourceClient(nil, "a", l.Addr().String(), util.NewConnectionCache())
	if err := c.Insert(data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, nil, 0), &pb.InsertConfig{TTL: 7, Count: 1}); err != nil {
		t.Fatal(err)
	}
	if s.got.GetTTL() != 7 || s.got.GetCount() != 1 {
		t.Fatal(fmt.Sprint(s.got))
	}
}
'''

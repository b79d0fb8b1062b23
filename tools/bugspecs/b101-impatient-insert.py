prop = 'C28'
pkg = 'node'
edits = [('node/datasourceclient.go', 'InsertConfig) error {\n\tclientCtx, cancel := context.WithTimeout(context.Background(), 10*time.Second)', 'InsertConfig) error {\n\tclientCtx, cancel := context.WithTimeout(context.Background(), 1*time.Second)')]
needs = 'a peer that needs more than a second to store a datum'
breaks = 'the insert is reported as failed although the peer stored it'
demo = r'''package node_test

import (
	"context"
	"net"
	"testing"
	"time"

	node "github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

type demoServer struct{ pb.UnimplementedVeriServiceServer }

func (s *demoServer) Insert(ctx context.Context, in *pb.InsertionRequest) (*pb.InsertionResponse, error) {
	time.Sleep(2500 * time.Millisecond)
	return &pb.InsertionResponse{}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := grpc.NewServer()
	pb.RegisterVeriServiceServer(g, &demoServer{})
	go g.Serve(l)
	defer g.Stop()
	a := l.Addr().String()
	c := node.GetDataSourceClient(&pb.Peer{AddressList: []string{a}}, "d", a, util.NewConnectionCache())
	if err := c.Insert(&pb.Datum{Key: &pb.DatumKey{}, Value: &pb.DatumValue{}}, &pb.InsertConfig{Count: 1}); err != nil {
		t.Fatal(err)
	}
}
'''

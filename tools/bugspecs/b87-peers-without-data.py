prop = 'C29'
pkg = 'node'
edits = [('node/node.go', '\t\t\tpeerOfPeer := itemOfPeer.Object.(*pb.Peer)\n', '\t\t\tpeerOfPeer := itemOfPeer.Object.(*pb.Peer)\n\t\t\tif len(peerOfPeer.DataList) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n')]
needs = 'a node without datasets that some nodes know only from others'
breaks = 'it is not passed on, so that not every node gets to know it'
demo = r'''package node_test

import (
	"testing"
	"context"
	"net"
	"sync"
	"time"
	"google.golang.org/grpc"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
)

type demoServer struct {
	pb.VeriServiceServer
	mu  sync.Mutex
	got map[string]bool
}

func (s *demoServer) AddPeer(ctx context.Context, in *pb.AddPeerRequest) (*pb.AddPeerResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, a := range in.GetPeer().GetAddressList() {
		s.got[a] = true
	}
	return &pb.AddPeerResponse{}, nil
}

func (s *demoServer) Join(ctx context.Context, in *pb.JoinRequest) (*pb.JoinResponse, error) {
	return &pb.JoinResponse{}, nil
}

func (s *demoServer) Ping(ctx context.Context, in *pb.PingRequest) (*pb.PingResponse, error) {
	return &pb.PingResponse{}, nil
}

func (s *demoServer) GetDataInfo(ctx context.Context, in *pb.GetDataRequest) (*pb.DataInfo, error) {
	return &pb.DataInfo{}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	srv := &demoServer{got: map[string]bool{}}
	g := grpc.NewServer()
	pb.RegisterVeriServiceServer(g, srv)
	go g.Serve(l)
	defer g.Stop()
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"n:1"}})
	now := uint64(time.Now().Unix())
	n.AddPeerElement(&pb.Peer{AddressList: []string{l.Addr().String()}, Timestamp: now, DataList: []*pb.DataConfig{{Name: "a"}}})
	n.AddPeerElement(&pb.Peer{AddressList: []string{"127.0.0.1:1"}, Timestamp: now})
	for i := 0; i < 5; i++ {
		n.SyncWithPeers()
		srv.mu.Lock()
		ok := srv.got["127.0.0.1:1"]
		srv.mu.Unlock()
		if ok {
			return
		}
	}
	t.Fatal("not passed on")
}
'''

prop = 'C32'
pkg = 'server'
edits = [('server/veriserviceserver.go', '\t\tif !strings.Contains(address, ":") {\n', '\t\tif !strings.Contains(broadcast, ":") {\n')]
needs = 'broadcast addresses with and without a port'
breaks = 'the ones without a port are announced without one'
demo = r'''package veriserviceserver_test

import (
	"testing"
	"context"
	"net"
	"sort"
	"strings"
	"google.golang.org/grpc"
	"time"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	veriserviceserver "github.com/bgokden/veri/server"
)


type demoNode struct {
	*node.Node
	got chan []string
}

func (d *demoNode) Join(ctx context.Context, r *pb.JoinRequest) (*pb.JoinResponse, error) {
	select {
	case d.got <- r.GetPeer().GetAddressList():
	default:
	}
	return &pb.JoinResponse{}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	d := &demoNode{Node: node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir()}), got: make(chan []string, 1)}
	s := grpc.NewServer()
	pb.RegisterVeriServiceServer(s, d)
	go s.Serve(l)
	defer s.Stop()
	go veriserviceserver.RunServer(map[string]interface{}{"services": l.Addr().String(), "port": 19871, "broadcast": "hosta,hostb:77", "directory": t.TempDir()})
	select {
	case a := <-d.got:
		sort.Strings(a)
		if strings.Join(a, " ") != "hosta:19871 hostb:77" {
			t.Fatal(a)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("no join")
	}
}
'''

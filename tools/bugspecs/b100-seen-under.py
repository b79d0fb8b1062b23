prop = 'C29'
pkg = 'node'
edits = [('node/nodeservice.go', 'index := strings.LastIndex(p.Addr.String(), ":")', 'index := strings.Index(p.Addr.String(), ":")')]
needs = 'a node that joins over IPv6'
breaks = 'it is not told the address it is reachable under'
demo = r'''package node_test

import (
	"context"
	"net"
	"testing"
	"time"

	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc/peer"
)

func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"n:1"}})
	ctx := peer.NewContext(context.Background(), &peer.Peer{Addr: &net.TCPAddr{IP: net.ParseIP("fd00::7"), Port: 55}})
	r, err := n.Join(ctx, &pb.JoinRequest{Peer: &pb.Peer{AddressList: []string{"m:1"}, Timestamp: uint64(time.Now().Unix())}})
	if err != nil || r.GetAddress() != "[fd00::7]" {
		t.Fatal(r, err)
	}
}
'''

prop = 'C23'
pkg = 'node'
edits = [('node/node.go', '\tsort.Strings(list)\n\treturn strings.Join(list[:], ",")', '\tsorted := append([]string{}, list...) // do not change the list of the caller\n\tsort.Strings(sorted)\n\treturn strings.Join(list[:], ",")')]
needs = 'announcements of one peer that list its addresses in different orders'
breaks = 'the peer is in the table twice, and old information is kept'
demo = r'''package node_test

import (
	"testing"
	"context"
	"time"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"x:1"}})
	now := uint64(time.Now().Unix())
	n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{"a:1", "b:1"}, Timestamp: now - 5}})
	n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{"b:1", "a:1"}, Timestamp: now}})
	if l := n.PeerListItems(); len(l) != 1 || l[0].Timestamp != now {
		t.Fatal(l)
	}
}
'''

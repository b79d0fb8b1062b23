prop = 'C23'
pkg = 'node'
edits = [('node/node.go', '\tid0 := GetIdOfPeer(n.GetNodeInfo())\n\tid1 := GetIdOfPeer(peer)\n\treturn id0 == id1\n', '\treturn checkSimilar(n.GetNodeInfo().GetAddressList(), peer.GetAddressList())\n')]
needs = 'a peer that shares one address (of a load balancer, say) with the node'
breaks = 'its announcements are ignored'
demo = r'''package node_test

import (
	"testing"
	"time"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"lb:1", "x:1"}})
	n.AddPeerElement(&pb.Peer{AddressList: []string{"lb:1", "y:1"}, Timestamp: uint64(time.Now().Unix())})
	if len(n.PeerListItems()) != 1 {
		t.Fatal(n.PeerListItems())
	}
}
'''

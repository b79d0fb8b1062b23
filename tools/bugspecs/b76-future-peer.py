prop = 'C23'
pkg = 'node'
edits = [('node/node.go', '\treturn timestamp+300 > getCurrentTime()\n', '\tnow := getCurrentTime()\n\treturn timestamp+300 > now && timestamp < now+60\n')]
needs = 'an announcement of a peer the clock of which is ahead'
breaks = 'it is dropped'
demo = r'''package node_test

import (
	"testing"
	"time"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"x:1"}})
	n.AddPeerElement(&pb.Peer{AddressList: []string{"y:1"}, Timestamp: uint64(time.Now().Unix()) + 120})
	if len(n.PeerListItems()) != 1 {
		t.Fatal(n.PeerListItems())
	}
}
'''

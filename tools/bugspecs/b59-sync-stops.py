prop = 'C29'
pkg = 'node'
edits = [('node/node.go', '\t\tif idOfPeer == "" {\n\t\t\tcontinue\n\t\t}\n', '\t\tif idOfPeer == "" {\n\t\t\tbreak\n\t\t}\n')]
needs = 'a peer all of whose addresses the node has as well'
breaks = 'the peers after it are not synced'
demo = r'''package node_test

import (
	"testing"
	"time"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"127.0.0.1:1", "127.0.0.1:2"}})
		now := uint64(time.Now().Unix())
		n.AddPeerElement(&pb.Peer{AddressList: []string{"127.0.0.1:2"}, Timestamp: now})
		n.AddPeerElement(&pb.Peer{AddressList: []string{"127.0.0.1:3"}, Timestamp: now, DataList: []*pb.DataConfig{{Name: "theirs"}}})
		n.SyncWithPeers()
		if _, err := n.Dataset.GetNoCreate("theirs"); err != nil {
			t.Fatal(err)
		}
	}
}
'''

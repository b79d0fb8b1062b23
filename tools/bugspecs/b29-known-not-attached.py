prop = 'C29'
pkg = 'node'
edits = [('node/node.go', '\t\t\tdata, err := n.Dataset.GetOrCreateIfNotExists(dataConfigFromPeer)\n', '\t\t\tknown, _ := n.Dataset.GetNoCreate(dataConfigFromPeer.Name)\n\t\t\tif known != nil && known.GetConfig().Version >= dataConfigFromPeer.Version {\n\t\t\t\tcontinue // nothing new\n\t\t\t}\n\t\t\tdata, err := n.Dataset.GetOrCreateIfNotExists(dataConfigFromPeer)\n')]
needs = 'a dataset that both nodes created themselves before they met'
breaks = 'the nodes do not attach each other as sources, so searches miss the data of the other'
demo = r'''package node_test

import (
	"testing"
	"time"
	data "github.com/bgokden/veri/data"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"localhost:1"}})
	d, _ := n.Dataset.Get("a")
	n.AddPeerElement(&pb.Peer{AddressList: []string{"localhost:2"}, Timestamp: uint64(time.Now().Unix()), DataList: []*pb.DataConfig{data.GetDefaultConfig("a"), data.GetDefaultConfig("b")}})
	n.SyncWithPeers()
	if b, err := n.Dataset.GetNoCreate("b"); err != nil || len(b.Sources.Items()) != 1 {
		t.Fatal("b", err)
	}
	if len(d.Sources.Items()) != 1 {
		t.Fatal("a has no source")
	}
}
'''

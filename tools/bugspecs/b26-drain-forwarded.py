prop = 'C27'
pkg = 'node'
edits = [('node/nodeservice.go', '\tif state.Drain {\n\t\treturn nil, errors.New("Node is in drain mode")\n\t}\n\tconfig := insertionRequest.GetConfig()\n', '\tconfig := insertionRequest.GetConfig()\n\tif state.Drain && config.GetCount() == 0 {\n\t\treturn nil, errors.New("Node is in drain mode")\n\t}\n')]
needs = 'a forwarded insert (replication or rebalancing of a peer) that reaches a node that is closing'
breaks = 'the closing node accepts the datum, which is then lost'
demo = r'''package node_test

import (
	"testing"
	"context"
	node "github.com/bgokden/veri/node"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/state"
)


func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"x:1"}})
	n.Dataset.Get("a")
	n.Close()
	defer func() { state.Drain = false }()
	for _, count := range []uint64{0, 1} {
		_, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: "a", Config: &pb.InsertConfig{Count: count},
			Datum: data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, nil, 0)})
		if err == nil {
			t.Fatal("accepted, count", count)
		}
	}
}
'''

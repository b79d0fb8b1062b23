prop = 'C21'
pkg = 'node'
edits = [('node/nodeservice.go', '\tname := getDataRequest.Name\n\tdata, err := n.Dataset.Get(name)', '\tname := getDataRequest.Name\n\tdata, err := n.Dataset.GetNoCreate(name)')]
needs = 'asking for the information of a dataset that is not there yet'
breaks = 'it is not created with the default configuration'
demo = r'''package node_test

import (
	"testing"
	"context"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
)

func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir()})
	info, err := n.GetDataInfo(context.Background(), &pb.GetDataRequest{Name: "a"})
	if err != nil || info.GetTargetN() != 1000 {
		t.Fatal(info, err)
	}
}
'''

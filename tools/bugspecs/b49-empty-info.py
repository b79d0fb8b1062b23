prop = 'C28'
pkg = 'node'
edits = [('node/datasourceclient.go', '\t\tlog.Printf("GetDataInfo Error: %v\\n", err.Error())\n\t\treturn nil\n', '\t\tlog.Printf("GetDataInfo Error: %v\\n", err.Error())\n\t\treturn &pb.DataInfo{Name: dcs.Name}\n')]
needs = 'a peer that is not reachable'
breaks = 'its dataset is reported as being there and empty'
demo = r'''package node_test

import (
	"testing"
	node "github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	c := node.GetDataSourceClient(&pb.Peer{}, "a", "127.0.0.1:1", util.NewConnectionCache())
	if i := c.GetDataInfo(); i != nil {
		t.Fatal(i)
	}
}
'''

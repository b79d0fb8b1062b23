prop = 'C12'
pkg = 'data'
edits = [('data/insert.go', '\t\tif counter < dt.Config.ReplicationOnInsert {\n\t\t\treturn errors', '\t\tif counter < dt.Config.ReplicationOnInsert && dt.Sources.ItemCount() > 0 {\n\t\t\treturn errors')]
needs = 'enforced replication while no peer is known (yet)'
breaks = 'the insert is reported as successful without the required copies'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", NoTarget: true, EnforceReplicationOnInsert: true, ReplicationOnInsert: 2})
	if dt.Insert(demoDatum("x", 1), nil) == nil {
		t.Fatal("one copy only")
	}
}
'''

prop = 'C12'
pkg = 'data'
edits = [('data/insert.go', '\tcounter := uint32(1)\n', '\tcounter := uint32(1)\n\tif config.TTL > 0 && config.TTL < 10 {\n\t\tcounter++ // not worth a copy\n\t}\n')]
needs = 'an insert with a TTL below ten seconds'
breaks = 'success is reported with one copy too few'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", NoTarget: true, ReplicationOnInsert: 2, EnforceReplicationOnInsert: true})
	if err := dt.Insert(demoDatum("x", 1), &pb.InsertConfig{TTL: 5}); err == nil {
		t.Fatal("success without a second copy")
	}
}
'''

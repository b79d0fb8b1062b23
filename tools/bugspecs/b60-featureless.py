prop = 'C26'
pkg = 'data'
edits = [('data/newsync.go', '\t\tif entry != nil && entry.Datum != nil {\n', '\t\tif entry != nil && len(entry.Datum.GetKey().GetFeature()) > 0 {\n')]
needs = 'a datum without features'
breaks = 'it is not streamed'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("x"), nil)
	ch := make(chan *pb.Datum, 10)
	dt.StreamAll(ch)
	if len(ch) != 1 {
		t.Fatal(len(ch))
	}
}
'''

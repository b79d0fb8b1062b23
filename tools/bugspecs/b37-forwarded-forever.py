prop = 'C03'
pkg = 'data'
edits = [('data/newsync.go', '\tif config != nil && config.TTL != 0 {\n', '\tif config != nil && config.TTL != 0 && config.Count <= 1 {\n')]
needs = 'an insert with a time-to-live that was forwarded more than once'
breaks = 'the copy never expires'
demo = r'''package data_test

import (
	"testing"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("a", 1), &pb.InsertConfig{TTL: 1, Count: 2})
	time.Sleep(2100 * time.Millisecond)
	if r := dt.Search(demoDatum("a", 1), nil, nil).List; len(r) != 0 {
		t.Fatal(r)
	}
}
'''

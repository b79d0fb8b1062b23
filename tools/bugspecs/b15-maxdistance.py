prop = 'C16'
pkg = 'data'
edits = [('data/newsync.go', '\t\tmaxDistance := 0.0\n', '\t\tmaxDistance := localInfo.MaxDistance\n')]
needs = 'an outlier that is removed again'
breaks = 'the reported maximal distance never gets smaller'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("a", 1, 2), nil)
	dt.Insert(demoDatum("b", 2, 2), nil)
	dt.Insert(demoDatum("c", 100, 100), nil)
	dt.Process(true)
	dt.Delete(demoDatum("c", 100, 100))
	for i := 0; i < 4; i++ {
		dt.Process(true)
	}
	if m := dt.GetDataInfo().MaxDistance; m > 1 {
		t.Fatalf("max distance %v", m)
	}
}
'''

prop = 'C25'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\t\tif index <= 0 {\n\t\t\t\t\tindex = 0\n\t\t\t\t}\n', '')]
needs = 'a vector with a NaN next to ordinary ones'
breaks = 'the background processing crashes the node'
demo = r'''package data_test

import (
	"testing"
	"math"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("a", 1), nil)
	dt.Insert(demoDatum("b", 5), nil)
	dt.Process(true)
	dt.Process(true)
	dt.Insert(demoDatum("c", float32(math.NaN())), nil)
	dt.Process(true)
	dt.Process(true)
}
'''

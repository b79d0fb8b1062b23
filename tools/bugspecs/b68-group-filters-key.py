prop = 'C11'
pkg = 'data'
edits = [('data/search.go', '\tconfig.Uuid = ""\n', '\tconfig.Uuid = ""\n\tconfig.GroupFilters = nil\n')]
needs = 'two queries that differ in their group filters only'
breaks = 'the second gets the cached answer of the first'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(data.NewDatum([]float32{1}, 1, 0, 1, 0, []byte("{\"a\":1}"), []byte("x"), 0), nil)
	c := data.DefaultSearchConfig()
	c.CacheDuration = 60
	c.GroupFilters = []string{"a"}
	r, _ := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1)}, c, nil)
	c.GroupFilters = []string{"b"}
	r2, _ := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1)}, c, nil)
	if len(r) != 1 || len(r2) != 0 {
		t.Fatal(r, r2)
	}
}
'''

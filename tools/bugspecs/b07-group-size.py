prop = 'C08'
pkg = 'data'
edits = [('data/aggregator.go', '\t\t\tfloatLen := float64(len(a.List))', '\t\t\tfloatLen := float64(a.Config.Limit)')]
needs = 'groups with fewer members than the group limit, lower is better'
breaks = 'small groups get too good a score and overtake larger ones'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	add := func(g string, f float32) {
		dt.Insert(data.NewDatum([]float32{f}, 1, 0, 0, 0, []byte(g), []byte(g), 0), nil)
	}
	add("small", 4)
	add("big", 5)
	add("big", -5)
	add("big", 6)
	c := data.DefaultSearchConfig()
	c.GroupLimit = 3
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 0)}, c, nil)
	if err != nil || len(r) != 2 || string(r[0].Datum.Key.GroupLabel) != "big" { // 16/9 is better than 4/1
		t.Fatalf("%v %v", r, err)
	}
}
'''

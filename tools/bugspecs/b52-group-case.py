prop = 'C08'
pkg = 'data'
edits = [('data/aggregator.go', '\t\tkeyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)\n', '\t\tkeyString := util.EncodeToString(bytes.TrimRight(scoredDatum.Datum.Key.GroupLabel, "\\x00 "))\n'), ('data/aggregator.go', 'import (\n', 'import (\n\t"bytes"\n')]
needs = 'group labels that differ only in spaces or zero bytes at their end'
breaks = 'the two groups are merged into one'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	for i, g := range []string{"g", "g ", "g\x00"} {
		d := demoDatum("x", float32(i))
		d.Key.GroupLabel = []byte(g)
		dt.Insert(d, nil)
	}
	c := data.DefaultSearchConfig()
	c.GroupLimit = 2
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 0)}, c, nil)
	if err != nil || len(r) != 3 {
		t.Fatal(r, err)
	}
}
'''

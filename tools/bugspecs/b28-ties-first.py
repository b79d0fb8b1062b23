prop = 'C04'
pkg = 'data'
edits = [('data/search.go', '\t\t\tsort.Slice(c.List, func(i, j int) bool {\n\t\t\t\treturn c.List[i].Score < c.List[j].Score\n\t\t\t})\n\t\t}\n\t}\n\treturn nil\n}\n\nfunc (c *Collector) PassesFilters', '\t\t\tfor i := len(c.List) - 1; i > 0 && int64(c.List[i].Score) <= int64(c.List[i-1].Score); i-- {\n\t\t\t\tc.List[i], c.List[i-1] = c.List[i-1], c.List[i]\n\t\t\t}\n\t\t}\n\t}\n\treturn nil\n}\n\nfunc (c *Collector) PassesFilters')]
needs = 'scores that differ only in their fraction'
breaks = 'the results are not ordered exactly, and a better one can be cut off'
demo = r'''package data_test

import (
	"testing"
	"sort"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	for i := 0; i < 50; i++ {
		dt.Insert(demoDatum("l", float32(i*7%50)/10), nil)
	}
	c := data.DefaultSearchConfig()
	r := dt.Search(demoDatum("", 0), c, nil).List
	if len(r) != 10 || r[9].Score > 0.95 || !sort.SliceIsSorted(r, func(i, j int) bool { return r[i].Score < r[j].Score }) {
		t.Fatal(r)
	}
}
'''

prop = 'C04'
pkg = 'data'
edits = [('data/search.go', '\t\tc.HigherIsBetter = config.HigherIsBetter\n\t\tc.N = config.Limit\n\t\tc.Filters = config.Filters\n', '\t\tc.HigherIsBetter = config.HigherIsBetter\n\t\tc.N = config.Limit\n\t\tif c.N > 1000 {\n\t\t\tc.N = 1000\n\t\t}\n\t\tc.Filters = config.Filters\n')]
needs = 'a limit above 1000 and more than 1000 matches'
breaks = 'only 1000 are returned'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	for i := 0; i < 1200; i++ {
		dt.Insert(demoDatum("x", float32(i)), nil)
	}
	c := data.DefaultSearchConfig()
	c.Limit = 1100
	if r := dt.Search(demoDatum("", 1), c, nil).List; len(r) != 1100 {
		t.Fatal(len(r))
	}
}
'''

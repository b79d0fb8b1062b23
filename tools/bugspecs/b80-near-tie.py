prop = 'C04'
pkg = 'data'
edits = [('data/search.go', '\t\t(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score) {', '\t\t(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score-1e-9) {')]
needs = 'vectors that are less than a billionth apart, the better one visited later'
breaks = 'the worse one is returned'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		dt := demoData(t, nil)
		dt.Insert(demoDatum("far", 5e-10), nil)
		dt.Insert(demoDatum("near", 1e-10), nil)
		r := dt.Search(demoDatum("q", 0), &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 1}, nil).List
		if len(r) != 1 || string(r[0].Datum.Value.Label) != "near" {
			t.Fatal(r)
		}
	}
}
'''

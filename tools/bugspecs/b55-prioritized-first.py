prop = 'C09'
pkg = 'data'
edits = [('data/aggregator.go', '\t\t\tif !isSet || a.IsNewScoredBetter(current, newScore) {\n', '\t\t\tif !isSet || a.IsNewScoredBetter(current, newScore) != (isSet && newScore == 0) {\n')]
needs = 'a context datum with a score of exactly zero'
breaks = 'the best context match is not used for it'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("x", 1), nil)
	for _, prioritize := range []bool{false, true} {
		c := data.DefaultSearchConfig()
		r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 5)}, c, &pb.SearchContext{Prioritize: prioritize, Datum: []*pb.Datum{demoDatum("", 3), demoDatum("", 1)}})
		if err != nil || len(r) != 1 || r[0].Score != 0 {
			t.Fatal(prioritize, r, err)
		}
	}
}
'''

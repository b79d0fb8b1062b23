prop = 'C09'
pkg = 'data'
edits = [('data/aggregator.go', '\t\tvar isSet = false\n\t\tvar current float64', '\t\tvar current float64'), ('data/aggregator.go', '\t\t\tcurrent = scoredDatum.GetScore()\n\t\t\tisSet = true\n\t\t}', '\t\t\tcurrent = scoredDatum.GetScore()\n\t\t}'), ('data/aggregator.go', '\t\t\tif !isSet || a.IsNewScoredBetter(current, newScore) {\n\t\t\t\tcurrent = newScore\n\t\t\t\tisSet = true\n\t\t\t}', '\t\t\tif current == 0 || a.IsNewScoredBetter(current, newScore) {\n\t\t\t\tcurrent = newScore\n\t\t\t}')]
needs = 'a candidate with a score of exactly zero (same vector as the query or a context datum) and another context datum after that'
breaks = 'the perfect match gets the worse score of a later context datum'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	a := data.NewAggrator(data.DefaultSearchConfig(), false, &pb.SearchContext{Prioritize: true, Datum: []*pb.Datum{demoDatum("", 1, 1), demoDatum("", 5, 5)}})
	a.Insert(&pb.ScoredDatum{Score: 3, Datum: demoDatum("x", 1, 1)})
	a.Insert(&pb.ScoredDatum{Score: 2, Datum: demoDatum("y", 1, 2)})
	r := a.Result()
	if len(r) != 2 || r[0].Score != 0 || string(r[0].Datum.Value.Label) != "x" {
		t.Fatalf("%v", r)
	}
}
'''

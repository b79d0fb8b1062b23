prop = 'C09'
pkg = 'data'
edits = [('data/aggregator.go', '\t\t\t\tcurrent = newScore\n\t\t\t\tisSet = true\n\t\t\t}\n', '\t\t\t\tcurrent = newScore\n\t\t\t\tisSet = true\n\t\t\t} else if a.Context.Prioritize {\n\t\t\t\tbreak\n\t\t\t}\n')]
needs = 'a prioritized context in which a worse match comes before the best'
breaks = 'the best match is not found'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("x", 1), nil)
	c := data.DefaultSearchConfig()
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 100)}, c, &pb.SearchContext{Prioritize: true, Datum: []*pb.Datum{demoDatum("", 2), demoDatum("", 9), demoDatum("", 1)}})
	if err != nil || len(r) != 1 || r[0].Score != 0 {
		t.Fatal(err, r)
	}
}
'''

prop = 'C07'
pkg = 'data'
edits = [('data/search.go', '\t\t\t// log.Printf("MultiAggregatedSearch: all data finished")\n\t\t\tclose(scoredDatumStream)\n\t\t\tfor scoredDatum := range scoredDatumStream {\n\t\t\t\ttemp.Insert(scoredDatum)\n\t\t\t}', '\t\t\t// log.Printf("MultiAggregatedSearch: all data finished")\n\t\t\tfor i := len(scoredDatumStream); i > 1; i-- {\n\t\t\t\ttemp.Insert(<-scoredDatumStream)\n\t\t\t}')]
needs = 'the merger notices the end of all queries while the last result is still buffered (scheduling)'
breaks = 'one result is lost now and then'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	for i := 0; i < 5; i++ {
		dt.Insert(demoDatum("l", float32(i), 2), nil)
	}
	for n := 0; n < 20000; n++ {
		c := data.DefaultSearchConfig()
		r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1, 2)}, c, nil)
		if err != nil || len(r) != 5 {
			t.Fatalf("search %v: %v results instead of 5, %v", n, len(r), err)
		}
	}
}
'''

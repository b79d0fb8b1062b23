prop = 'C07'
pkg = 'data'
edits = [('data/search.go', '\twaitChannel := make(chan struct{})\n\t// loop datumList\n', '\tseen := map[string]bool{}\n\tqueries := make([]*pb.Datum, 0, len(datumList))\n\tfor _, datum := range datumList {\n\t\tif feature := fmt.Sprintf("%.4v", datum.Key.Feature); !seen[feature] {\n\t\t\tseen[feature] = true\n\t\t\tqueries = append(queries, datum)\n\t\t}\n\t}\n\tdatumList, waitChannel := queries, make(chan struct{})\n\t// loop datumList\n')]
needs = 'query datums that differ only in the fifth digit of a coordinate'
breaks = 'one of the queries is left out, so its best results are missing'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("a", 1.00001), nil)
	c := data.DefaultSearchConfig()
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1), demoDatum("", 1.00001)}, c, nil)
	if err != nil || len(r) != 1 || r[0].Score != 0 {
		t.Fatal(r, err)
	}
}
'''

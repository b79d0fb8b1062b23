prop = 'C17'
pkg = 'data'
edits = [('data/search.go', '\t\tindex := *(dt.Annoyer.DataIndex)\n', '\t\tindex := *(dt.Annoyer.DataIndex)\n\t\tif uint32(len(index)) < config.Limit { // everything is a result, no need to use the index\n\t\t\tdt.Annoyer.RUnlock()\n\t\t\treturn dt.Search(datum, config, nil)\n\t\t}\n')]
needs = 'a limit above the number of data'
breaks = 'the result is ordered by the score, not by the angle'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("near", 1, 1), nil)
	dt.Insert(demoDatum("aligned", 100, 0), nil)
	dt.Process(true)
	r := dt.SearchAnnoy(demoDatum("", 1, 0), &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: 10}).List
	if len(r) != 2 || string(r[0].Datum.Value.Label) != "aligned" {
		t.Fatal(r)
	}
}
'''

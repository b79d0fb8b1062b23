prop = 'C17'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\tdt.Annoyer.DataIndex = &newDataIndex\n', '\t\t\tif dt.Annoyer.DataIndex == nil || len(*dt.Annoyer.DataIndex) != len(newDataIndex) {\n\t\t\t\tdt.Annoyer.DataIndex = &newDataIndex\n\t\t\t}\n')]
needs = 'as many new as removed elements (or only overwritten ones) between two processing passes'
breaks = 'approximate search returns removed or outdated datums'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("x", 1, 2), nil)
	dt.Process(true)
	dt.Insert(demoDatum("y", 1, 2), nil)
	dt.Process(true)
	c := data.DefaultSearchConfig()
	c.ScoreFuncName = "AnnoyVectorDistance"
	if r := dt.SearchAnnoy(demoDatum("", 1, 2), c).List; len(r) != 1 || string(r[0].Datum.Value.Label) != "y" {
		t.Fatal(r)
	}
}
'''

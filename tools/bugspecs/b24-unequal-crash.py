prop = 'C25'
pkg = 'data'
edits = [('data/util.go', '\tminLen := min(len(arr1), len(arr2))\n\tvar ret float64\n\tfor i := 0; i < minLen; i++ {\n\t\ttmp := arr1[i] - arr2[i]', '\tvar ret float64\n\tfor i := range arr1 {\n\t\ttmp := arr1[i] - arr2[i]')]
needs = 'a QuickVectorDistance search with a query shorter than a stored vector'
breaks = 'the request crashes the node'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("l", 1, 2, 3), nil)
	c := data.DefaultSearchConfig()
	c.ScoreFuncName = "QuickVectorDistance"
	if r := dt.Search(demoDatum("", 1), c, nil); len(r.List) != 1 {
		t.Fatal(r.List)
	}
}
'''

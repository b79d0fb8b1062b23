prop = 'C06'
pkg = 'data'
edits = [('data/search.go', '\t\tjsonLabel := string(datum.Value.Label)\n', "\t\tjsonLabel := string(datum.Value.Label)\n\t\tif len(jsonLabel) == 0 || jsonLabel[0] != '{' {\n\t\t\treturn false\n\t\t}\n")]
needs = 'a JSON label that is an array or starts with white space'
breaks = 'it is filtered out though the path exists'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("[{\"a\":1}]", 1, 2), nil)
	dt.Insert(demoDatum(" {\"a\":1}", 1, 3), nil)
	c := data.DefaultSearchConfig()
	c.Filters = []string{"0.a"}
	if r := dt.Search(demoDatum("", 1, 2), c, nil).List; len(r) != 1 {
		t.Fatal(len(r))
	}
	c.Filters = []string{"a"}
	if r := dt.Search(demoDatum("", 1, 2), c, nil).List; len(r) != 1 {
		t.Fatal(len(r))
	}
}
'''

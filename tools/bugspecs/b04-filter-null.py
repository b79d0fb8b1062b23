prop = 'C06'
pkg = 'data'
edits = [('data/search.go', '\t\tfor _, filter := range c.Filters {\n\t\t\tvalue := gjson.Get(jsonLabel, filter)\n\t\t\tif !value.Exists() {', '\t\tfor _, filter := range c.Filters {\n\t\t\tvalue := gjson.Get(jsonLabel, filter)\n\t\t\tif value.Type == gjson.Null {')]
needs = 'a label whose requested field is present with the value null'
breaks = 'a datum having the field is left out of filtered searches'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum(`{"a":null}`, 1, 2), nil)
	dt.Insert(demoDatum(`{"b":1}`, 2, 2), nil)
	dt.Insert(demoDatum(`{"a":1}`, 3, 2), nil)
	c := data.DefaultSearchConfig()
	c.Filters = []string{"a"}
	if r := dt.Search(demoDatum("", 1, 2), c, nil); len(r.List) != 2 {
		t.Fatalf("%v results instead of 2", len(r.List))
	}
}
'''

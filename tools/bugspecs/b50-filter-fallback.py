prop = 'C06'
pkg = 'data'
edits = [('data/search.go', '\t\t\tvalue := gjson.Get(jsonLabel, filter)\n\t\t\tif !value.Exists() {\n\t\t\t\treturn false\n\t\t\t}\n\t\t}\n\t}\n\treturn true\n', '\t\t\tvalue := gjson.Get(jsonLabel, filter)\n\t\t\tif !value.Exists() {\n\t\t\t\tvalue = gjson.GetBytes(datum.Key.GroupLabel, filter) // what is common to a group\n\t\t\t}\n\t\t\tif !value.Exists() {\n\t\t\t\treturn false\n\t\t\t}\n\t\t}\n\t}\n\treturn true\n')]
needs = 'a datum whose group label has the requested field, but not its label'
breaks = 'it is returned although its label does not match'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	d := demoDatum(`{"b":1}`, 1)
	d.Key.GroupLabel = []byte(`{"a":1}`)
	dt.Insert(d, nil)
	c := data.DefaultSearchConfig()
	c.Filters = []string{"a"}
	if r := dt.Search(d, c, nil).List; len(r) != 0 {
		t.Fatal(r)
	}
}
'''

prop = 'C11'
pkg = 'data'
edits = [('data/search.go', '\tconfig.Uuid = ""\n', '\tconfig.Uuid = ""\n\tconfig.Filters = append(append([]string{}, sc.Filters...), sc.GroupFilters...)\n\tconfig.GroupFilters = nil\n')]
needs = 'a cached search with a filter, followed by the same search with the same path as group filter'
breaks = 'the answer for the one is given for the other'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	d := demoDatum(`{"a":1}`, 1)
	d.Key.GroupLabel = []byte(`{"b":1}`)
	dt.Insert(d, nil)
	for i, want := range []int{1, 0} {
		c := data.DefaultSearchConfig()
		c.CacheDuration = 60
		if i == 0 {
			c.Filters = []string{"a"}
		} else {
			c.GroupFilters = []string{"a"}
		}
		r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1)}, c, nil)
		if err != nil || len(r) != want {
			t.Fatal(i, r, err)
		}
	}
}
'''

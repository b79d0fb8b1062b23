prop = 'C17'
pkg = 'data'
edits = [('data/search.go', 'GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)', 'GetNnsByVector(datum.Key.Feature, min(len(index), int(config.Limit)), -1, &result, &distances)')]
needs = 'an approximate search with a filter that the nearest neighbours do not pass'
breaks = 'fewer results than there are (or none), although the index holds matching data'
demo = r'''package data_test

import (
	"testing"
	"fmt"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	vec := func(i int) []float32 {
		v := make([]float32, 64)
		v[0], v[1] = 1, float32(i)
		return v
	}
	for i := 0; i < 20; i++ {
		l := `{"a":1}`
		if i >= 10 {
			l = `{"b":1}`
		}
		dt.Insert(demoDatum(l, vec(i)...), nil)
	}
	dt.Process(true)
	c := data.DefaultSearchConfig()
	c.ScoreFuncName = "AnnoyVectorDistance"
	c.Limit = 5
	c.Filters = []string{"b"}
	if r := dt.SearchAnnoy(demoDatum("", vec(0)...), c); len(r.List) != 5 {
		t.Fatal(fmt.Sprint(len(r.List), " results instead of 5"))
	}
}
'''

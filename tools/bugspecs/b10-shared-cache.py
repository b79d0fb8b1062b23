prop = 'C11'
pkg = 'data'
edits = [('data/search.go', '\t\t\tresultCopy := CloneResult(cachedResult)\n\t\t\tfor _, i := range resultCopy {', '\t\t\tfor _, i := range cachedResult {')]
needs = 'a cached query that is answered from the cache to a request with a search context and then asked again without it'
breaks = 'the re-scored results of one caller show up in the answers of others'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("l", 1, 2), nil)
	ask := func(x *pb.SearchContext) float64 {
		c := data.DefaultSearchConfig()
		c.CacheDuration = 60
		r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 4, 6)}, c, x)
		if err != nil || len(r) != 1 {
			t.Fatal(r, err)
		}
		return r[0].Score
	}
	x := &pb.SearchContext{Prioritize: true, Datum: []*pb.Datum{demoDatum("", 1, 2)}}
	a := ask(nil)
	ask(nil)
	ask(x)
	if b := ask(nil); a != b {
		t.Fatalf("score %v, then %v", a, b)
	}
}
'''

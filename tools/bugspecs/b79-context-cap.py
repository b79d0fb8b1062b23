prop = 'C09'
pkg = 'data'
edits = [('data/aggregator.go', 'for _, datum := range a.Context.GetDatum() {', 'for _, datum := range a.Context.GetDatum()[:min(len(a.Context.GetDatum()), 8)] {')]
needs = 'a search context of more than eight datums, the best match being a later one'
breaks = 'candidates are not scored by their best context match'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoD(x float32) *pb.Datum {
	return data.NewDatum([]float32{x}, 1, 0, 1, 0, []byte("g"), []byte("x"), 0)
}

func TestDemo(t *testing.T) {
	ctx := &pb.SearchContext{Prioritize: true}
	for i := 10; i > 0; i-- {
		ctx.Datum = append(ctx.Datum, demoD(float32(i)))
	}
	a := data.NewAggrator(&pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 5}, false, ctx)
	a.Insert(&pb.ScoredDatum{Datum: demoD(1), Score: 7})
	if r := a.Result(); len(r) != 1 || r[0].Score != 0 {
		t.Fatal(r)
	}
}
'''

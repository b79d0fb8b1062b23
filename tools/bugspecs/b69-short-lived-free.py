prop = 'C13'
pkg = 'data'
edits = [('data/insert.go', '\tif dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {\n', '\tif dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN && config.GetTTL() == 0 {\n')]
needs = 'inserts with a time to live into a full dataset'
breaks = 'they are accepted'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", TargetN: 2})
	for i := 0; i < 2; i++ {
		dt.Insert(demoDatum("x", float32(i)), nil)
	}
	dt.Process(true)
	if err := dt.Insert(demoDatum("x", 9), &pb.InsertConfig{TTL: 100}); err == nil {
		t.Fatal("accepted")
	}
}
'''

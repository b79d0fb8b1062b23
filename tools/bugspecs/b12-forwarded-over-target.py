prop = 'C13'
pkg = 'data'
edits = [('data/insert.go', '\tif dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {', '\tif dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN && config.GetCount() == 0 {')]
needs = 'a full dataset that gets forwarded inserts from a peer'
breaks = 'the target is exceeded by forwarded data'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", TargetN: 2, TargetUtilization: 0.5})
	dt.Insert(demoDatum("l", 1, 2), nil)
	dt.Insert(demoDatum("l", 2, 2), nil)
	dt.Process(true)
	if err := dt.Insert(demoDatum("l", 3, 2), &pb.InsertConfig{Count: 1}); err == nil {
		t.Fatal("not refused")
	}
}
'''

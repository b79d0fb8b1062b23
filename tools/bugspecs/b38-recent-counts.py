prop = 'C13'
pkg = 'data'
edits = [('data/insert.go', 'dt.N >= dt.Config.TargetN', 'dt.N+dt.RecentInsertCount >= 2*dt.Config.TargetN || dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN')]
needs = 'many overwrites of the same datums since the last processing pass'
breaks = 'inserts are refused although the dataset reports less than its target'
demo = r'''package data_test

import (
	"testing"
	"fmt"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", TargetN: 10})
	for i := 0; i < 50; i++ {
		if err := dt.Insert(demoDatum(fmt.Sprint(i), float32(i%5)), nil); err != nil {
			t.Fatal(i, dt.N, err)
		}
	}
}
'''

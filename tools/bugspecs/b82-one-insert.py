prop = 'C17'
pkg = 'data'
edits = [('data/newsync.go', '(recentInsertCount > 0 || limit', '(recentInsertCount > 1 || limit')]
needs = 'a single insert since the last background pass'
breaks = 'background processing does not index it within a minute'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("a", 1), nil)
	dt.Process(true)
	dt.LastRunTimestamp -= 100
	dt.Insert(demoDatum("b", 2), nil)
	dt.Process(false)
	if n := dt.GetDataInfo().N; n != 2 {
		t.Fatal(n)
	}
}
'''

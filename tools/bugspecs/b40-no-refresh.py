prop = 'C16'
pkg = 'data'
edits = [('data/newsync.go', '(recentInsertCount > 0 || limit > transferLimit || timeDiff >= 600)', '(recentInsertCount > 0 || limit > transferLimit)')]
needs = 'elements that are deleted or expire while nothing is inserted'
breaks = 'the reported statistics never catch up'
demo = r'''package data_test

import (
	"testing"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	time.Sleep(200 * time.Millisecond)
	dt.Alive = false // no background processing
	time.Sleep(1500 * time.Millisecond)
	d := demoDatum("x", 1)
	dt.Insert(d, nil)
	dt.Alive = true
	dt.Process(true)
	if dt.GetDataInfo().N != 1 {
		t.Fatal(dt.N)
	}
	dt.Delete(d)
	dt.LastRunTimestamp -= 1000
	dt.Process(false)
	if dt.GetDataInfo().N != 0 {
		t.Fatal(dt.N)
	}
}
'''

prop = 'C03'
pkg = 'data'
edits = [('data/newsync.go', 'mapEntry.ExprireAt <= time.Now().Unix()', 'mapEntry.ExprireAt < time.Now().Unix()')]
needs = 'looking at the data in the second in which the time-to-live has just passed'
breaks = 'a datum stays visible for a second after its time-to-live'
demo = r'''package data_test

import (
	"testing"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	// begin right after a full second
	time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1050 * time.Millisecond)))
	start := time.Now()
	if err := dt.Insert(demoDatum("l", 1, 2), &pb.InsertConfig{TTL: 2}); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Until(start.Truncate(time.Second).Add(2100 * time.Millisecond)))
	ch := make(chan *pb.Datum, 10)
	dt.StreamAll(ch)
	if len(ch) != 0 {
		t.Fatalf("still there %v after start", time.Since(start))
	}
}
'''

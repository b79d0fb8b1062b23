prop = 'C03'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\tif bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {\n\t\t\t\tisNewEntry = false\n\t\t\t}\n', '\t\t\tif bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {\n\t\t\t\tisNewEntry = false\n\t\t\t\tif oldEntry.ExprireAt > entry.ExprireAt {\n\t\t\t\t\tentry.ExprireAt = oldEntry.ExprireAt\n\t\t\t\t}\n\t\t\t}\n')]
needs = 'the same datum again with a slightly shorter time to live'
breaks = 'it lives until the old expiry'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"time"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("x", 1), &pb.InsertConfig{TTL: 8})
	dt.Insert(demoDatum("x", 1), &pb.InsertConfig{TTL: 1})
	time.Sleep(2100 * time.Millisecond)
	if r := dt.Search(demoDatum("", 1), nil, nil).List; len(r) != 0 {
		t.Fatal(r)
	}
}
'''

prop = 'C17'
pkg = 'data'
edits = [('data/newsync.go', 'bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough', 'bytes.Compare(valueByte, oldValueByte) == 0 || CloseEnough')]
needs = 'a datum overwritten with another label, no other insert'
breaks = 'approximate search returns the old label after the background passes that follow'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("old", 1, 2), nil)
	dt.Process(true)
	dt.LastRunTimestamp -= 100
	dt.Insert(demoDatum("new", 1, 2), nil)
	dt.Process(false)
	r := dt.SearchAnnoy(demoDatum("q", 1, 2), &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: 3}).List
	if len(r) != 1 || string(r[0].Datum.Value.Label) != "new" {
		t.Fatal(r)
	}
}
'''

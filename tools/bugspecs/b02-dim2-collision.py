prop = 'C02'
pkg = 'data'
edits = [('data/gencoder/gencoder.go', '\t\tbuf[i+3+12] = byte(d.Dim2 >> 24)', '\t\tbuf[i+3+12] = byte(d.Dim1 >> 24)')]
needs = 'two keys that differ only in the top byte of Dim2'
breaks = 'the second insert replaces the first datum'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	for _, dim2 := range []uint32{7, 7 | 1<<24} {
		if err := dt.Insert(data.NewDatum([]float32{1}, 1, dim2, 0, 0, []byte("g"), []byte("l"), 5), nil); err != nil {
			t.Fatal(err)
		}
	}
	ch := make(chan *pb.Datum, 10)
	dt.StreamAll(ch)
	if len(ch) != 2 {
		t.Fatalf("%v datums instead of 2", len(ch))
	}
}
'''

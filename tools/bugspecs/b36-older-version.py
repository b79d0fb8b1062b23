prop = 'C02'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\tvalueByte, err := GetValueAsBytes(datum)\n', '\t\t\tif oldEntry.Datum.Value.Version > datum.Value.Version {\n\t\t\t\treturn nil // there is a newer version already\n\t\t\t}\n\t\t\tvalueByte, err := GetValueAsBytes(datum)\n')]
needs = 'an insert that overwrites a datum with one of a lower version'
breaks = 'the insert succeeds but the old value stays'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	a, b := demoDatum("a", 1), demoDatum("b", 1)
	a.Value.Version = 2
	b.Value.Version = 1
	dt.Insert(a, nil)
	dt.Insert(b, nil)
	r := dt.Search(a, nil, nil).List
	if len(r) != 1 || string(r[0].Datum.Value.Label) != "b" {
		t.Fatal(r)
	}
}
'''

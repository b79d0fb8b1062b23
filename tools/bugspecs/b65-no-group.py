prop = 'C08'
pkg = 'data'
edits = [('data/aggregator.go', '\t\tkeyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)\n', '\t\tkeyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)\n\t\tif keyString == "" { // does not belong to a group\n\t\t\tkeyByte, err := GetKeyAsBytes(scoredDatum.GetDatum())\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tkeyString = util.EncodeToString(keyByte)\n\t\t}\n')]
needs = 'data with an empty group label'
breaks = 'each is a group of its own'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	for i := 0; i < 3; i++ {
		dt.Insert(data.NewDatum([]float32{float32(i)}, 1, 0, 1, 0, nil, []byte("x"), 0), nil)
	}
	c := data.DefaultSearchConfig()
	c.GroupLimit = 2
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1)}, c, nil)
	if err != nil || len(r) != 1 {
		t.Fatal(err, len(r))
	}
}
'''

prop = 'C19'
pkg = 'data'
edits = [('data/dataset.go', '\t\t\tif config.Version > data.Config.Version {', '\t\t\tif config.Version >= data.Config.Version {')]
needs = 'two different configurations of the same version'
breaks = 'the later one replaces the first, so nodes disagree depending on the order'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dts := data.NewDataset(t.TempDir())
	dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "a", Version: 3, TargetN: 10})
	dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "a", Version: 3, TargetN: 20})
	d, err := dts.GetNoCreate("a")
	if err != nil || d.GetDataInfo().TargetN != 10 {
		t.Fatal(d, err)
	}
}
'''

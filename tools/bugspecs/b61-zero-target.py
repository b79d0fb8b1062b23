prop = 'C19'
pkg = 'data'
edits = [('data/dataset.go', '\t\t\tif config.Version > data.Config.Version {\n', '\t\t\tif config.Version > data.Config.Version && (config.NoTarget || config.TargetN > 0) {\n')]
needs = 'a newer configuration with a target of 0'
breaks = 'it is ignored'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dts := data.NewDataset(t.TempDir())
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", Version: 1, TargetN: 10})
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", Version: 2})
	dt, err := dts.GetNoCreate("a")
	if err != nil || dt.GetConfig().Version != 2 {
		t.Fatal(err, dt.GetConfig())
	}
}
'''

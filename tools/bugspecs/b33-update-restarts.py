prop = 'C33'
pkg = 'data'
edits = [('data/dataset.go', '\t\t\t\tdata.Config = config\n', '\t\t\t\tdata.Config = config\n\t\t\t\tdts.DataList.Set(config.Name, data, retention)\n')]
needs = 'a dataset whose configuration is replaced by a newer version with a shorter retention'
breaks = 'the dataset is removed before the period it was created with is over'
demo = r'''package data_test

import (
	"testing"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dts := data.NewDataset(t.TempDir())
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true, Retention: 1000, Version: 1})
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true, Retention: 1, Version: 2})
	time.Sleep(1500 * time.Millisecond)
	if _, err := dts.GetNoCreate("a"); err != nil {
		t.Fatal(err)
	}
}
'''

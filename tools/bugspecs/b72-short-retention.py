prop = 'C33'
pkg = 'data'
edits = [('data/dataset.go', '\tif retention == 0 {\n', '\tif retention < 60 {\n')]
needs = 'a retention of less than a minute'
breaks = 'the dataset stays for two weeks'
demo = r'''package data_test

import (
	"testing"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dts := data.NewDataset(t.TempDir())
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true, Retention: 1})
	time.Sleep(1500 * time.Millisecond)
	if _, err := dts.GetNoCreate("a"); err == nil {
		t.Fatal("still there")
	}
}
'''

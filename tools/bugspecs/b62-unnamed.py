prop = 'C20'
pkg = 'data'
edits = [('data/dataset.go', '\t\tif err := json.Unmarshal([]byte(line), &config); err == nil {\n', '\t\tif err := json.Unmarshal([]byte(line), &config); err == nil && config.Name != "" {\n')]
needs = 'the dataset with the empty name (requests without a name use it)'
breaks = 'it is not restored after a restart'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dir := t.TempDir()
	dts := data.NewDataset(dir)
	dts.CreateIfNotExists(&pb.DataConfig{Name: "", Version: 7})
	dts.SaveIndex()
	dts = data.NewDataset(dir)
	dt, err := dts.GetNoCreate("")
	if err != nil || dt.GetConfig().Version != 7 {
		t.Fatal(err)
	}
}
'''

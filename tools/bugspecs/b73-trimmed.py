prop = 'C21'
pkg = 'data'
edits = [('data/dataset.go', 'func (dts *Dataset) GetNoCreate(name string) (*Data, error) {\n\titem, ok := dts.DataList.Get(name)\n', 'func (dts *Dataset) GetNoCreate(name string) (*Data, error) {\n\titem, ok := dts.DataList.Get(strings.TrimSpace(name))\n'), ('data/dataset.go', '\t"path"\n\t"sync"\n', '\t"path"\n\t"strings"\n\t"sync"\n')]
needs = 'names that differ in white space only'
breaks = 'a search in one looks into the other'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dts := data.NewDataset(t.TempDir())
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true})
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a ", NoTarget: true})
	dt, err := dts.GetNoCreate("a ")
	if err != nil || dt.GetConfig().Name != "a " {
		t.Fatal(err)
	}
}
'''

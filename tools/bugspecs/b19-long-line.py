prop = 'C20'
pkg = 'data'
edits = [('data/dataset.go', "\t\tline, err := reader.ReadString('\\n')", '\t\tline, _, err := reader.ReadLine()')]
needs = 'a dataset whose saved line is longer than the read buffer of 4096 bytes'
breaks = 'it is missing after a restart'
demo = r'''package data_test

import (
	"testing"
	"strings"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dir := t.TempDir()
	dts := data.NewDataset(dir)
	name := strings.Repeat("n", 5000)
	dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, Version: 3})
	if err := dts.SaveIndex(); err != nil {
		t.Fatal(err)
	}
	if d, err := data.NewDataset(dir).GetNoCreate(name); err != nil || d.GetDataInfo().Version != 3 {
		t.Fatal("not restored")
	}
}
'''

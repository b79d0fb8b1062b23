prop = 'C20'
pkg = 'data'
edits = [('data/dataset.go', '\t\tvar config pb.DataConfig\n', ''), ('data/dataset.go', '\tfor {\n\t\tline, err := reader', '\tvar config pb.DataConfig\n\tfor {\n\t\tline, err := reader'), ('data/dataset.go', 'dts.createIfNotExists(&config)', 'dts.createIfNotExists(proto.Clone(&config).(*pb.DataConfig))'), ('data/dataset.go', '\t"github.com/pkg/errors"\n', '\t"github.com/pkg/errors"\n\t"google.golang.org/protobuf/proto"\n')]
needs = 'several saved datasets, one of which has a setting of zero where the one before it has not'
breaks = 'the setting of the dataset before it is restored'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dir := t.TempDir()
	dts := data.NewDataset(dir)
	for _, name := range []string{"a", "b", "c", "d"} {
		c := &pb.DataConfig{Name: name, TargetN: 5, NoTarget: name == "a" || name == "c"}
		if name == "b" {
			c.TargetN = 0
		}
		dts.CreateIfNotExists(c)
	}
	dts.SaveIndex()
	for try := 0; try < 20; try++ {
		again := data.NewDataset(dir)
		for _, name := range []string{"a", "b", "c", "d"} {
			d, err := again.GetNoCreate(name)
			if err != nil {
				t.Fatal(err)
			}
			if c := d.GetConfig(); c.NoTarget != (name == "a" || name == "c") || (c.TargetN == 0) != (name == "b") {
				t.Fatal(c)
			}
		}
		dts.SaveIndex()
	}
}
'''

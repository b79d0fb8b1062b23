prop = 'C19'
pkg = 'data'
edits = [('data/dataset.go', '\t\t\t\tdata.Config = config\n', '\t\t\t\tcurrent := data.Config // updated in place, others may hold it\n\t\t\t\tcurrent.Version, current.TargetN, current.TargetUtilization = config.Version, config.TargetN, config.TargetUtilization\n\t\t\t\tcurrent.NoTarget, current.Retention = config.NoTarget, config.Retention\n\t\t\t\tcurrent.ReplicationOnInsert = config.ReplicationOnInsert\n')]
needs = 'a new version of a configuration that changes whether replication is enforced'
breaks = 'the new version is in force without that setting'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func TestDemo(t *testing.T) {
	dts := data.NewDataset(t.TempDir())
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", Version: 1})
	dts.CreateIfNotExists(&pb.DataConfig{Name: "a", Version: 2, EnforceReplicationOnInsert: true})
	d, _ := dts.GetNoCreate("a")
	if c := d.GetConfig(); c.Version != 2 || !c.EnforceReplicationOnInsert {
		t.Fatal(c)
	}
}
'''

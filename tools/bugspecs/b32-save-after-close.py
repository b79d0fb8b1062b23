prop = 'C32'
pkg = 'data'
edits = [('data/dataset.go', 'func (dts *Dataset) Close() error {\n\tdts.SaveIndex()\n', 'func (dts *Dataset) Close() error {\n'), ('data/dataset.go', '\tclosing.Wait()\n\treturn nil\n', '\tclosing.Wait()\n\tfor name, item := range datalist {\n\t\tif data, ok := item.Object.(*Data); ok && len(datalist) > 1 && data.GetDataInfo().N == 0 {\n\t\t\tdts.DataList.Delete(name) // everything is handed over\n\t\t}\n\t}\n\treturn dts.SaveIndex()\n')]
needs = 'a node with several datasets that is terminated and started again'
breaks = 'datasets that were empty are missing after the restart'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
)


func TestDemo(t *testing.T) {
	dir := t.TempDir()
	dts := data.NewDataset(dir)
	dts.Get("a")
	dts.Get("b")
	dts.SaveIndex()
	dts.Close()
	again := data.NewDataset(dir)
	for _, name := range []string{"a", "b"} {
		if _, err := again.GetNoCreate(name); err != nil {
			t.Fatal(err)
		}
	}
}
'''

prop = 'C21'
pkg = 'data'
edits = [('data/data.go', '\t"path"\n', '\t"path"\n\t"path/filepath"\n'), ('data/data.go', '\tos.RemoveAll(dt.DBPath)\n', '\tfiles, _ := filepath.Glob(dt.DBPath + "*") // the folder and the files that belong to it\n\tfor _, file := range files {\n\t\tos.RemoveAll(file)\n\t}\n')]
needs = "a dataset whose name is the beginning of another one's"
breaks = 'deleting it removes the folder of the other dataset, too'
demo = r'''package data_test

import (
	"testing"
	"os"
	"path"
	data "github.com/bgokden/veri/data"
)


func TestDemo(t *testing.T) {
	dir := t.TempDir()
	dts := data.NewDataset(dir)
	a, _ := dts.Get("a")
	ab, _ := dts.Get("ab")
	for _, d := range []*data.Data{a, ab} {
		os.MkdirAll(d.DBPath, 0755)
		os.WriteFile(path.Join(d.DBPath, "f"), []byte("x"), 0644)
	}
	dts.Delete("a")
	if _, err := os.Stat(path.Join(ab.DBPath, "f")); err != nil {
		t.Fatal(err)
	}
}
'''

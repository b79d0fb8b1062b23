prop = 'C35'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\tif dt.Annoyer.AnnoyIndex != nil {\n\t\t\t\tdt.Annoyer.AnnoyIndex.Unload() // Not sure', '\t\t\tif dt.Annoyer.AnnoyIndex != nil && newAnnoyIndex != nil {\n\t\t\t\tdt.Annoyer.AnnoyIndex.Unload() // Not sure')]
needs = 'a dataset with an index that becomes empty'
breaks = 'its removed index file stays open and mapped, so its space is never freed'
demo = r'''package data_test

import (
	"os"
	"strings"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

var _ = os.Getenv
var _ = strings.Contains
var _ = time.Now

func demoData(t *testing.T) *data.Data {
	dt, err := data.NewData(&pb.DataConfig{Name: "demo", NoTarget: true}, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	tmp := t.TempDir()
	t.Setenv("TMPDIR", tmp)
	dt := demoData(t)
	dt.Insert(demoDatum("x", 1, 2), nil)
	dt.Process(true)
	dt.Delete(demoDatum("x", 1, 2))
	dt.Process(true)
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		t.Skip(err)
	}
	if strings.Contains(string(b), tmp+"/annoy") {
		t.Fatal("still mapped")
	}
}
'''

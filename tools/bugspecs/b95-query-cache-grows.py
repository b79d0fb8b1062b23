prop = 'C36'
pkg = 'data'
edits = [('data/data.go', 'dt.QueryCache = cache.New(5*time.Minute, 1*time.Minute)', 'dt.QueryCache = cache.New(5*time.Minute, 0) // expired answers are not given')]
needs = 'many different searches with a cache duration'
breaks = 'expired answers are kept in memory for good'
demo = r'''package data_test

import (
	"os"
	"strings"
	"testing"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

var _ = os.Getenv
var _ = strings.Contains
var _ = time.Now

func demoData(t *testing.T) *data.Data {
	dt, err := data.NewData(&pb.DataConfig{Name: "demo", NoTarget: true}, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}


func TestDemo(t *testing.T) {
	dt := demoData(t)
	dt.Insert(demoDatum("x", 1), nil)
	c := data.DefaultSearchConfig()
	c.CacheDuration = 1
	dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1)}, c, nil)
	time.Sleep(75 * time.Second)
	if n := dt.QueryCache.ItemCount(); n != 0 {
		t.Fatal(n)
	}
}
'''

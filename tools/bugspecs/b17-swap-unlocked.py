prop = 'C18'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\tdt.Annoyer.DataIndex = &newDataIndex\n\t\t\tdt.Annoyer.Unlock()', '\t\t\tdt.Annoyer.Unlock()\n\t\t\tdt.Annoyer.DataIndex = &newDataIndex')]
needs = 'an approximate search between the replacement of the index and of its datum list, while the dataset grows or shrinks'
breaks = 'the search uses the new index with the old list: wrong datums or a crash'
demo = r'''package data_test

import (
	"testing"
	"sync"
	"sync/atomic"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	var stop atomic.Bool
	var wg sync.WaitGroup
	for g := 0; g < 12; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := data.DefaultSearchConfig()
			c.ScoreFuncName = "AnnoyVectorDistance"
			c.Limit = 1000
			for !stop.Load() {
				dt.SearchAnnoy(demoDatum("", 1, 0), c)
			}
		}()
	}
	for n := 0; n < 1500; n++ {
		for i := 0; i < 40; i++ {
			d := demoDatum("l", 1, float32(i))
			if n%2 == 0 {
				dt.Insert(d, nil)
			} else if i > 2 {
				dt.Delete(d)
			}
		}
		dt.Process(true)
	}
	stop.Store(true)
	wg.Wait()
}
'''

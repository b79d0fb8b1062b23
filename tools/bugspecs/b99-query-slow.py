prop = 'C08'
pkg = 'data'
edits = [('data/aggregator.go', 'a.DeDuplicationMap.Set(keyString, aGroupAggregator, cache.NoExpiration)', 'a.DeDuplicationMap.Set(keyString, aGroupAggregator, 5*time.Minute)')]
needs = 'a grouped search of several queries, one of which takes more than five minutes'
breaks = 'the groups of the other queries are lost'
demo = r'''package data_test

import (
	"testing/synctest"
	"time"
	"sync"
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	lost := make(chan bool, 1)
	go synctest.Test(t, func(t *testing.T) { // virtual time; the caches have cleaners that never end, so it does not end
		c := data.DefaultSearchConfig()
		c.GroupLimit = 2
		a := data.NewAggrator(c, true, nil)
		a.Insert(&pb.ScoredDatum{Datum: demoDatum("x", 1, 2), Score: 1})
		time.Sleep(10 * time.Minute)
		a.Insert(&pb.ScoredDatum{Datum: data.NewDatum([]float32{7}, 1, 0, 1, 0, []byte("h"), []byte("y"), 0), Score: 2})
		lost <- len(a.Result()) != 2
		time.Sleep(10000 * time.Hour)
	})
	if <-lost {
		t.Fatal("a group was lost")
	}
}
'''

prop = 'C14'
pkg = 'data'
edits = [('data/sync.go', 'float64(localInfo.TargetN) * config.TargetUtilization)', 'float64(localInfo.TargetN) * float64(float32(config.TargetUtilization)))')]
needs = 'a utilization that a float32 rounds down (0.7) and a dataset exactly at the share'
breaks = 'one datum more than allowed is evicted'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"sync"
	"time"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	for i := 0; i < 60; i++ {
		dt := demoData(t, &pb.DataConfig{Name: "demo", TargetN: 10, TargetUtilization: 0.7})
		for j := 0; j < 7; j++ {
			dt.Insert(demoDatum("x", float32(j), 1), &pb.InsertConfig{Count: 1})
		}
		dt.Process(true)
		dt.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{Avg: []float32{1000}}})
		dt.Process(true)
		time.Sleep(20 * time.Millisecond)
		left := 0
		dt.LoopDBMap(func(*data.DBMapEntry) error { left++; return nil })
		if left < 6 {
			t.Fatal(left, "left")
		}
	}
}
'''

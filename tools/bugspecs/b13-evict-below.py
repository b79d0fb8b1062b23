prop = 'C14'
pkg = 'data'
edits = [('data/sync.go', '(localInfo.N-deleted) >= lowerThreshold', 'localInfo.N >= lowerThreshold')]
needs = 'a pass that may transfer more data than there is above the target share'
breaks = 'more is evicted than the target share allows'
demo = r'''package data_test

import (
	"testing"
	"fmt"
	"sync"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }

func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", TargetN: 100, TargetUtilization: 0.5})
	for i := 0; i < 55; i++ {
		dt.Insert(demoDatum(fmt.Sprint(i), float32(i), 2), nil)
	}
	dt.Process(true)
	dt.Process(true)
	dt.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{Avg: []float32{1000, 0}}})
	dt.Process(true)
	time.Sleep(300 * time.Millisecond)
	ch := make(chan *pb.Datum, 100)
	dt.StreamAll(ch)
	if len(ch) < 49 {
		t.Fatalf("%v left, the share is 50", len(ch))
	}
}
'''

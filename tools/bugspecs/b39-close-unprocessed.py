prop = 'C15'
pkg = 'data'
edits = [('data/data.go', '\tif dt.Sources != nil && len(dt.Sources.Items()) > 0 {\n\t\tdt.Process(true)', '\tif dt.N > 0 && dt.Sources != nil && len(dt.Sources.Items()) > 0 {\n\t\tdt.Process(true)')]
needs = 'a dataset that is closed before the first processing pass after its first inserts'
breaks = 'its data is not handed over to the peers'
demo = r'''package data_test

import (
	"testing"
	"sync"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	p := &demoPeer{id: "p", info: &pb.DataInfo{}}
	dt.AddSource(p)
	dt.Insert(demoDatum("x", 1), nil)
	dt.Close()
	if p.got["x"] == 0 {
		t.Fatal(p.got)
	}
}
'''

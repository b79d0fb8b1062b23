prop = 'C22'
pkg = 'data'
edits = [('data/data.go', '\tif dt.Sources != nil && len(dt.Sources.Items()) > 0 {\n\t\tsourceList := dt.Sources.Items()\n\t\tfor', '\tif dt.Sources != nil && len(dt.Sources.Items()) > 1 {\n\t\tsourceList := dt.Sources.Items()\n\t\tfor')]
needs = 'an empty dataset with exactly one peer, which has data'
breaks = 'maintenance removes the dataset although a peer has data for it'
demo = r'''package data_test

import (
	"testing"
	"sync"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }

func TestDemo(t *testing.T) {
	dts := data.NewDataset(t.TempDir())
	d, _ := dts.Get("a")
	d.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{N: 5}})
	dts.ReloadRuns()
	if _, err := dts.GetNoCreate("a"); err != nil {
		t.Fatal(err)
	}
}
'''

prop = 'C14'
pkg = 'data'
edits = [('data/data.go', '\tif strings.Contains(err.Error(), "Number of elements is over the target")', '\tif err == nil || strings.Contains(err.Error(), "Number of elements is over the target")'), ('data/newsync.go', '\t\t\t\t\t\t\t\t\tif err == nil && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {\n', '\t\t\t\t\t\t\t\t\tif !CheckIfUnkownError(err) && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {\n')]
needs = 'rebalancing to a peer that is full or draining'
breaks = 'data the peer refused is deleted'
demo = r'''package data_test

import (
	"testing"
	"errors"
	"sync"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", TargetN: 1000, TargetUtilization: 0.001})
	for i := 0; i < 50; i++ {
		dt.Insert(demoDatum("x", float32(i), 100), nil)
	}
	dt.Process(true)
	dt.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{}, insert: func(*pb.Datum, *pb.InsertConfig) error {
		return errors.New("rpc error: code = Unknown desc = Number of elements is over the target")
	}})
	for i := 0; i < 5; i++ {
		dt.Process(true)
	}
	c := data.DefaultSearchConfig()
	c.Limit = 100
	if r := dt.Search(demoDatum("", 0), c, nil).List; len(r) != 50 {
		t.Fatal(len(r))
	}
}
'''

prop = 'C10'
pkg = 'data'
edits = [('data/search.go', '\tconfig.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream\n', '\tconfig.Timeout = config.Timeout * 9 / 10 // Decrase timeout for downstream\n\tif config.Timeout > 0 && config.Timeout < 100 {\n\t\tconfig.Timeout, timeLimit = 100, time.After(100*time.Millisecond) // less makes no sense\n\t}\n')]
needs = 'a search with a timeout of less than 100 milliseconds and a source that does not answer'
breaks = 'the whole search is cut off before the partial results are there'
demo = r'''package data_test

import (
	"testing"
	"sync"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("x", 1), nil)
	stop := make(chan bool)
	defer close(stop)
	dt.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{}, search: func(*pb.Datum, chan<- *pb.ScoredDatum, *pb.SearchConfig) { <-stop }})
	c := data.DefaultSearchConfig()
	c.Timeout = 60
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 0)}, c, nil)
	if err != nil || len(r) != 1 {
		t.Fatal(r, err)
	}
}
'''

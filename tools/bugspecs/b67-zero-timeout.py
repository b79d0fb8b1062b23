prop = 'C10'
pkg = 'data'
edits = [('data/search.go', '\ttimeLimit := time.After(duration)\n\tqueryKey', '\tif config.Timeout < 10 {\n\t\tduration = 10 * time.Second\n\t}\n\tlimit := time.NewTimer(duration)\n\tdefer limit.Stop()\n\ttimeLimit := limit.C\n\tqueryKey'), ('data/search.go', '\ttimeLimit := time.After(duration)\n\t// Search Start\n\tscoredDatumStream := make(chan *pb.ScoredDatum, 100)\n\tvar queryWaitGroup sync.WaitGroup\n\twaitChannel := make(chan struct{})\n\t// loop datumList\n', '\tif config.Timeout < 10 {\n\t\tduration = 10 * time.Second\n\t}\n\tlimit := time.NewTimer(duration)\n\tdefer limit.Stop()\n\ttimeLimit := limit.C\n\t// Search Start\n\tscoredDatumStream := make(chan *pb.ScoredDatum, 100)\n\tvar queryWaitGroup sync.WaitGroup\n\twaitChannel := make(chan struct{})\n\t// loop datumList\n')]
needs = 'a timeout below 10 ms and a slow source'
breaks = 'the search takes up to 10 s'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"sync"
	"time"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{}, search: func(*pb.Datum, chan<- *pb.ScoredDatum, *pb.SearchConfig) { time.Sleep(3*time.Second) }})
	c := data.DefaultSearchConfig()
	c.Timeout = 5
	// the query has its own limit, so let the stream itself be the slow one
	big := make([]*pb.Datum, 1)
	big[0] = demoDatum("", 1)
	start := time.Now()
	dt.MultiAggregatedSearch(big, c, nil)
	if time.Since(start) > 2*time.Second {
		t.Fatal(time.Since(start))
	}
}
'''

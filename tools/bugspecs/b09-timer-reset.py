prop = 'C10'
pkg = 'data'
edits = [('data/search.go', '\tduration := durationOf(config.Timeout, time.Millisecond)\n\ttimeLimit := time.After(duration)\n\tqueryKey', '\tduration := durationOf(config.Timeout, time.Millisecond)\n\tqueryKey'), ('data/search.go', '\t\tcase <-timeLimit:\n\t\t\tlog.Printf("timeout")', '\t\tcase <-time.After(duration):\n\t\t\tlog.Printf("timeout")'), ('data/search.go', '\tduration := durationOf(config.Timeout, time.Millisecond)\n\ttimeLimit := time.After(duration)\n\t// Search Start', '\tduration := durationOf(config.Timeout, time.Millisecond)\n\t// Search Start'), ('data/search.go', '\t\tcase <-timeLimit:\n\t\t\t// log.Printf("timeout")', '\t\tcase <-time.After(duration):\n\t\t\t// log.Printf("timeout")')]
needs = 'a source that keeps delivering results slowly beyond the timeout'
breaks = 'the partial results of one query are merged too late; each result starts the timeout anew'
demo = r'''package data_test

import (
	"testing"
	"fmt"
	"sync"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	dt.Insert(demoDatum("l", 1, 2), nil)
	dt.AddSource(&demoPeer{id: "p", search: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
		for i := 0; i < 20; i++ {
			time.Sleep(200 * time.Millisecond)
			out <- &pb.ScoredDatum{Score: float64(i), Datum: demoDatum(fmt.Sprint(i), float32(i))}
		}
	}})
	c := data.DefaultSearchConfig()
	start := time.Now()
	out := make(chan *pb.ScoredDatum, 100)
	dt.AggregatedSearch(demoDatum("", 1, 2), out, nil, c)
	if d := time.Since(start); d > 2*time.Second {
		t.Fatalf("answered after %v", d)
	}
}
'''

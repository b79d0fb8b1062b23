prop = 'C15'
pkg = 'data'
edits = [('data/data.go', '\t\tfor dt.N > 0 {\n', '\t\tfor i := 0; i < 20 && dt.N > 0; i++ {\n')]
needs = 'closing while the peer refuses the data for a while'
breaks = 'data that is not handed over yet is dropped'
demo = r'''package data_test

import (
	"testing"
	"errors"
	"fmt"
	"sync"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)


func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }

func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	start := time.Now()
	p := &demoPeer{id: "p", info: &pb.DataInfo{}, insert: func(*pb.Datum, *pb.InsertConfig) error {
		if time.Since(start) < 2*time.Second {
			return errors.New("Number of elements is over the target")
		}
		return nil
	}}
	dt.AddSource(p)
	for i := 0; i < 20; i++ {
		dt.Insert(demoDatum(fmt.Sprint(i), float32(i), 2), nil)
	}
	dt.Close()
	time.Sleep(300 * time.Millisecond)
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.got) != 20 {
		t.Fatalf("%v of 20 handed over", len(p.got))
	}
}
'''

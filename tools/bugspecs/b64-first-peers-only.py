prop = 'C12'
pkg = 'data'
edits = [('data/insert.go', '\t\t\tif err == nil {\n\t\t\t\tcounter++\n\t\t\t}\n', '\t\t\tif err == nil || !CheckIfUnkownError(err) {\n\t\t\t\tcounter++\n\t\t\t}\n')]
needs = 'a peer that is full or draining'
breaks = 'its refusal counts as a copy'
demo = r'''package data_test

import (
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"errors"
	"sync"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", NoTarget: true, ReplicationOnInsert: 2, EnforceReplicationOnInsert: true})
	dt.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{}, insert: func(*pb.Datum, *pb.InsertConfig) error {
		return errors.New("Number of elements is over the target")
	}})
	if err := dt.Insert(demoDatum("x", 1), nil); err == nil {
		t.Fatal("success with one copy")
	}
}
'''

prop = 'C27'
pkg = 'node'
edits = [('node/node.go', '\tstate.Ready = false\n\tstate.Drain = true\n\tn.Dataset.Close()\n', '\tstate.Ready = false\n\tn.Dataset.Close()\n\tstate.Drain = true\n')]
needs = 'an insert while the node hands its data over to peers'
breaks = 'the closing node accepts the insert, and the datum is lost'
demo = r'''package node_test

import (
	"testing"
	"context"
	"time"
	"sync"
	data "github.com/bgokden/veri/data"
	node "github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/state"
)

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"x:1"}})
	d, _ := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true})
	d.Insert(data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, nil, 0), nil)
	d.Process(true)
	called := false
	d.AddSource(&demoPeer{id: "p", info: &pb.DataInfo{}, insert: func(*pb.Datum, *pb.InsertConfig) error {
		called = true
		if _, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: "b", Datum: data.NewDatum([]float32{1}, 1, 0, 0, 0, nil, nil, 0)}); err == nil {
			t.Error("accepted")
		}
		return nil
	}})
	done := make(chan bool)
	go func() { n.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("not closed")
	}
	state.Drain = false
	if !called {
		t.Fatal("not handed over")
	}
}
'''

prop = 'C34'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\tif bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {\n\t\t\t\tisNewEntry = false\n\t\t\t}\n', '\t\t\tif bytes.Equal(valueByte, oldValueByte) && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {\n\t\t\t\tif entry.ExprireAt == oldEntry.ExprireAt {\n\t\t\t\t\treturn nil // nothing changed\n\t\t\t\t}\n\t\t\t\tisNewEntry = false\n\t\t\t}\n')]
needs = 'two nodes with the same datum that hand it over to each other at the same time'
breaks = 'both delete it because the other one took it; it is lost'
demo = r'''package data_test

import (
	"sync"
	"testing"
	"time"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, &pb.DataConfig{Name: "demo", TargetN: 1000, TargetUtilization: 0.001})
	p := &demoPeer{id: "p", info: &pb.DataInfo{}}
	p.insert = func(d *pb.Datum, c *pb.InsertConfig) error {
		return dt.Insert(demoDatum(string(d.Value.Label), d.Key.Feature...), nil) // the peer hands it over as well
	}
	dt.AddSource(p)
	for i := 1; i <= 40; i++ {
		dt.Insert(demoDatum("x", float32(i)), nil)
	}
	for i := 0; i < 15; i++ {
		dt.Process(true)
		time.Sleep(100 * time.Millisecond)
	}
	if n := dt.GetDataInfo().N; n != 40 {
		t.Fatal(n)
	}
}
'''

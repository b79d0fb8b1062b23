prop = 'C35'
pkg = 'data'
edits = [('data/newsync.go', '\t\t\tif len(oldFile) > 0 {\n\t\t\t\tos.Remove(oldFile)\n', '\t\t\tif len(oldFile) > 0 && len(newTempFileName) > 0 {\n\t\t\t\tos.Remove(oldFile)\n')]
needs = 'a dataset with an index that becomes empty (everything deleted or expired)'
breaks = 'the file of the last index stays in the temporary folder for good'
demo = r'''package data_test

import (
	"os"
	"sync"
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	tmp := t.TempDir()
	t.Setenv("TMPDIR", tmp)
	dt := demoData(t, nil)
	_ = sync.Mutex{}
	for i := 0; i < 3; i++ {
		dt.Insert(demoDatum("x", 1, 2), nil)
		dt.Process(true)
		dt.Delete(demoDatum("x", 1, 2))
		dt.Process(true)
	}
	files, _ := os.ReadDir(tmp)
	n := 0
	for _, f := range files {
		if !f.IsDir() {
			n++
		}
	}
	if n > 1 {
		t.Fatal(n)
	}
}
'''

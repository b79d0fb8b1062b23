prop = 'C29'
pkg = 'data'
edits = [('data/data.go', '\tif dt.Sources == nil {\n\t\treturn errors.New("Sources is still nil")\n\t}\n', '\tif dt.Sources == nil {\n\t\treturn errors.New("Sources is still nil")\n\t}\n\tif _, known := dt.Sources.Get(dataSource.GetID()); !known && dt.Sources.ItemCount() > 6 {\n\t\treturn nil // more than a search asks\n\t}\n')]
needs = 'a dataset with more than seven holders'
breaks = 'the later ones are never attached, what only they hold is never found'
demo = r'''package data_test

import (
	"sync"
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	seen := map[string]bool{}
	for i := 0; i < 9; i++ {
		id := string(rune('a' + i))
		dt.AddSource(&demoPeer{id: id, info: &pb.DataInfo{}})
	}
	for i := 0; i < 500; i++ {
		dt.RunOnRandomSources(5, func(s data.DataSource) error {
			seen[s.GetID()] = true
			return nil
		})
	}
	if len(seen) != 9 {
		t.Fatal(seen)
	}
}
'''

prop = 'C17'
pkg = 'data'
edits = [('data/search.go', '\tdt.RunOnRandomSources(5, func(source DataSource) error {\n\t\tqueryWaitGroup.Add(1)\n\t\t// log.Printf("Query', '\tsources := 5\n\tif strings.HasPrefix(config.ScoreFuncName, "Annoy") && config.Limit < 100 {\n\t\tsources = 2 // approximate anyway\n\t}\n\tdt.RunOnRandomSources(sources, func(source DataSource) error {\n\t\tqueryWaitGroup.Add(1)\n\t\t// log.Printf("Query')]
needs = 'an approximate search with a limit below 100 and more than three sources'
breaks = 'what only the fourth source holds is missing'
demo = r'''package data_test

import (
	"sync"
	"testing"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func demoData(t *testing.T, c *pb.DataConfig) *data.Data {
	if c == nil {
		c = &pb.DataConfig{Name: "demo", NoTarget: true}
	}
	dt, err := data.NewData(c, t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	return dt
}

func demoDatum(label string, f ...float32) *pb.Datum {
	return data.NewDatum(f, uint32(len(f)), 0, 1, 0, []byte("g"), []byte(label), 0)
}

type demoPeer struct {
	id     string
	mu     sync.Mutex
	insert func(d *pb.Datum, c *pb.InsertConfig) error
	search func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	info   *pb.DataInfo
	got    map[string]int
}

func (p *demoPeer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	if p.search != nil {
		p.search(q, out, c)
	}
	return nil
}
func (p *demoPeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if p.insert != nil {
		if err := p.insert(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.got == nil {
		p.got = map[string]int{}
	}
	p.got[string(d.Value.Label)]++
	return nil
}
func (p *demoPeer) GetDataInfo() *pb.DataInfo { return p.info }
func (p *demoPeer) GetID() string             { return p.id }


func TestDemo(t *testing.T) {
	dt := demoData(t, nil)
	_ = sync.Mutex{}
	for i := 0; i < 4; i++ {
		o := demoData(t, &pb.DataConfig{Name: "o" + string(rune('a'+i)), NoTarget: true})
		o.Insert(demoDatum("x", 1, float32(i)), nil)
		o.Process(true)
		dt.AddSource(o)
	}
	c := data.DefaultSearchConfig()
	c.ScoreFuncName = "AnnoyVectorDistance"
	c.Limit = 10
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{demoDatum("", 1, 1)}, c, nil)
	if err != nil || len(r) != 4 {
		t.Fatal(r, err)
	}
}
'''

package vk

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
)

// Sleep lets (virtual) time pass and waits until everything else is idle again.
func (c *Ctx) Sleep(d time.Duration) {
	time.Sleep(d)
	if c.inBubble {
		synctest.Wait()
	}
}

// Settle waits until all other goroutines of the bubble are blocked.
func (c *Ctx) Settle() {
	if c.inBubble {
		synctest.Wait()
	}
}

// NewData creates a dataset whose background loop ends with the case.
func (c *Ctx) NewData(cfg *pb.DataConfig) *data.Data {
	dt, err := data.NewData(cfg, c.Dir())
	if err != nil {
		c.Failf("new-data", "NewData: %v", err)
	}
	c.Cleanup(func() { dt.Alive = false })
	c.Settle() // the background loop has made its first (empty) pass
	if !c.inBubble {
		for i := 0; dt.Timestamp == 0 && i < 5000; i++ {
			time.Sleep(time.Millisecond)
		}
	}
	return dt
}

// All enumerates a dataset.
func All(dt interface{ StreamAll(chan<- *pb.Datum) error }) []*pb.Datum {
	ch := make(chan *pb.Datum, 64)
	var out []*pb.Datum
	done := make(chan struct{})
	go func() {
		for d := range ch {
			out = append(out, d)
		}
		close(done)
	}()
	dt.StreamAll(ch)
	close(ch)
	<-done
	return out
}

// Contents is the enumeration as key -> value; fails on duplicates.
func (c *Ctx) Contents(dt interface{ StreamAll(chan<- *pb.Datum) error }) map[string]string {
	m := map[string]string{}
	for _, d := range All(dt) {
		k := KeyOf(d)
		if _, dup := m[k]; dup {
			c.Failf("duplicate", "key %s enumerated twice", k)
		}
		m[k] = ValOf(d)
	}
	return m
}

// DiffMaps describes the difference of two maps, "" if equal.
func DiffMaps(got, want map[string]string) string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("missing %s", k))
		} else if g != v {
			out = append(out, fmt.Sprintf("key %s has value %s, want %s", k, g, v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("unexpected %s", k))
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	s := ""
	for _, o := range out {
		s += o + "; "
	}
	return s
}

// RefScore is an independent float64 implementation of the score functions.
func RefScore(name string, a, b []float32) float64 {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var dot, na, nb, l1, l2 float64
	for _, x := range a {
		na += float64(x) * float64(x)
	}
	for _, x := range b {
		nb += float64(x) * float64(x)
	}
	for i := 0; i < n; i++ {
		x, y := float64(a[i]), float64(b[i])
		dot += x * y
		l1 += math.Abs(x - y)
		l2 += (x - y) * (x - y)
	}
	cos := 0.0
	if na > 0 && nb > 0 {
		cos = dot / math.Sqrt(na) / math.Sqrt(nb)
	}
	cos = math.Max(-1, math.Min(1, cos))
	switch name {
	case "QuickVectorDistance":
		return l1
	case "VectorMultiplication":
		return dot
	case "CosineSimilarity", "AnnoyCosineSimilarity":
		return cos
	case "AngularDistance", "AnnoyAngularDistance":
		return 1 - math.Acos(cos)/math.Pi
	}
	return math.Sqrt(l2)
}

// RefTol is the rounding allowance between RefScore and a float32 computation (moderate vectors).
func RefTol(name string, ref float64) float64 {
	switch name {
	case "AngularDistance", "AnnoyAngularDistance":
		return 3e-3
	case "VectorMultiplication":
		return 2e-2 + 1e-4*math.Abs(ref)
	case "CosineSimilarity", "AnnoyCosineSimilarity":
		return 1e-4
	}
	return 2e-3 + 1e-4*math.Abs(ref)
}

// Near compares scores that were computed by the same function, maybe in another order.
func Near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b))
}

// Same allows for no more than the rounding of a score, however small the score.
func Same(a, b float64) bool { return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)) }

// Scored is a candidate result: key, acceptable values and score.
type Scored struct {
	Key   string
	Vals  []string
	Score float64
	Alt   []float64 // other acceptable scores
	F     []float32
}

// TopK checks that got is a correct best-first list of the limit best candidates, each at most once, with true scores.
func (c *Ctx) TopK(what string, got []*pb.ScoredDatum, cands []Scored, higher bool, limit int) {
	c.TopKOpt(what, got, cands, nil, higher, limit)
}

// TopKOpt is TopK with candidates that may, but need not, take part.
func (c *Ctx) TopKOpt(what string, got []*pb.ScoredDatum, cands, optional []Scored, higher bool, limit int) {
	want := len(cands)
	if limit < want {
		want = limit
	}
	most := len(cands) + len(optional)
	if limit < most {
		most = limit
	}
	by := map[string]Scored{}
	for _, s := range optional {
		by[s.Key] = s
	}
	for _, s := range cands {
		by[s.Key] = s
	}
	seen := map[string]bool{}
	var desc string
	for _, g := range got {
		if g == nil || g.Datum == nil {
			c.Failf("nil-result", "%s: nil result", what)
		}
		desc += fmt.Sprintf("(%s %v) ", KeyOf(g.Datum), g.Score)
	}
	for i, g := range got {
		k := KeyOf(g.Datum)
		s, ok := by[k]
		if !ok {
			c.Failf("alien-result", "%s: result %s is not a live matching datum; results %s", what, k, desc)
		}
		if seen[k] {
			c.Failf("duplicate-result", "%s: %s returned twice; results %s", what, k, desc)
		}
		seen[k] = true
		okv := false
		for _, v := range s.Vals {
			if v == ValOf(g.Datum) {
				okv = true
			}
		}
		if !okv {
			c.Failf("wrong-value", "%s: %s has value %s, want one of %v", what, k, ValOf(g.Datum), s.Vals)
		}
		okS := Near(g.Score, s.Score)
		for _, a := range s.Alt {
			okS = okS || Near(g.Score, a)
		}
		if !okS {
			c.Failf("wrong-score", "%s: %s has score %v, want %v", what, k, g.Score, s.Score)
		}
		if i > 0 && Better(higher, g.Score, got[i-1].Score) && !Same(g.Score, got[i-1].Score) {
			c.Failf("order", "%s: result %d is better than its predecessor: %s", what, i, desc)
		}
	}
	if len(got) < want || len(got) > most {
		c.Failf("result-count", "%s: %d results, want %d of %d candidates (%d optional): %s", what, len(got), want, len(cands), len(optional), desc)
	}
	if len(got) > 0 {
		worst := got[0].Score
		for _, g := range got {
			if Better(higher, worst, g.Score) {
				worst = g.Score
			}
		}
		for _, s := range cands {
			if !seen[s.Key] && len(got) < limit {
				c.Failf("missing", "%s: %s (score %v) left out although there is room: %s", what, s.Key, s.Score, desc)
			}
			if !seen[s.Key] && Better(higher, s.Score, worst) && !Same(s.Score, worst) {
				c.Failf("missing-better", "%s: %s (score %v) left out although %v was returned: %s", what, s.Key, s.Score, worst, desc)
			}
		}
	}
}

// Rec is what a fake peer received.
type Rec struct {
	Key, Val string
	TTL      uint64
	Count    uint64
	At       time.Time
}

// Peer is a scripted data source.
type Peer struct {
	mu       sync.Mutex
	ID       string
	Got      []Rec // accepted inserts
	Tried    []Rec // all inserts
	OnInsert func(n int, d *pb.Datum, cfg *pb.InsertConfig) error
	OnSearch func(d *pb.Datum, out chan<- *pb.ScoredDatum, cfg *pb.SearchConfig) error
	Info     func(n int) *pb.DataInfo
	Latency  time.Duration // of GetDataInfo
	Infos    int
	Searches int
}

var errPeer = errors.New("scripted peer failure")

// StreamSearch implements data.DataSource.
func (p *Peer) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, cfg *pb.SearchConfig) error {
	defer wg.Done()
	p.mu.Lock()
	p.Searches++
	p.mu.Unlock()
	if p.OnSearch == nil {
		return nil
	}
	return p.OnSearch(d, out, proto.Clone(cfg).(*pb.SearchConfig))
}

// Insert implements data.DataSource.
func (p *Peer) Insert(d *pb.Datum, cfg *pb.InsertConfig) error {
	p.mu.Lock()
	n := len(p.Tried)
	r := Rec{Key: KeyOf(d), Val: ValOf(d), TTL: cfg.GetTTL(), Count: cfg.GetCount(), At: time.Now()}
	p.Tried = append(p.Tried, r)
	p.mu.Unlock()
	var err error
	if p.OnInsert != nil {
		err = p.OnInsert(n, d, cfg)
	}
	if err == nil {
		p.mu.Lock()
		p.Got = append(p.Got, r)
		p.mu.Unlock()
	}
	return err
}

// GetDataInfo implements data.DataSource.
func (p *Peer) GetDataInfo() *pb.DataInfo {
	if p.Latency > 0 {
		time.Sleep(p.Latency)
	}
	p.mu.Lock()
	p.Infos++
	n := p.Infos
	p.mu.Unlock()
	if p.Info == nil {
		return nil
	}
	return p.Info(n)
}

// GetID implements data.DataSource.
func (p *Peer) GetID() string { return p.ID }

// Accepted returns a copy of the accepted inserts.
func (p *Peer) Accepted() []Rec {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Rec(nil), p.Got...)
}

// Attempts returns a copy of all inserts.
func (p *Peer) Attempts() []Rec {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Rec(nil), p.Tried...)
}

// SearchCfg is a search configuration in a plan.
type SearchCfg struct {
	Func         string   `json:"func,omitempty"`
	Higher       bool     `json:"higher,omitempty"`
	Limit        uint32   `json:"limit"`
	ResultLimit  uint64   `json:"resultLimit,omitempty"`
	GroupLimit   uint32   `json:"groupLimit,omitempty"`
	Timeout      uint64   `json:"timeout,omitempty"`
	Cache        uint64   `json:"cache,omitempty"`
	Filters      []string `json:"filters,omitempty"`
	GroupFilters []string `json:"groupFilters,omitempty"`
	Uuid         string   `json:"uuid,omitempty"`
	Data         string   `json:"data,omitempty"`
}

// PB builds the message.
func (s SearchCfg) PB() *pb.SearchConfig {
	return &pb.SearchConfig{ScoreFuncName: s.Func, HigherIsBetter: s.Higher, Limit: s.Limit, ResultLimit: s.ResultLimit,
		GroupLimit: s.GroupLimit, Timeout: s.Timeout, CacheDuration: s.Cache, Filters: s.Filters, GroupFilters: s.GroupFilters,
		Uuid: s.Uuid, DataName: s.Data}
}

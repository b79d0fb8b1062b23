package vk

import (
	"context"
	"math"
	"sync"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// Datasets tracks a registry so that every dataset ever seen in it is stopped at the end of the case.
func (c *Ctx) track(dts *data.Dataset) {
	c.Cleanup(func() {
		for _, it := range dts.DataList.Items() {
			if d, ok := it.Object.(*data.Data); ok {
				d.Alive = false
			}
		}
		dts.DataList.DeleteExpired()
	})
}

// NewDataset opens a registry.
func (c *Ctx) NewDataset(dir string) *data.Dataset {
	dts := data.NewDataset(dir)
	c.track(dts)
	c.Settle()
	return dts
}

// NewNode creates a node without its periodic task (call Periodic and the like explicitly).
func (c *Ctx) NewNode(cfg *node.NodeConfig) *node.Node {
	n := node.NewNode(cfg)
	c.track(n.Dataset)
	c.Cleanup(func() { n.ConnectionCache.Provider.Close() })
	n.StopPeriodicTask()
	c.Settle()
	return n
}

// Cfg is a dataset configuration in a plan.
type Cfg struct {
	Name      string  `json:"name"`
	Version   uint64  `json:"version,omitempty"`
	TargetN   uint64  `json:"targetN,omitempty"`
	Util      float64 `json:"util,omitempty"`
	NoTarget  bool    `json:"noTarget,omitempty"`
	Repl      uint32  `json:"repl,omitempty"`
	Enforce   bool    `json:"enforce,omitempty"`
	Retention uint64  `json:"retention,omitempty"`
}

// PB builds the message.
func (c Cfg) PB() *pb.DataConfig {
	return &pb.DataConfig{Name: c.Name, Version: c.Version, TargetN: c.TargetN, TargetUtilization: c.Util, NoTarget: c.NoTarget,
		ReplicationOnInsert: c.Repl, EnforceReplicationOnInsert: c.Enforce, Retention: c.Retention}
}

// CfgFromPB converts back.
func CfgFromPB(p *pb.DataConfig) Cfg {
	return Cfg{p.GetName(), p.GetVersion(), p.GetTargetN(), p.GetTargetUtilization(), p.GetNoTarget(), p.GetReplicationOnInsert(), p.GetEnforceReplicationOnInsert(), p.GetRetention()}
}

// CfgFromInfo is the configuration reported by dataset information.
func CfgFromInfo(p *pb.DataInfo) Cfg {
	return Cfg{p.GetName(), p.GetVersion(), p.GetTargetN(), p.GetTargetUtilization(), p.GetNoTarget(), p.GetReplicationOnInsert(), p.GetEnforceReplicationOnInsert(), p.GetRetention()}
}

// DefaultCfg is the documented default configuration.
func DefaultCfg(name string) Cfg {
	return Cfg{Name: name, TargetN: 1000, Util: 0.4, Repl: 1, Enforce: true}
}

// GenCfg draws a configuration for a name.
func GenCfg(t *rapid.T, name string) Cfg {
	return Cfg{
		Name:      name,
		Version:   rapid.OneOf(rapid.Uint64Range(0, 6), rapid.SampledFrom([]uint64{100, 1 << 40, math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, 1<<53 + 1})).Draw(t, "version"),
		TargetN:   rapid.OneOf(rapid.Uint64Range(50, 5000), rapid.SampledFrom([]uint64{1 << 33, 1<<53 + 1, math.MaxUint64, math.MaxInt64 + 7})).Draw(t, "targetN"),
		Util:      rapid.SampledFrom([]float64{0, 0.4, 0.1, 1, 1.0 / 3, 1e-300, 2.5}).Draw(t, "util"),
		NoTarget:  rapid.Bool().Draw(t, "noTarget"),
		Repl:      rapid.SampledFrom([]uint32{0, 1, 2, 3, math.MaxUint32}).Draw(t, "repl"),
		Enforce:   rapid.Bool().Draw(t, "enforce"),
		Retention: rapid.SampledFrom([]uint64{0, 3600, 86400, 1 << 30, 1<<31 + 5, 1<<53 + 1, math.MaxUint64}).Draw(t, "retention"),
	}
}

// Stream collects what a server-side stream sends.
type Stream[T any] struct {
	mu     sync.Mutex
	Out    []T
	OnSend func(n int, x T) error
}

func (s *Stream[T]) Send(x T) error {
	s.mu.Lock()
	n := len(s.Out)
	s.Out = append(s.Out, x)
	s.mu.Unlock()
	if s.OnSend != nil {
		return s.OnSend(n, x)
	}
	return nil
}

func (s *Stream[T]) SetHeader(metadata.MD) error  { return nil }
func (s *Stream[T]) SendHeader(metadata.MD) error { return nil }
func (s *Stream[T]) SetTrailer(metadata.MD)       {}
func (s *Stream[T]) Context() context.Context     { return context.Background() }
func (s *Stream[T]) SendMsg(m any) error          { return nil }
func (s *Stream[T]) RecvMsg(m any) error          { return nil }

// NodeSource attaches a dataset of another node without a network: the same requests, passed by copy.
type NodeSource struct {
	N    *node.Node
	Name string
	ID   string
	Wait func() // called before a search is passed on
}

// StreamSearch implements data.DataSource.
func (s *NodeSource) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, cfg *pb.SearchConfig) error {
	defer wg.Done()
	req := proto.Clone(&pb.SearchRequest{Datum: []*pb.Datum{d}, Config: cfg}).(*pb.SearchRequest)
	if s.Wait != nil {
		s.Wait()
	}
	st := &Stream[*pb.ScoredDatum]{}
	err := s.N.SearchStream(req, st)
	for _, x := range st.Out {
		out <- proto.Clone(x).(*pb.ScoredDatum)
	}
	return err
}

// Insert implements data.DataSource.
func (s *NodeSource) Insert(d *pb.Datum, cfg *pb.InsertConfig) error {
	_, err := s.N.Insert(context.Background(), proto.Clone(&pb.InsertionRequest{Config: cfg, Datum: d, DataName: s.Name}).(*pb.InsertionRequest))
	return err
}

// GetDataInfo implements data.DataSource.
func (s *NodeSource) GetDataInfo() *pb.DataInfo {
	info, err := s.N.GetDataInfo(context.Background(), &pb.GetDataRequest{Name: s.Name})
	if err != nil || info == nil {
		return nil
	}
	return proto.Clone(info).(*pb.DataInfo)
}

// GetID implements data.DataSource.
func (s *NodeSource) GetID() string { return s.ID }

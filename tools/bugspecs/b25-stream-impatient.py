prop = 'C26'
pkg = 'node'
edits = [('data/newsync.go', '\t\t\tdatumStream <- entry.Datum\n', '\t\t\tselect {\n\t\t\tcase datumStream <- entry.Datum:\n\t\t\tcase <-time.After(2 * time.Second): // the receiver is gone\n\t\t\t\tlog.Printf("Stream timeout")\n\t\t\t}\n')]
needs = 'a consumer that pauses for more than two seconds while more than the buffered number of datums is waiting'
breaks = 'datums are left out of the stream without an error'
demo = r'''package node_test

import (
	"testing"
	"time"
	node "github.com/bgokden/veri/node"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)


type demoStream struct {
	grpc.ServerStream
	n int
}

func (s *demoStream) Send(*pb.Datum) error {
	if s.n == 0 {
		time.Sleep(5 * time.Second)
	}
	s.n++
	return nil
}

func TestDemo(t *testing.T) {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: t.TempDir(), AdvertisedIds: []string{"x:1"}})
	d, _ := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true})
	for i := 0; i < 300; i++ {
		d.Insert(data.NewDatum([]float32{float32(i)}, 1, 0, 0, 0, nil, nil, 0), nil)
	}
	s := &demoStream{}
	if err := n.DataStream(&pb.GetDataRequest{Name: "a"}, s); err != nil || s.n != 300 {
		t.Fatal(s.n, err)
	}
}
'''

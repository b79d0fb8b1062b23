prop = 'C30'
pkg = 'util'
edits = [('util/connpool.go', 'goburrow.WithMaximumSize(100),  ', 'goburrow.WithMaximumSize(10),  ')]
needs = 'connections to more than ten addresses at the same time'
breaks = 'connections are shut down while others use them'
demo = r'''package util_test

import (
	"testing"
	"fmt"
	"net"
	"github.com/bgokden/veri/util"
	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
)


func TestDemo(t *testing.T) {
	cc := util.NewConnectionCache()
	var list []*util.Connection
	for i := 0; i < 60; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		defer l.Close()
		s := grpc.NewServer()
		go s.Serve(l)
		defer s.Stop()
		list = append(list, cc.Get(fmt.Sprint(l.Addr())))
	}
	for k := 0; k < 20; k++ {
		for i, c := range list {
			if c == nil || c.Conn.GetState() == connectivity.Shutdown {
				t.Fatal(i, c)
			}
			if d := cc.Get(c.Address); d == nil || d.Conn.GetState() == connectivity.Shutdown {
				t.Fatal(i, d)
			}
		}
	}
}
'''

package c30

import (
	"context"
	"fmt"
	"net"
	"os"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	"vharness/vk"
)

// identity is a server that answers every information request with its own number.
type identity struct {
	pb.UnimplementedVeriServiceServer
	no uint64
}

func (i *identity) GetDataInfo(ctx context.Context, r *pb.GetDataRequest) (*pb.DataInfo, error) {
	return &pb.DataInfo{N: i.no, Name: r.Name}, nil
}

type server struct {
	addr string
	no   int
	g    *grpc.Server
}

var next int

// newServer reserves an address nothing else uses: a loopback IP that no earlier case had, so that nothing is left of it
// and the port can be taken again after a restart.
func newServer(no int, sameHost bool, port int) *server {
	pid := os.Getpid()
	s := &server{no: no}
	for try := 0; try < 200; try++ {
		if !sameHost || no == 0 || try > 20 {
			next++
		}
		p := port
		if port == 0 {
			p = 20000 + (next*7+no+try)%9000
		}
		s.addr = fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+next/200%250, 1+next%200, p)
		if s.start() {
			return s
		}
	}
	panic("cannot listen on a loopback address")
}

func (s *server) start() bool {
	if s.g != nil {
		return true
	}
	for try := 0; try < 50; try++ {
		lis, err := net.Listen("tcp", s.addr)
		if err == nil {
			s.g = grpc.NewServer()
			pb.RegisterVeriServiceServer(s.g, &identity{no: uint64(s.no)})
			go s.g.Serve(lis)
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func (s *server) stop() {
	if s.g != nil {
		s.g.Stop()
		s.g = nil
	}
}

// call makes a call on a held connection and tells which server answered. A connection that only now
// notices that the server was restarted may fail one call as unavailable.
func call(c *util.Connection) (no int, err error) {
	for try := 0; try < 5; try++ {
		c.Conn.ResetConnectBackoff() // only saves time
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		var r *pb.DataInfo
		r, err = pb.NewVeriServiceClient(c.Conn).GetDataInfo(ctx, &pb.GetDataRequest{Name: "d"}, grpc.WaitForReady(true))
		cancel()
		if err == nil {
			return int(r.N), nil
		}
		if k := status.Code(err); k != codes.Unavailable && (k != codes.DeadlineExceeded || try > 1) { // connecting may take 20 seconds
			break
		}
		time.Sleep(time.Millisecond << (2 * try))
	}
	return -1, err
}

type Op struct {
	Kind int // 0 get, 1 put, 2 call, 3 stop, 4 start, 5 restart, 6 refresh the pool, 7 collect garbage, 8 close after returning, 9 get several, 10 wait, 11 call at a stopped server
	User int
	Addr int
	N    int
}

type Plan struct {
	Addrs    int
	SameHost bool  // addresses differ only in the port
	Ports    []int `json:"ports,omitempty"`
	Ops      []Op
}

func genHistory(t *rapid.T) Plan {
	p := Plan{Addrs: rapid.IntRange(1, 4).Draw(t, "addrs"), SameHost: rapid.Bool().Draw(t, "sameHost")}
	if rapid.Bool().Draw(t, "fixed") { // easily mistaken for each other
		p.Ports = rapid.SliceOfNDistinct(rapid.SampledFrom([]int{2001, 20010, 20011, 20100, 12001, 22001, 2000, 20000, 20001, 8080, 18080, 28080}), p.Addrs, p.Addrs, func(x int) int { return x }).Draw(t, "ports")
	}
	kinds := []int{0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	op := rapid.Custom(func(t *rapid.T) Op {
		o := Op{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), User: rapid.IntRange(0, 7).Draw(t, "user")}
		o.Addr = rapid.IntRange(0, p.Addrs-1).Draw(t, "addr")
		if o.Kind == 9 {
			o.N = rapid.IntRange(2, 30).Draw(t, "n")
		}
		return o
	})
	p.Ops = rapid.SliceOfN(op, 1, 30).Draw(t, "ops")
	return p
}

type hold struct {
	c    *util.Connection
	addr int
}

func runHistory(c *vk.Ctx, p Plan) {
	cc := util.NewConnectionCache()
	c.Cleanup(func() { cc.Provider.Close() })
	var srv []*server
	c.Cleanup(func() {
		for _, s := range srv {
			s.stop()
		}
	})
	for i := 0; i < p.Addrs; i++ {
		port := 0
		if i < len(p.Ports) {
			port = p.Ports[i]
		}
		srv = append(srv, newServer(i, p.SameHost, port))
	}
	var held []hold
	c.Cleanup(func() {
		for _, h := range held {
			h.c.Close()
		}
	})
	shared, restarted, used := false, false, 0
	get := func(step int, a int) {
		x := cc.Get(srv[a].addr)
		if srv[a].g == nil {
			if x != nil {
				held = append(held, hold{x, a})
			}
			return
		}
		if x == nil || x.Conn == nil {
			c.Failf("no-connection", "step %d: no connection to the reachable address %d (%d connections held)", step, a, len(held))
		}
		if x.Conn.GetState() == connectivity.Shutdown {
			c.Failf("dead-connection", "step %d: the connection given for the reachable address %d is shut down", step, a)
		}
		for _, h := range held {
			if h.c == x {
				shared = true
			}
		}
		held = append(held, hold{x, a})
	}
	check := func(step int, what string) {
		for i, h := range held {
			if h.c.Conn.GetState() == connectivity.Shutdown {
				c.Failf("closed-in-use", "step %d (%s): the connection held as number %d to address %d was shut down", step, what, i, h.addr)
			}
		}
	}
	try := func(step int, h hold) {
		if srv[h.addr].g == nil {
			return
		}
		no, err := call(h.c)
		if err != nil {
			c.Failf("unusable", "step %d: a call on a held connection to the running server %d fails: %v", step, h.addr, err)
		}
		if no != h.addr {
			c.Failf("mixed-up", "step %d: a connection asked for address %d reaches server %d", step, h.addr, no)
		}
		used++
	}
	for step, o := range p.Ops {
		a := o.Addr
		switch o.Kind {
		case 0:
			get(step, a)
		case 9:
			for i := 0; i < o.N; i++ {
				get(step, a)
			}
		case 1, 8:
			if len(held) > 0 {
				i := o.User % len(held)
				h := held[i]
				held = append(held[:i:i], held[i+1:]...)
				cc.Put(h.c)
				if o.Kind == 8 {
					cc.Close(h.c)
				}
			}
		case 2:
			if len(held) > 0 {
				try(step, held[o.User%len(held)])
			}
		case 3:
			srv[a].stop()
			restarted = true
		case 4, 5:
			if o.Kind == 5 {
				srv[a].stop()
				restarted = true
			}
			if !srv[a].start() {
				panic("cannot listen again on " + srv[a].addr)
			}
		case 6:
			cc.Provider.Refresh(srv[a].addr)
		case 7:
			runtime.GC()
		case 10:
			time.Sleep(2 * time.Millisecond)
		case 11:
			// calls at a stopped server fail and leave the connection in a failed state
			for _, h := range held {
				if srv[h.addr].g == nil {
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
					pb.NewVeriServiceClient(h.c.Conn).GetDataInfo(ctx, &pb.GetDataRequest{Name: "d"})
					cancel()
				}
			}
		}
		check(step, fmt.Sprintf("kind %d", o.Kind))
	}
	// in the end every server runs and everybody can work
	for a := range srv {
		if !srv[a].start() {
			panic("cannot listen again on " + srv[a].addr)
		}
	}
	for _, h := range held {
		try(len(p.Ops), h)
	}
	for a := range srv {
		get(len(p.Ops), a)
		try(len(p.Ops), held[len(held)-1])
	}
	check(len(p.Ops), "end")
	c.LabelIf(shared, "shared")
	c.LabelIf(restarted, "restarted")
	c.NonTrivialIf((shared || p.Addrs > 4) && used > 1)
}

// genMany: up to 100 addresses at a time, each user holding one connection
func genMany(t *rapid.T) Plan {
	p := Plan{Addrs: rapid.IntRange(5, 100).Draw(t, "addrs"), SameHost: rapid.Bool().Draw(t, "sameHost")}
	for i := 0; i < p.Addrs; i++ {
		p.Ops = append(p.Ops, Op{Kind: 0, Addr: i})
	}
	op := rapid.Custom(func(t *rapid.T) Op {
		return Op{Kind: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "kind"), User: rapid.IntRange(0, 99).Draw(t, "user"), Addr: rapid.IntRange(0, p.Addrs-1).Draw(t, "addr")}
	})
	p.Ops = append(p.Ops, rapid.SliceOfN(op, 0, 40).Draw(t, "ops")...)
	return p
}

// Script of one user: pairs of address and what is done between get and put.
type Script []struct {
	Addr  int
	Calls int // calls before the connection is returned
	Yield int // times the thread yields before returning it
}

type Conc struct {
	Addrs int
	Users []Script
	GC    bool
}

func genConc(t *rapid.T) Conc {
	p := Conc{Addrs: rapid.IntRange(1, 3).Draw(t, "addrs"), GC: rapid.IntRange(0, 3).Draw(t, "gc") == 0}
	n := rapid.OneOf(rapid.IntRange(2, 8), rapid.IntRange(8, 40)).Draw(t, "users")
	for i := 0; i < n; i++ {
		s := make(Script, rapid.IntRange(1, 12).Draw(t, "len"))
		for j := range s {
			s[j].Addr = rapid.IntRange(0, p.Addrs-1).Draw(t, "addr")
			s[j].Calls = rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "calls")
			s[j].Yield = rapid.IntRange(0, 3).Draw(t, "yield")
		}
		p.Users = append(p.Users, s)
	}
	return p
}

func runConc(c *vk.Ctx, p Conc) {
	cc := util.NewConnectionCache()
	c.Cleanup(func() { cc.Provider.Close() })
	var srv []*server
	c.Cleanup(func() {
		for _, s := range srv {
			s.stop()
		}
	})
	for i := 0; i < p.Addrs; i++ {
		srv = append(srv, newServer(i, i%2 == 0, 0))
	}
	kind := make([]string, len(p.Users))
	msg := make([]string, len(p.Users))
	var seen sync.Map
	stop := make(chan struct{})
	var gc sync.WaitGroup
	if p.GC {
		gc.Add(1)
		go func() {
			defer gc.Done()
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for u := range p.Users {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for i, s := range p.Users[u] {
				x := cc.Get(srv[s.Addr].addr)
				if x == nil || x.Conn == nil {
					kind[u], msg[u] = "no-connection", fmt.Sprintf("user %d, step %d: no connection", u, i)
					return
				}
				seen.Store(x, true)
				for y := 0; y < s.Yield; y++ {
					runtime.Gosched()
				}
				for k := 0; k < s.Calls; k++ {
					no, err := call(x)
					if err != nil {
						kind[u], msg[u] = "unusable", fmt.Sprintf("user %d, step %d: a call on a held connection to a running server fails: %v", u, i, err)
						return
					}
					if no != s.Addr {
						kind[u], msg[u] = "mixed-up", fmt.Sprintf("user %d, step %d: a connection to address %d reaches server %d", u, i, s.Addr, no)
						return
					}
				}
				if x.Conn.GetState() == connectivity.Shutdown {
					kind[u], msg[u] = "closed-in-use", fmt.Sprintf("user %d, step %d: the held connection was shut down", u, i)
					return
				}
				cc.Put(x)
			}
		}()
	}
	close(begin)
	wg.Wait()
	close(stop)
	gc.Wait()
	seen.Range(func(k, _ any) bool {
		c.Cleanup(func() { k.(*util.Connection).Conn.Close() })
		return true
	})
	for u := range p.Users {
		if kind[u] != "" {
			c.Failf(kind[u], "%s", msg[u])
		}
	}
	c.LabelIf(len(p.Users) > 20, "more-than-20-users")
	c.NonTrivialIf(len(p.Users) > 1)
}

func TestProperty(t *testing.T) {
	vk.Main(t,
		vk.Sub("history", 1500, 20000, false, genHistory, runHistory).Confirm(3),
		vk.Sub("many", 24, 600, false, genMany, runHistory).Confirm(3),
		vk.Sub("concurrent", 600, 8000, false, genConc, runConc).Retries(20).SlowLog(),
	)
}

package util

import (
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
)

func init() { log.SetOutput(ioutil.Discard) }

func verifFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	fmt.Printf("REPLAY-FAIL: "+f+"\n", a...)
	t.Fatalf(f, a...)
}

// a connection to a server that answers, connected (Ready) or not yet (Idle)
func verifConn(t *testing.T, address string, ready bool) *Connection {
	conn, err := grpc.Dial(address, grpc.WithInsecure())
	if err != nil {
		t.Skip(err)
	}
	if ready {
		for i := 0; i < 300 && conn.GetState() != connectivity.Ready; i++ {
			if i%20 == 0 {
				conn.Connect()
			}
			time.Sleep(10 * time.Millisecond)
		}
		if conn.GetState() != connectivity.Ready {
			t.Skip("no connection")
		}
	}
	return &Connection{Address: address, Conn: conn}
}

func TestVerifC21(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 1))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	srv := grpc.NewServer()
	go srv.Serve(l)
	defer srv.Stop()
	address := l.Addr().String()

	// attempts are bounded: every connection the pool can give is shut down, nil, or has no connection
	for kind := 0; kind < 4; kind++ {
		var news int64
		cp := NewConnectionPool(address)
		cp.Pool.New = func() interface{} {
			if atomic.AddInt64(&news, 1) > 1000 {
				panic("verif: more than 1000 attempts")
			}
			switch kind {
			case 0:
				c := verifConn(t, address, false)
				c.Conn.Close()
				return c
			case 1:
				return (*Connection)(nil)
			case 2:
				return &Connection{Address: address}
			}
			return nil
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					verifFail(t, "a pool whose connections are all unusable (kind %d): more than 1000 attempts to get one", kind)
				}
			}()
			if c := cp.Get(); c != nil && (c.Conn == nil || c.Conn.GetState() == connectivity.Shutdown) {
				verifFail(t, "a pool whose connections are all unusable (kind %d): Get returns one", kind)
			}
		}()
		if news > 16 {
			verifFail(t, "a pool whose connections are all unusable (kind %d): %d attempts to get one", kind, news)
		}
	}

	// the pool never runs dry of its own: what comes out is open, to the address, and counted
	for round := 0; round < 60; round++ {
		cp := NewConnectionPool(address)
		var trace []string
		var conns []*Connection
		for op := 0; op < 25; op++ {
			switch r.Intn(6) {
			case 0: // a pooled connection that has been shut down since
				c := verifConn(t, address, false)
				c.Counter = int64(r.Intn(30))
				cp.Put(c)
				c.Conn.Close()
				conns = append(conns, c)
				trace = append(trace, "pool a closed connection")
			case 1:
				c := verifConn(t, address, false)
				c.Counter = int64(r.Intn(30))
				cp.Put(c)
				conns = append(conns, c)
				trace = append(trace, fmt.Sprintf("pool an open connection with use count %d", c.Counter))
			default:
				before := map[*Connection]int64{}
				for _, c := range conns {
					before[c] = c.Counter
				}
				c := cp.Get()
				trace = append(trace, "get")
				if c == nil {
					continue
				}
				if c.Conn == nil || c.Conn.GetState() == connectivity.Shutdown {
					verifFail(t, "%v: a closed connection is handed out", trace)
				}
				if c.Address != address || c.Conn.Target() != address {
					verifFail(t, "%v: a connection to %q is handed out, asked for %q", trace, c.Address, address)
				}
				if c.Counter != before[c]+1 {
					verifFail(t, "%v: the use count is %d, it was %d", trace, c.Counter, before[c])
				}
				for _, d := range conns {
					if d != c && d.Counter != before[d] {
						verifFail(t, "%v: the use count of another connection changed", trace)
					}
				}
				if _, ok := before[c]; !ok {
					conns = append(conns, c)
				}
			}
		}
		// a closed pool opens nothing
		cp.CloseAll()
		known := map[*Connection]bool{}
		for _, c := range conns {
			known[c] = true
		}
		for i := 0; i < 5; i++ {
			if c := cp.Get(); c != nil && !known[c] {
				verifFail(t, "%v, then the pool is closed: a new connection is handed out", trace)
			}
			if c := cp.NewConnection(address); c != nil {
				verifFail(t, "%v, then the pool is closed: a new connection is opened", trace)
			}
		}
		for _, c := range conns {
			c.Close()
		}
	}

	// a returned connection
	in := func(cp *ConnectionPool, c *Connection) bool {
		for i := 0; i < 50; i++ {
			x := cp.Pool.Get()
			if x == nil {
				return false
			}
			if d, ok := x.(*Connection); ok && d == c {
				return true
			}
		}
		return false
	}
	for round := 0; round < 40; round++ {
		cp := NewConnectionPool(address)
		cp.Pool = &sync.Pool{} // only what is put
		kind := round % 4
		var c *Connection
		switch kind {
		case 0:
			c = verifConn(t, address, true)
		case 1:
			c = verifConn(t, address, false)
		case 2:
			c = verifConn(t, address, false)
			c.Conn.Close()
		case 3:
			c = &Connection{Address: address}
			if round%8 == 7 {
				c = nil
			}
		}
		if c != nil {
			c.Counter = int64(r.Intn(40))
		}
		state := connectivity.State(-1)
		if c != nil && c.Conn != nil {
			state = c.Conn.GetState()
		}
		cp.PutIfHealthy(c)
		switch {
		case state == connectivity.Ready:
			if c.Conn.GetState() == connectivity.Shutdown {
				verifFail(t, "a healthy connection with use count %d is returned: it is closed", c.Counter)
			}
			if !in(cp, c) {
				verifFail(t, "a healthy connection with use count %d is returned: it is not pooled", c.Counter)
			}
		case state >= 0:
			if in(cp, c) {
				verifFail(t, "a connection in state %v is returned: it is pooled", state)
			}
			if c.Conn.GetState() != connectivity.Shutdown {
				verifFail(t, "a connection in state %v is returned: it is not closed", state)
			}
		default:
			if x := cp.Pool.Get(); x != nil {
				verifFail(t, "something without a connection is returned: it is pooled")
			}
		}
	}

	// the cache: one pool per address
	l2, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	go srv.Serve(l2)
	addrs := []string{address, l2.Addr().String()}
	cc := NewConnectionCache()
	var trace []string
	for op := 0; op < 200; op++ {
		a := addrs[r.Intn(2)]
		c := cc.Get(a)
		if c == nil {
			continue
		}
		trace = append(trace, "get "+a)
		if c.Address != a || c.Conn.Target() != a {
			verifFail(t, "%v: a connection to %q", trace, c.Conn.Target())
		}
		if c.Conn.GetState() == connectivity.Shutdown {
			verifFail(t, "%v: a closed connection is handed out", trace)
		}
		n := c.Counter
		if n < 1 {
			verifFail(t, "%v: use count %d", trace, n)
		}
		switch r.Intn(3) {
		case 0:
			trace = append(trace, "put")
			st := c.Conn.GetState()
			cc.Put(c)
			if c.Counter != n-1 {
				verifFail(t, "%v: the use count is %d, it was %d", trace, c.Counter, n)
			}
			if st == connectivity.Ready && c.Conn.GetState() == connectivity.Shutdown {
				verifFail(t, "%v: a connection in state %v is then in state %v", trace, st, c.Conn.GetState())
			}
		case 1:
			c.Conn.Connect()
			time.Sleep(3 * time.Millisecond)
		}
	}
}

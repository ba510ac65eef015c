package server

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// vpListener hands out the connections and errors that the test gives it.
type vpListener struct {
	in     chan interface{} // net.Conn or error
	done   chan struct{}
	once   sync.Once
	closes int32
	waits  int32 // calls of Accept
}

func vpNewListener() *vpListener {
	return &vpListener{in: make(chan interface{}, 1000), done: make(chan struct{})}
}

func init() { rand.Seed(time.Now().UnixNano()) }

var errVPClosed = errors.New("accept: use of closed network connection")

func (l *vpListener) Accept() (net.Conn, error) {
	atomic.AddInt32(&l.waits, 1)
	select {
	case <-l.done:
		return nil, errVPClosed
	case v := <-l.in:
		if e, ok := v.(error); ok {
			return nil, e
		}
		return v.(net.Conn), nil
	}
}
func (l *vpListener) Close() error {
	atomic.AddInt32(&l.closes, 1)
	l.once.Do(func() { close(l.done) })
	return nil
}
func (l *vpListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (l *vpListener) closed() bool   { return vpChanClosed(l.done) }

// vpPipe is a connection whose other side says nothing.
type vpPipe struct {
	net.Conn
	peer   net.Conn
	once   sync.Once
	done   chan struct{}
	closes int32
	reads  int32
	active int32
	twice  int32
}

func vpNewPipe() *vpPipe {
	a, b := net.Pipe()
	return &vpPipe{Conn: a, peer: b, done: make(chan struct{})}
}

func (c *vpPipe) Read(b []byte) (int, error) {
	atomic.AddInt32(&c.reads, 1)
	if atomic.AddInt32(&c.active, 1) > 1 {
		atomic.StoreInt32(&c.twice, 1)
	}
	defer atomic.AddInt32(&c.active, -1)
	return c.Conn.Read(b)
}
func (c *vpPipe) Close() error {
	atomic.AddInt32(&c.closes, 1)
	c.once.Do(func() { close(c.done) })
	return c.Conn.Close()
}
func (c *vpPipe) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2}
}
func (c *vpPipe) closed() bool { return vpChanClosed(c.done) }

// vpNetErr is a network error.
type vpNetErr struct {
	temp bool
	n    int
}

func (e *vpNetErr) Error() string   { return fmt.Sprintf("network error %d", e.n) }
func (e *vpNetErr) Timeout() bool   { return e.n%2 == 0 }
func (e *vpNetErr) Temporary() bool { return e.temp }

// vpFreeAddr returns an address that nobody uses, with a port that is not handed out to others.
func vpFreeAddr() string {
	for n := 0; n < 1000; n++ {
		a := fmt.Sprintf("127.0.0.1:%d", 10000+rand.Intn(20000))
		if ln, err := net.Listen("tcp", a); err == nil {
			ln.Close()
			return a
		}
	}
	panic("harness: no free port")
}

// vpListens tells whether somebody listens on the address.
func vpListens(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// vpErr returns the result of f, or an error that says that it does not end.
func vpErr(f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- f() }()
	select {
	case err := <-ch:
		return err
	case <-time.After(vpPatience):
		return errors.New("[the call does not return]")
	}
}

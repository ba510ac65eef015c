COMMON='''
package server

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = errors.New
var _ sync.Mutex

type demoStore struct{ url string }

func (d *demoStore) Get() (*Config, error)                                       { return &Config{DatabaseURL: d.url}, nil }
func (d *demoStore) Subscribe(ch chan<- *Config, c ...ConfigChangedCheckFn) error { return nil }
func (d *demoStore) Unsubscribe(ch chan<- *Config)                               {}

// demoListener hands out connections and errors.
type demoListener struct {
	in       chan interface{}
	done     chan struct{}
	once     sync.Once
	closeErr error
}

func newDemoListener() *demoListener {
	return &demoListener{in: make(chan interface{}, 100), done: make(chan struct{})}
}

func (l *demoListener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, errors.New("use of closed network connection")
	case v := <-l.in:
		if e, ok := v.(error); ok {
			return nil, e
		}
		return v.(net.Conn), nil
	}
}

func (l *demoListener) Close() error {
	l.once.Do(func() { close(l.done) })
	return l.closeErr
}

func (l *demoListener) Addr() net.Addr { return &net.TCPAddr{} }

type demoNetErr struct{ temporary, timeout bool }

func (e *demoNetErr) Error() string   { return "demo" }
func (e *demoNetErr) Timeout() bool   { return e.timeout }
func (e *demoNetErr) Temporary() bool { return e.temporary }

type demoPipe struct {
	net.Conn
	peer net.Conn
	once sync.Once
	done chan struct{}
	read chan struct{}
	r    sync.Once
}

func newDemoPipe() *demoPipe {
	a, b := net.Pipe()
	return &demoPipe{Conn: a, peer: b, done: make(chan struct{}), read: make(chan struct{})}
}
func (c *demoPipe) Read(b []byte) (int, error) {
	c.r.Do(func() { close(c.read) })
	return c.Conn.Read(b)
}
func (c *demoPipe) Close() error {
	c.once.Do(func() { close(c.done) })
	return c.Conn.Close()
}
func (c *demoPipe) RemoteAddr() net.Addr { return &net.TCPAddr{} }

func demoWait(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	case <-time.After(3 * time.Second):
		return false
	}
}

func demoEventually(f func() bool) bool {
	for i := 0; i < 400; i++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func demoListens(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

func demoFree(host string) string {
	ln, err := net.Listen("tcp", host+":0")
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	return ln.Addr().String()
}
'''

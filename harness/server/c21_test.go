package server

import (
	"errors"
	"fmt"
	"sync/atomic"
	"testing"
)

func TestVP_C21(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(150); i++ {
		what := fmt.Sprintf("accepting, run %d", i)
		v.guard(func() string { return what }, func() { vpAccepting(v, what) })
	}
}

func vpAccepting(v *vp, what string) {
	srv := NewServer(&vpStore{cfg: &Config{DatabaseURL: "postgres://u@127.0.0.1:1/db"}})
	defer srv.Close()
	l := vpNewListener()
	served := make(chan error, 1)
	var conns []*vpPipe
	hist := ""
	n := v.r.Intn(12)
	if v.r.Intn(15) == 0 {
		n = 40 + v.r.Intn(40)
	}
	for j := n; j > 0; j-- {
		switch v.r.Intn(4) {
		case 0:
			l.in <- &vpNetErr{true, v.r.Intn(10)}
			hist += " temporary"
		case 1:
			l.in <- fmt.Errorf("accepting: %w", &vpNetErr{true, v.r.Intn(10)})
			hist += " wrapped-temporary"
		default:
			c := vpNewPipe()
			conns = append(conns, c)
			l.in <- c
			hist += " conn"
		}
	}
	go func() { served <- srv.Serve(l) }()
	// all are being served at the same time
	for _, c := range conns {
		c := c
		if !vpEventually(func() bool { return atomic.LoadInt32(&c.reads) > 0 || c.closed() }) {
			v.fail("%s (%s): a connection is not served while others are", what, hist)
			return
		}
		if c.closed() {
			v.fail("%s (%s): a connection was closed rather than served", what, hist)
		}
	}
	var last error
	switch v.r.Intn(4) {
	case 0:
		last = &vpNetErr{false, v.r.Intn(10)}
	case 1:
		last = fmt.Errorf("accepting: %w", &vpNetErr{false, 3})
	case 2:
		last = errors.New("use of closed network connection")
	default:
		last = errors.New("temporary failure that is none")
	}
	select {
	case err := <-served:
		v.fail("%s (%s): Serve ended with %v", what, hist, err)
		return
	default:
	}
	l.in <- last
	if err := vpErr(func() error { return <-served }); err != last {
		v.fail("%s (%s): Serve returns %v instead of %v", what, hist, err, last)
	}
	for _, c := range conns {
		if atomic.LoadInt32(&c.twice) != 0 {
			v.fail("%s (%s): a connection is served twice", what, hist)
		}
		c.peer.Close()
	}
	for _, c := range conns {
		if !vpEventually(c.closed) {
			v.fail("%s (%s): a connection is left open after its session", what, hist)
		}
	}
	if !vpEventually(func() bool { srv.mu.Lock(); defer srv.mu.Unlock(); return len(srv.sessions) == 0 }) {
		v.fail("%s (%s): sessions that ended are still registered", what, hist)
	}
}

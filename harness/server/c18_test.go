package server

import (
	"fmt"
	"net"
	"testing"
	"time"
)

func TestVP_C18(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(60); i++ {
		what := fmt.Sprintf("history %d", i)
		v.guard(func() string { return what }, func() { vpLife(v, what) })
	}
	for i := 0; i < 6; i++ {
		closedFirst := i%2 == 0
		what := fmt.Sprintf("Start without a configuration store, closed before %v", closedFirst)
		v.guard(func() string { return what }, func() {
			src := make(chan *Config, 1)
			d := NewConfigDistributor(src)
			if !closedFirst {
				src <- &Config{Listen: "127.0.0.1:0"}
			} else if i%4 == 0 {
				close(src)
				_, _ = d.Get()
			} else {
				d.Close()
			}
			srv := NewServer(d)
			errs := make(chan error, 1)
			go func() { errs <- srv.Start() }()
			if !closedFirst {
				vpEventually(func() bool { return srv.start.HasFired() })
				time.Sleep(time.Millisecond)
				d.Close()
				time.Sleep(time.Millisecond)
				_ = srv.Close()
			}
			if err := vpErr(func() error { return <-errs }); err == nil {
				v.fail("%s: Start returns success", what)
			} else if closedFirst && err != ErrConfigDistributorClosed {
				v.fail("%s: Start returns %v", what, err)
			}
			_ = srv.Close()
		})
		// the server is closed while it starts to serve a connection
		what = fmt.Sprintf("closing the server when ServeConn asks for the address, run %d", i)
		v.guard(func() string { return what }, func() {
			d := NewConfigDistributor(make(chan *Config))
			defer d.Close()
			srv := NewServer(d)
			p := vpNewPipe()
			calls := i / 2
			c := &vpAddrConn{vpPipe: p, f: func() {
				if calls == 0 {
					_ = srv.Close()
				}
				calls--
			}}
			errs := make(chan error, 1)
			go func() { errs <- srv.ServeConn(c) }()
			time.Sleep(2 * time.Millisecond)
			early := calls < 0
			_ = srv.Close()
			err := vpErr(func() error { return <-errs })
			if early && err != ErrServerClosed {
				v.fail("%s: it returns %v", what, err)
			}
			if err == nil {
				v.fail("%s: it returns success", what)
			}
			if !p.closed() {
				v.fail("%s: the connection is left open", what)
			}
		})
	}
}

type vpAddrConn struct {
	*vpPipe
	f func()
}

func (c *vpAddrConn) RemoteAddr() net.Addr { c.f(); return c.vpPipe.RemoteAddr() }

func vpLife(v *vp, what string) {
	src := make(chan *Config, 4)
	d := NewConfigDistributor(src)
	defer d.Close()
	if v.r.Intn(3) > 0 {
		src <- &Config{Listen: "127.0.0.1:0"}
	}
	srv := NewServer(d)
	starts := v.r.Intn(4)
	errs := make(chan error, 8)
	for j := 0; j < starts; j++ {
		go func() { errs <- srv.Start() }()
	}
	// all but one are refused while the server is open
	for j := 0; j+1 < starts; j++ {
		if err := vpErr(func() error { return <-errs }); err != ErrServerAlreadyStarted {
			v.fail("%s: one of %d calls of Start returns %v", what, starts, err)
			return
		}
	}
	ln := vpNewListener()
	served := make(chan error, 2)
	serve := v.r.Intn(2) == 0 && starts == 0
	c := vpNewPipe()
	if serve {
		go func() { served <- srv.Serve(ln) }()
		ln.in <- c
	}
	if starts > 1 && v.r.Intn(2) == 0 {
		if err := vpErr(srv.Start); err != ErrServerAlreadyStarted {
			v.fail("%s: starting again returns %v", what, err)
			return
		}
	}
	if err := vpErr(srv.Close); err != nil {
		v.fail("%s: Close returns %v", what, err)
	}
	if starts > 0 {
		if err := vpErr(func() error { return <-errs }); err != ErrServerClosed {
			v.fail("%s: Start of the closed server returns %v", what, err)
		}
	}
	if serve {
		if err := vpErr(func() error { return <-served }); err != ErrServerClosed && err != errVPClosed {
			v.fail("%s: Serve of the closed server returns %v", what, err)
		}
		if !ln.closed() {
			v.fail("%s: the listener is left open", what)
		}
	}
	for k := 0; k < 2; k++ {
		if err := vpErr(srv.Start); err != ErrServerClosed {
			v.fail("%s: Start of a closed server returns %v", what, err)
		}
		l2 := vpNewListener()
		if err := vpErr(func() error { return srv.Serve(l2) }); err != ErrServerClosed {
			v.fail("%s: Serve of a closed server returns %v", what, err)
		} else if !l2.closed() {
			v.fail("%s: a listener is left open by a closed server", what)
		}
		c2 := vpNewPipe()
		if err := vpErr(func() error { return srv.ServeConn(c2) }); err != ErrServerClosed {
			v.fail("%s: ServeConn of a closed server returns %v", what, err)
		} else if !c2.closed() {
			v.fail("%s: a connection is left open by a closed server", what)
		}
		if err := vpErr(srv.Close); err != nil {
			v.fail("%s: closing again returns %v", what, err)
		}
	}
}

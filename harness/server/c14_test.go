package server

import (
	"fmt"
	"testing"
	"time"
)

func TestVP_C14(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(60); i++ {
		what := fmt.Sprintf("configuration store, run %d", i)
		v.guard(func() string { return what }, func() {
			n := 1 + v.r.Intn(5)
			src := make(chan *Config)
			p := NewConfigDistributor(src)
			type res struct {
				c   *Config
				err error
			}
			first := make(chan res, 4)
			waiting := 1 + v.r.Intn(3)
			for j := 0; j < waiting; j++ {
				go func() { c, err := p.Get(); first <- res{c, err} }()
			}
			sub := make(chan *Config, n+1)
			if err := p.Subscribe(sub); err != nil {
				v.fail("%s: Subscribe: %v", what, err)
				return
			}
			time.Sleep(time.Duration(v.r.Intn(300)) * time.Microsecond)
			select {
			case r := <-first:
				v.fail("%s: Get returned %v, %v before there was a configuration", what, r.c, r.err)
				return
			default:
			}
			known := map[*Config]bool{}
			for j := 0; j < n; j++ {
				c := &Config{Listen: fmt.Sprint(j)}
				known[c] = true
				select {
				case src <- c:
				case <-time.After(vpPatience):
					v.fail("%s: the update %d is not received", what, j)
					return
				}
				// the update is published no later than the next one is received or the subscriber has it
				select {
				case <-sub:
				case <-time.After(vpPatience):
					v.fail("%s: the update %d is not delivered", what, j)
					return
				}
				var g *Config
				var err error
				if !vpWithin(func() { g, err = p.Get() }) {
					v.fail("%s: Get blocks although there is a configuration", what)
					return
				}
				if err != nil || g != c {
					v.fail("%s: after update %d Get returned %v, %v instead of it", what, j, g, err)
					return
				}
			}
			for j := 0; j < waiting; j++ {
				select {
				case r := <-first:
					if r.err != nil || r.c == nil || !known[r.c] {
						v.fail("%s: a waiting Get returned %v, %v", what, r.c, r.err)
					}
				case <-time.After(vpPatience):
					v.fail("%s: a waiting Get does not return", what)
					return
				}
			}
			p.Close()
			if c, err := p.Get(); err != ErrConfigDistributorClosed || c != nil {
				v.fail("%s: after Close, Get returned %v, %v", what, c, err)
			}
		})
	}
	// Get that waits is ended by Close
	v.guard(func() string { return "waiting Get" }, func() {
		p := NewConfigDistributor(make(chan *Config))
		res := make(chan error, 1)
		go func() { _, err := p.Get(); res <- err }()
		time.Sleep(5 * time.Millisecond)
		p.Close()
		select {
		case err := <-res:
			if err != ErrConfigDistributorClosed {
				v.fail("Get that waits while the store is closed returned the error %v", err)
			}
		case <-time.After(vpPatience):
			v.fail("Get still waits after the store has been closed")
		}
	})
}

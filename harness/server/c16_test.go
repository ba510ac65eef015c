package server

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
)

func vpMonitors() int {
	b := make([]byte, 4<<20)
	return strings.Count(string(b[:runtime.Stack(b, true)]), ".(*ConfigDistributor).monitorConfig(")
}

func TestVP_C16(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(60); i++ {
		what := fmt.Sprintf("closing the store, run %d", i)
		v.guard(func() string { return what }, func() {
			src := make(chan *Config)
			p := NewConfigDistributor(src)
			before := vpMonitors()
			n := 1 + v.r.Intn(4)
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				wg.Add(2)
				go func() { defer wg.Done(); _ = p.Subscribe(make(chan *Config, 100)) }()
				go func() { defer wg.Done(); _, _ = p.Get() }()
			}
			if v.r.Intn(2) == 0 {
				src <- &Config{Listen: "first"}
			}
			if v.r.Intn(2) == 0 {
				time.Sleep(time.Duration(v.r.Intn(200)) * time.Microsecond)
				if m := vpMonitors() - before; m > 1 {
					v.fail("%s: %d goroutines consume the source", what, m)
				}
			}
			bySource := v.r.Intn(2) == 0
			if bySource {
				_ = p.Subscribe(make(chan *Config, 100)) // the source is being watched
				close(src)
				if !vpEventually(p.closed.HasFired) {
					v.fail("%s: the store is not closed after its source has been closed", what)
					return
				}
				p.Close()
			} else {
				k := 1 + v.r.Intn(3)
				for j := 0; j < k; j++ {
					wg.Add(1)
					go func() { defer wg.Done(); p.Close() }()
				}
			}
			if !vpWithin(wg.Wait) {
				v.fail("%s: Close, Get or Subscribe does not return", what)
				return
			}
			if c, err := p.Get(); c != nil || err != ErrConfigDistributorClosed {
				v.fail("%s: Get of a closed store returned %v, %v", what, c, err)
			}
			if err := p.Subscribe(make(chan *Config, 1)); err != ErrConfigDistributorClosed {
				v.fail("%s: Subscribe to a closed store returned %v", what, err)
			}
			left := 0
			if !vpEventually(func() bool { p.mu.RLock(); left = len(p.subscriptions); p.mu.RUnlock(); return left == 0 }) {
				v.fail("%s: %d subscriptions are left after Close", what, left)
			}
			if !vpEventually(func() bool { return vpMonitors() <= before }) {
				v.fail("%s: the goroutine that consumes the source still runs after Close", what)
			}
		})
	}
	// Subscribe that races with Close: it holds the lock while it is between its checks and the registration
	v.guard(func() string { return "Subscribe racing with Close" }, func() {
		src := make(chan *Config)
		p := NewConfigDistributor(src)
		p.mu.RLock() // Subscribe and Close have to wait
		res := make(chan error, 1)
		go func() { res <- p.Subscribe(make(chan *Config, 1)) }()
		time.Sleep(5 * time.Millisecond)
		done := make(chan struct{})
		go func() { p.Close(); close(done) }()
		time.Sleep(5 * time.Millisecond)
		p.mu.RUnlock()
		<-res
		<-done
		p.mu.RLock()
		n := len(p.subscriptions)
		p.mu.RUnlock()
		if n != 0 {
			v.fail("a subscription is left although Close returned")
		}
	})
}

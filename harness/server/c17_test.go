package server

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestVP_C17(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(300); i++ {
		v.guard(func() string { return "event" }, func() {
			e := NewEvent()
			if e.HasFired() || vpChanClosed(e.Done()) {
				v.fail("a new event has fired: HasFired %v, done channel closed %v", e.HasFired(), vpChanClosed(e.Done()))
				return
			}
			n := 1 + i%8
			var wins int32
			var wg sync.WaitGroup
			start := make(chan struct{})
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							v.fail("Fire panics: %v", r)
						}
					}()
					<-start
					if e.Fire() {
						atomic.AddInt32(&wins, 1)
					}
					if !e.HasFired() || !vpChanClosed(e.Done()) {
						v.fail("after Fire returned: HasFired %v, done channel closed %v (%d concurrent calls)", e.HasFired(), vpChanClosed(e.Done()), n)
					}
				}()
			}
			close(start)
			if !vpWithin(wg.Wait) {
				v.fail("Fire does not return (%d concurrent calls)", n)
				return
			}
			if wins != 1 {
				v.fail("%d of %d concurrent calls of Fire were told that they fired the event", wins, n)
			}
			if e.Fire() || !e.HasFired() || !vpChanClosed(e.Done()) {
				v.fail("a later call of Fire fires the event again, or it does not stay fired")
			}
		})
	}
}

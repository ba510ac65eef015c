id="c17-cas"; prop="C17"; pkg="server"
edits=[("pkg/server/event.go","""	ret := false

	e.fireOnce.Do(func() {
		atomic.StoreInt32(&e.fired, 1)
		close(e.doneChan)
		ret = true
	})

	return ret
""","""	// Fast path: somebody has fired the event already
	if e.HasFired() {
		return false
	}

	ret := false

	e.fireOnce.Do(func() {
		atomic.StoreInt32(&e.fired, 1)
		close(e.doneChan)
		ret = true
	})

	return ret
""")]
needs="a second Fire between the store of the flag and the close of the channel of the first one"
breaks="Fire returns false although the done channel is not closed yet"
demo='''
package server

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var bad int32
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) && atomic.LoadInt32(&bad) == 0 {
		for k := 0; k < 200; k++ {
			e := NewEvent()
			var wg sync.WaitGroup
			var start int32
			for j := 0; j < 6; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for atomic.LoadInt32(&start) == 0 {
					}
					e.Fire()
					select {
					case <-e.Done():
					default:
						atomic.StoreInt32(&bad, 1)
					}
				}()
			}
			atomic.StoreInt32(&start, 1)
			wg.Wait()
		}
		if !testing.Short() && time.Until(end) < 20*time.Second {
			break
		}
	}
	if bad != 0 {
		t.Fatal("Fire has returned but the done channel is open")
	}
}
'''

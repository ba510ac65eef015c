package server

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ sync.Mutex
var _ = runtime.NumGoroutine
var _ *testing.T

const vpPatience = 20 * time.Second

// vpWithin tells whether f ends within the time limit.
func vpWithin(f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(vpPatience):
		return false
	}
}

func vpEventually(f func() bool) bool {
	for end := time.Now().Add(vpPatience); time.Now().Before(end); {
		if f() {
			return true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return false
}

func vpChanClosed(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// vpDrain returns what is in the channel.
func vpDrain(c chan *Config) (r []*Config) {
	for {
		select {
		case v := <-c:
			r = append(r, v)
		default:
			return
		}
	}
}

func vpSame(a, b []*Config) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vpNames(a []*Config) string {
	s := ""
	for _, c := range a {
		if c == nil {
			s += " nil"
		} else {
			s += " " + c.Listen
		}
	}
	return "[" + s + " ]"
}

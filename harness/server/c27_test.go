package server

// The scenarios of other properties, watched by the race detector; what they find out otherwise does not count here.
//
// also: c13_test.go c15_test.go c18_test.go c19_test.go c20_test.go c21_test.go
// race

import (
	"fmt"
	"testing"
)

func TestVP_C27(t *testing.T) {
	v := newVP(t)
	v.mute = true
	for i := 0; i < v.n(12); i++ {
		what := fmt.Sprintf("run %d", i)
		v.guard(func() string { return what }, func() {
			switch i % 6 {
			case 0:
				vpEnding(v, what, i)
			case 1:
				vpEarly(v, what)
			case 2:
				vpLife(v, what)
			case 3:
				vpShut(v, what, i%12 == 3)
			case 4:
				vpFollow(v, what, i%12 == 4)
			default:
				vpAccepting(v, what)
			}
		})
	}
	for i := 0; i < v.n(30); i++ {
		what := fmt.Sprintf("parameters, run %d", i)
		v.guard(func() string { return what }, func() {
			_, inner := vpPair()
			defer inner.Close()
			s := NewSession(inner, &vpStore{cfg: &Config{DatabaseURL: "postgres://u@127.0.0.1:1/db"}})
			done := make(chan bool)
			for j := 0; j < 4; j++ {
				go func() {
					_, _ = s.getDBConnnectionParam("host")
					done <- true
				}()
			}
			for j := 0; j < 4; j++ {
				<-done
			}
		})
	}
	for i := 0; i < v.n(30); i++ {
		what := fmt.Sprintf("store, run %d", i)
		v.guard(func() string { return what }, func() {
			src := make(chan *Config)
			d := NewConfigDistributor(src)
			done := make(chan bool)
			for j := 0; j < 4; j++ {
				go func() {
					ch := make(chan *Config, 100)
					_, _ = d.Get()
					_ = d.Subscribe(ch)
					_, _ = d.Get()
					d.Unsubscribe(ch)
					done <- true
				}()
			}
			for j := 0; j < 10; j++ {
				src <- &Config{Listen: fmt.Sprint(j)}
			}
			for j := 0; j < 4; j++ {
				<-done
			}
			d.Close()
			_, _ = d.Get()
		})
	}
}

package server

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"testing"
	"time"
)

func TestVP_C20(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(40); i++ {
		what := fmt.Sprintf("updates, run %d", i)
		i := i
		v.guard(func() string { return what }, func() {
			if i%4 == 3 {
				defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
			}
			vpFollow(v, what, i%2 == 1)
		})
	}
}

// vpRelated: two free addresses, one of which is a prefix of the other, or that differ only in the host.
func vpRelated() (string, string) {
	for p := 2000 + rand.Intn(4000); p < 6500; p++ {
		short, long := fmt.Sprintf("127.0.0.1:%d", p), fmt.Sprintf("127.0.0.1:%d%d", p, p%10)
		if p%3 == 0 {
			long = fmt.Sprintf("127.0.0.2:%d", p)
		}
		a, e1 := net.Listen("tcp", short)
		b, e2 := net.Listen("tcp", long)
		if e1 == nil {
			a.Close()
		}
		if e2 == nil {
			b.Close()
		}
		if e1 == nil && e2 == nil {
			return short, long
		}
	}
	return vpFreeAddr(), vpFreeAddr()
}

func vpCurrent(srv *Server) net.Listener {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	return srv.listener
}

func vpFollow(v *vp, what string, burst bool) {
	taken, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer taken.Close()
	src := make(chan *Config, 20)
	d := NewConfigDistributor(src)
	defer d.Close()
	srv := NewServer(d)
	done := make(chan error, 1)
	go func() { done <- srv.Start() }()
	defer func() {
		srv.Close()
		if err := vpErr(func() error { return <-done }); err != ErrServerClosed {
			v.fail("%s: Start returns %v", what, err)
		}
	}()
	short, long := vpRelated()
	good := []string{vpFreeAddr(), short, long, "127.0.0.1:0"}
	bad := []string{"127.0.0.1:notaport", "", taken.Addr().String(), "127.0.0.1:99999"}
	bad[1] = "127.0.0.1:-1"
	cur, want := "", ""
	var ln net.Listener
	hist := ""
	for j := 0; j < 6; j++ {
		a := good[v.r.Intn(len(good))]
		if v.r.Intn(3) == 0 {
			a = bad[v.r.Intn(len(bad))]
		}
		if v.r.Intn(4) == 0 && cur != "" {
			a = cur
		}
		hist += " " + a
		changed := a != cur
		cur = a
		ok := true
		for _, b := range bad {
			ok = ok && a != b
		}
		src <- &Config{Listen: a, DatabaseURL: fmt.Sprint(j)}
		prev := want
		if ok {
			want = a
		}
		if burst && j < 5 {
			continue
		}
		if want == "" {
			continue
		}
		relisten := ok && changed && prev != a
		if want == "127.0.0.1:0" {
			if burst {
				continue
			}
			if relisten && !vpEventually(func() bool { return vpCurrent(srv) != nil && vpCurrent(srv) != ln }) {
				v.fail("%s: after the updates%s the listener has not changed", what, hist)
				return
			}
		} else if !vpEventually(func() bool { l := vpCurrent(srv); return l != nil && l.Addr().String() == want }) {
			got := "nothing"
			if l := vpCurrent(srv); l != nil {
				got = l.Addr().String()
			}
			v.fail("%s: after the updates%s the server listens on %s", what, hist, got)
			return
		}
		time.Sleep(2 * time.Millisecond)
		l := vpCurrent(srv)
		if !burst && !changed && ln != nil && l != ln {
			v.fail("%s: the last of the updates%s does not change the address, the listener was changed", what, hist)
		}
		if !burst && !ok && ln != nil && l != ln {
			v.fail("%s: the last of the updates%s is not usable, the listener was changed", what, hist)
		}
		if l == nil || !vpListens(l.Addr().String()) {
			v.fail("%s: after the updates%s the current listener does not work", what, hist)
			return
		}
		if prev != "" && prev != want && prev != "127.0.0.1:0" && !burst {
			p := prev
			if !vpEventually(func() bool { return !vpListens(p) }) {
				v.fail("%s: after the updates%s the previous listener is still open", what, hist)
			}
		}
		ln = l
	}
}

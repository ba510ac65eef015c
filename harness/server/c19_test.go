package server

import (
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func vpGoroutinesIn(what string) int {
	b := make([]byte, 4<<20)
	n := 0
	for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.Contains(g, what) {
			n++
		}
	}
	return n
}

func TestVP_C19(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(250); i++ {
		what := fmt.Sprintf("closing the server, run %d", i)
		v.guard(func() string { return what }, func() { vpShut(v, what, i%2 == 0) })
	}
	for i := 0; i < v.n(20); i++ {
		what := fmt.Sprintf("sessions of an open server, run %d", i)
		v.guard(func() string { return what }, func() { vpTracked(v, what) })
	}
	for i := 0; i < v.n(20); i++ {
		what := fmt.Sprintf("closing the server just after it accepted a connection, run %d", i)
		v.guard(func() string { return what }, func() { vpBetween(v, what) })
	}
	for i := 0; i < v.n(200); i++ {
		what := fmt.Sprintf("closing the server right after accepting, run %d", i)
		v.guard(func() string { return what }, func() { vpJustAccepted(v, what) })
	}
}

// vpHooked calls f in the second call of Accept.
type vpHooked struct {
	*vpListener
	n int
	f func()
}

func (l *vpHooked) Accept() (net.Conn, error) {
	if l.n++; l.n == 2 {
		l.f()
	}
	return l.vpListener.Accept()
}

// vpBetween: the server is closed between accepting a connection and the first step of the goroutine that serves it.
func vpBetween(v *vp, what string) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	srv := NewServer(&vpStore{cfg: &Config{DatabaseURL: "postgres://u@127.0.0.1:1/db"}})
	c := vpNewPipe()
	l := &vpHooked{vpListener: vpNewListener()}
	open := false
	l.f = func() {
		srv.Close()
		open = !c.closed()
	}
	l.in <- c
	served := make(chan struct{})
	go func() { _ = srv.Serve(l); close(served) }()
	if !vpWithin(func() { <-served }) {
		v.fail("%s: Serve or Close does not return", what)
		return
	}
	if open {
		v.fail("%s: Close has not waited for the goroutine that serves the connection", what)
	}
	if !vpEventually(c.closed) {
		v.fail("%s: the connection is left open", what)
	}
}

// vpStubborn is a connection that tells that it cannot be closed.
type vpStubborn struct{ *vpPipe }

func (c *vpStubborn) Close() error {
	c.vpPipe.Close()
	return fmt.Errorf("vp: cannot be closed")
}

// vpTracked: sessions that ended, in whatever way, are not tracked; the others are closed by Close even if closing some
// of them fails.
func vpTracked(v *vp, what string) {
	srv := NewServer(&vpStore{cfg: &Config{DatabaseURL: "postgres://u@127.0.0.1:1/db"}})
	type run struct {
		c    *vpPipe
		done chan struct{}
	}
	var rs []run
	for k := 2 + v.r.Intn(5); k > 0; k-- {
		r := run{vpNewPipe(), make(chan struct{})}
		rs = append(rs, r)
		var c net.Conn = r.c
		if v.r.Intn(2) == 0 {
			c = &vpStubborn{r.c}
		}
		go func() { defer close(r.done); _ = srv.ServeConn(c) }()
	}
	for _, r := range rs {
		r := r
		vpEventually(func() bool { return atomic.LoadInt32(&r.c.reads) > 0 })
	}
	tracked := func() int { srv.mu.Lock(); defer srv.mu.Unlock(); return len(srv.sessions) }
	left := len(rs)
	for i, r := range rs {
		switch v.r.Intn(4) {
		case 0:
			r.c.peer.Close() // the client hangs up
		case 1:
			r.c.Conn.Close() // the connection breaks
		case 2:
			go r.c.peer.Write([]byte{0, 0, 0, 9, 1, 2, 3, 4, 5, 6, 7, 8, 9}) // not a startup message
			go io.Copy(ioutil.Discard, r.c.peer)
		default:
			continue
		}
		done := r.done
		if !vpWithin(func() { <-done }) {
			v.fail("%s: ServeConn %d does not return", what, i)
			return
		}
		left--
		if !vpEventually(func() bool { return tracked() == left }) {
			v.fail("%s: %d sessions are tracked, %d have not ended", what, tracked(), left)
			return
		}
	}
	if !vpWithin(func() { srv.Close() }) {
		v.fail("%s: Close does not return", what)
		return
	}
	for i, r := range rs {
		c := r.c
		if !vpEventually(c.closed) {
			v.fail("%s: connection %d of %d is left open by Close", what, i, len(rs))
		}
	}
}

// vpLate is a connection whose session takes its time to look at it.
type vpLate struct {
	*vpPipe
	asked  chan struct{}
	inside int32
	once   sync.Once
}

func (c *vpLate) RemoteAddr() net.Addr {
	c.once.Do(func() { close(c.asked) })
	atomic.AddInt32(&c.inside, 1)
	time.Sleep(50 * time.Microsecond)
	atomic.AddInt32(&c.inside, -1)
	return c.vpPipe.RemoteAddr()
}

// vpJustAccepted: no goroutine of the server looks at a connection after Close has returned.
func vpJustAccepted(v *vp, what string) {
	srv := NewServer(&vpStore{cfg: &Config{DatabaseURL: "postgres://u@127.0.0.1:1/db"}})
	l := vpNewListener()
	c := &vpLate{vpPipe: vpNewPipe(), asked: make(chan struct{})}
	l.in <- c
	served := make(chan struct{})
	go func() { _ = srv.Serve(l); close(served) }()
	for len(l.in) > 0 {
		runtime.Gosched()
	}
	for k := v.r.Intn(3); k > 0; k-- {
		runtime.Gosched()
	}
	if !vpWithin(func() { srv.Close() }) {
		v.fail("%s: Close does not return", what)
		return
	}
	running := atomic.LoadInt32(&c.inside) > 0
	select {
	case <-c.asked:
	default:
		time.Sleep(300 * time.Microsecond)
		running = running || atomic.LoadInt32(&c.inside) > 0
	}
	if running {
		v.fail("%s: a goroutine of the server runs after Close has returned", what)
	}
	if !vpWithin(func() { <-served }) {
		v.fail("%s: Serve does not return", what)
	}
	if !vpEventually(c.closed) {
		v.fail("%s: the connection is left open", what)
	}
}

func vpShut(v *vp, what string, direct bool) {
	srv := NewServer(&vpStore{cfg: &Config{DatabaseURL: "postgres://u@127.0.0.1:1/db"}})
	var lns []*vpListener
	var conns []*vpPipe
	var wg sync.WaitGroup
	nl := 1 + v.r.Intn(3)
	var before []*vpPipe
	for j := 0; j < nl; j++ {
		l := vpNewListener()
		lns = append(lns, l)
		for k := v.r.Intn(6); k > 0; k-- {
			c := vpNewPipe()
			conns = append(conns, c)
			l.in <- c
		}
	}
	var more []*vpPipe
	for k := v.r.Intn(6); direct && k > 0; k-- {
		c := vpNewPipe()
		more = append(more, c)
	}
	for _, l := range lns {
		l := l
		wg.Add(1)
		go func() { defer wg.Done(); _ = srv.Serve(l) }()
	}
	for _, c := range more {
		c := c
		wg.Add(1)
		go func() { defer wg.Done(); _ = srv.ServeConn(c) }()
	}
	// some sessions end by themselves
	for _, c := range conns {
		if v.r.Intn(4) == 0 {
			c.peer.Close()
		}
	}
	switch v.r.Intn(3) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(v.r.Intn(300)) * time.Microsecond)
	}
	_ = before
	n := 1 + v.r.Intn(2)
	var cg sync.WaitGroup
	for j := 0; j < n; j++ {
		cg.Add(1)
		go func() { defer cg.Done(); srv.Close() }()
	}
	if !vpWithin(cg.Wait) {
		v.fail("%s: Close does not return", what)
		return
	}
	if !direct {
		if k := vpGoroutinesIn(".(*Server).ServeConn("); k > 0 {
			v.fail("%s: %d goroutines of the server are still running after Close", what, k)
		}
	}
	if !vpWithin(wg.Wait) {
		v.fail("%s: Serve or ServeConn does not return", what)
		return
	}
	for j, l := range lns {
		if !l.closed() {
			v.fail("%s: listener %d of %d is left open", what, j, len(lns))
		}
	}
	for _, c := range more {
		if !c.closed() {
			v.fail("%s: a connection being served is left open", what)
		}
	}
	taken := map[*vpPipe]bool{}
	for _, c := range conns {
		taken[c] = true
	}
	for _, l := range lns {
	drain:
		for {
			select {
			case x := <-l.in:
				delete(taken, x.(*vpPipe))
			default:
				break drain
			}
		}
	}
	for c := range taken {
		c := c
		if !vpEventually(c.closed) {
			v.fail("%s: an accepted connection is left open", what)
		}
	}
	if err := srv.Close(); err != nil {
		v.fail("%s: closing again returns %v", what, err)
	}
	if k := len(srv.sessions); k != 0 {
		v.fail("%s: %d sessions are still registered", what, k)
	}
}

package server

import (
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

func vpSessionGoroutines() int {
	b := make([]byte, 4<<20)
	n := 0
	for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.Contains(g, ".(*Session).") {
			n++
		}
	}
	return n
}

func TestVP_C13(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(80); i++ {
		mode := i % 8
		what := fmt.Sprintf("ending a session, run %d, way %d", i, mode)
		v.guard(func() string { return what }, func() { vpEnding(v, what, mode) })
	}
	for i := 0; i < v.n(40); i++ {
		what := fmt.Sprintf("closing a session that is being established, run %d", i)
		v.guard(func() string { return what }, func() { vpEarly(v, what) })
	}
	for i := 0; i < 2; i++ {
		what := fmt.Sprintf("closing a session whose database does not accept the connection, run %d", i)
		v.guard(func() string { return what }, func() { vpUnreachable(v, what) })
	}
	if !vpEventually(func() bool { return vpSessionGoroutines() == 0 }) {
		v.fail("%d goroutines of sessions are left", vpSessionGoroutines())
	}
}

func vpHungUp(c net.Conn) bool {
	_ = c.SetReadDeadline(time.Now().Add(vpPatience))
	b := make([]byte, 4096)
	for {
		if _, err := c.Read(b); err != nil {
			ne, ok := err.(net.Error)
			return !ok || !ne.Timeout()
		}
	}
}

func vpEnding(v *vp, what string, mode int) {
	p := v.established()
	if p == nil {
		return
	}
	defer p.close()
	// some traffic; the parties read unless the session is going to be closed
	var wg sync.WaitGroup
	stop := make(chan bool)
	for _, t := range []struct {
		c net.Conn
		m []byte
	}{{p.client, v.messages(true, 20)}, {p.database, v.messages(false, 20)}} {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 8; j++ {
				select {
				case <-stop:
					return
				default:
				}
				if mode == 2 || mode == 3 {
					_ = t.c.SetWriteDeadline(time.Now().Add(50 * time.Millisecond))
				} else {
					_ = t.c.SetWriteDeadline(time.Now().Add(vpPatience))
				}
				if _, err := t.c.Write(t.m); err != nil {
					return
				}
			}
		}()
	}
	ends := make(chan string, 2)
	watch := func(c net.Conn, what string) {
		if !vpHungUp(c) {
			ends <- what
		} else {
			ends <- ""
		}
	}
	watchBoth := func() {
		go watch(p.client, "the client's connection is not closed")
		go watch(p.database, "the connection to the database is not closed")
	}
	closing := mode == 2 || mode == 3
	if !closing {
		watchBoth()
	}
	time.Sleep(time.Duration(v.r.Intn(3)) * time.Millisecond)
	malformed := vpMsg('D', nil)
	malformed[4] = 1
	switch mode {
	case 0:
		p.client.Close()
	case 1:
		p.database.Close()
	case 2:
		p.s.Close()
	case 3:
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); p.s.Close() }()
		}
	case 4:
		close(stop)
		wg.Wait()
		stop = nil
		vpWrite(p.client, malformed)
	case 5:
		close(stop)
		wg.Wait()
		stop = nil
		vpWrite(p.database, malformed)
	case 6:
		_ = p.client.(*net.TCPConn).SetLinger(0)
		p.client.Close()
	case 7:
		wg.Add(2)
		go func() { defer wg.Done(); p.s.Close() }()
		go func() { defer wg.Done(); p.client.Close() }()
	}
	if stop != nil {
		close(stop)
	}
	if closing {
		watchBoth()
	}
	for n := 0; n < 2; n++ {
		if e := <-ends; e != "" {
			v.fail("%s: %s", what, e)
		}
	}
	err, ok := p.ended(vpPatience)
	if !ok {
		v.fail("%s: the session does not end", what)
	} else if err == nil && !closing && mode != 7 {
		v.fail("%s: the session ends without an error", what)
	}
	if !p.inner.closed() {
		v.fail("%s: the connection of the client was not closed", what)
	}
	wg.Wait()
	if err := p.s.Start(); err != ErrSessionClosed {
		v.fail("%s: starting a closed session returns %v", what, err)
	}
	p.s.Close()
}

// closing at any moment of the negotiation
func vpEarly(v *vp, what string) {
	db := vpNewDB()
	p := vpSession(db.url("db"), db)
	defer p.close()
	if v.r.Intn(10) == 0 {
		p.s.Close()
	}
	p.start()
	wrote := v.r.Intn(4) != 0
	if wrote {
		vpWrite(p.client, vpStartup(196608, "user", "u", "database", "db"))
	}
	time.Sleep(time.Duration(v.r.Intn(400)) * time.Microsecond)
	if wrote && v.r.Intn(2) == 0 {
		if !vpWithinBusy(func() bool { return len(db.conns) > 0 }) {
			return
		}
	}
	p.s.Close()
	if !p.inner.closed() {
		v.fail("%s: the client's connection is not closed", what)
	}
	if _, ok := p.ended(vpPatience); !ok {
		v.fail("%s: the session does not end", what)
		return
	}
	time.Sleep(time.Millisecond)
	for {
		select {
		case c := <-db.conns:
			if !vpHungUp(c) {
				v.fail("%s: the connection to the database is left open", what)
			}
			c.Close()
			continue
		default:
		}
		break
	}
}

// vpUnreachable: the backlog of the database is full.
func vpUnreachable(v *vp, what string) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer syscall.Close(fd)
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic("harness: " + err.Error())
	}
	_ = syscall.Listen(fd, 0)
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic("harness: " + err.Error())
	}
	addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	full := false
	for n := 0; n < 50 && !full; n++ {
		c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			full = true
			break
		}
		defer c.Close()
	}
	if !full {
		return // this system accepts any number of connections
	}
	p := vpSession("postgres://u@"+addr+"/db", nil)
	defer p.close()
	p.start()
	vpWrite(p.client, vpStartup(196608, "user", "u", "database", "db"))
	time.Sleep(100 * time.Millisecond)
	p.s.Close()
	if _, ok := p.ended(vpPatience); !ok {
		v.fail("%s: the session does not end", what)
	}
}

// vpWithinBusy waits for a condition without sleeping.
func vpWithinBusy(f func() bool) bool {
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end); {
		if f() {
			return true
		}
		runtime.Gosched()
	}
	return false
}

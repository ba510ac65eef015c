package server

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	log "github.com/sirupsen/logrus"
)

func init() { log.SetOutput(ioutil.Discard) }

var _ = strings.Contains

// vpStore is a configuration store with one configuration.
type vpStore struct {
	cfg *Config
	err error
}

func (s *vpStore) Get() (*Config, error) { return s.cfg, s.err }
func (s *vpStore) Subscribe(ch chan<- *Config, checks ...ConfigChangedCheckFn) error {
	return s.err
}
func (s *vpStore) Unsubscribe(ch chan<- *Config) {}

// vpConn counts the calls of Close of a connection and records what is written to it.
type vpConn struct {
	net.Conn
	closes int32
	mu     sync.Mutex
	w      []byte
	// once so many bytes have been written (read), an error that calls itself temporary follows, if positive
	cutWrite, cutRead int
	nread             int
}

type vpTemporary struct{}

func (vpTemporary) Error() string   { return "vp: interrupted" }
func (vpTemporary) Temporary() bool { return true }
func (vpTemporary) Timeout() bool   { return true }

func (c *vpConn) Read(b []byte) (int, error) {
	if c.cutRead > 0 {
		left := c.cutRead - c.nread
		if left <= 0 {
			c.cutRead = 0
			return 0, vpTemporary{}
		}
		if len(b) > left {
			b = b[:left]
		}
	}
	n, err := c.Conn.Read(b)
	c.nread += n
	return n, err
}

func (c *vpConn) Close() error { atomic.AddInt32(&c.closes, 1); return c.Conn.Close() }
func (c *vpConn) Write(b []byte) (int, error) {
	if left := c.cutWrite - len(c.w); c.cutWrite > 0 && len(b) > left {
		n, _ := c.Conn.Write(b[:left])
		c.mu.Lock()
		c.w = append(c.w, b[:n]...)
		c.mu.Unlock()
		c.cutWrite = 0
		return n, vpTemporary{}
	}
	n, err := c.Conn.Write(b)
	c.mu.Lock()
	c.w = append(c.w, b[:n]...)
	c.mu.Unlock()
	return n, err
}
func (c *vpConn) closed() bool { return atomic.LoadInt32(&c.closes) > 0 }

// vpPair returns the two ends of a loopback connection.
func vpPair() (a net.Conn, b net.Conn) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer ln.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		c, _ := ln.Accept()
		ch <- c
	}()
	if a, err = net.Dial("tcp", ln.Addr().String()); err != nil {
		panic("harness: " + err.Error())
	}
	b = <-ch
	if b == nil {
		panic("harness: no connection")
	}
	return
}

// vpDB accepts connections as the database.
type vpDB struct {
	ln    net.Listener
	conns chan net.Conn
	n     int32
}

func vpNewDB() *vpDB {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	d := &vpDB{ln: ln, conns: make(chan net.Conn, 100)}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&d.n, 1)
			d.conns <- c
		}
	}()
	return d
}

func (d *vpDB) url(db string) string { return "postgres://u@" + d.ln.Addr().String() + "/" + db }
func (d *vpDB) close()               { d.ln.Close() }
func (d *vpDB) get() net.Conn {
	select {
	case c := <-d.conns:
		return c
	case <-time.After(vpPatience):
		return nil
	}
}

func vpStartup(version uint32, params ...string) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b[4:], version)
	for _, p := range params {
		b = append(b, p...)
		b = append(b, 0)
	}
	b = append(b, 0)
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	return b
}

func vpMsg(t byte, body []byte) []byte {
	b := make([]byte, 5)
	b[0] = t
	binary.BigEndian.PutUint32(b[1:], uint32(4+len(body)))
	return append(b, body...)
}

func (v *vp) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v.r.Intn(256))
	}
	return b
}

func (v *vp) cstring(n int) []byte {
	b := make([]byte, n, n+1)
	for i := range b {
		b[i] = byte(1 + v.r.Intn(255))
	}
	return append(b, 0)
}

// message returns a valid message of a client or a database.
func (v *vp) message(fromClient bool) []byte {
	n := v.r.Intn(40)
	if v.r.Intn(20) == 0 {
		n = v.r.Intn(100000)
	}
	if fromClient {
		switch v.r.Intn(4) {
		case 0:
			return vpMsg('p', v.cstring(n))
		case 1:
			return vpMsg('Q', v.cstring(n))
		case 2:
			return vpMsg('X', nil)
		default:
			// these types mean something else when the database sends them
			return vpMsg("BCDEHSdfTKRNIv"[v.r.Intn(14)], v.bytes(n))
		}
	}
	switch v.r.Intn(5) {
	case 0:
		return vpMsg('Z', []byte{"ITE"[v.r.Intn(3)]})
	case 1:
		return vpMsg('C', v.cstring(n))
	case 2:
		b := []byte{0, 2, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(b[6:], uint32(n))
		return vpMsg('D', append(b, v.bytes(n)...))
	case 3:
		return vpMsg('S', append(v.cstring(n), v.cstring(3)...))
	default:
		if v.r.Intn(4) == 0 {
			return vpMsg('I', nil)
		}
		return vpMsg("123dstn"[v.r.Intn(7)], v.bytes(n))
	}
}

// vpProxy is a running session with the ends of the two connections that the parties hold.
type vpProxy struct {
	db       *vpDB
	s        *Session
	client   net.Conn // the client's end
	inner    *vpConn  // the session's end
	database net.Conn // the database's end
	errc     chan error
}

func vpSession(url string, db *vpDB) *vpProxy {
	c, inner := vpPair()
	p := &vpProxy{db: db, client: c, inner: &vpConn{Conn: inner}, errc: make(chan error, 1)}
	p.s = NewSession(p.inner, &vpStore{cfg: &Config{Listen: "127.0.0.1:0", DatabaseURL: url}})
	return p
}

func (p *vpProxy) start() {
	go func() { p.errc <- p.s.Start() }()
}

// established returns a session in which the client has reached the database and its startup message has been read.
func (v *vp) established() *vpProxy { return v.establishedWith(nil) }

func (v *vp) establishedWith(f func(c *vpConn, startup int)) *vpProxy {
	p := vpSession("", vpNewDB())
	p.s = NewSession(p.inner, &vpStore{cfg: &Config{DatabaseURL: p.db.url("db")}})
	st := vpStartup(196608, "user", "u", "database", "db")
	if f != nil {
		f(p.inner, len(st))
	}
	p.start()
	_, _ = p.client.Write(st)
	p.database = p.db.get()
	if p.database == nil {
		p.close()
		v.fail("no connection to the database after a valid startup message")
		return nil
	}
	got := make([]byte, len(st))
	_ = p.database.SetReadDeadline(time.Now().Add(vpPatience))
	if _, err := io.ReadFull(p.database, got); err != nil || !bytes.Equal(got, st) {
		p.close()
		v.fail("the database got the startup message %x, sent was %x", got, st)
		return nil
	}
	_ = p.database.SetReadDeadline(time.Time{})
	return p
}

func (p *vpProxy) close() {
	p.client.Close()
	p.inner.Conn.Close()
	if p.database != nil {
		p.database.Close()
	}
	if p.db != nil {
		p.db.close()
	}
}

func (p *vpProxy) ended(wait time.Duration) (error, bool) {
	select {
	case err := <-p.errc:
		return err, true
	case <-time.After(wait):
		return nil, false
	}
}

func vpWrite(c net.Conn, b []byte) {
	_ = c.SetWriteDeadline(time.Now().Add(vpPatience))
	_, _ = c.Write(b)
}

// vpRead reads n bytes, or to the end if n is negative.
func vpRead(c net.Conn, n int) ([]byte, error) {
	_ = c.SetReadDeadline(time.Now().Add(vpPatience))
	if n < 0 {
		var b bytes.Buffer
		_, err := io.Copy(&b, c)
		return b.Bytes(), err
	}
	b := make([]byte, n)
	k, err := io.ReadFull(c, b)
	return b[:k], err
}

func vpDiff(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	w, g := want[i:], got[i:]
	if len(w) > 24 {
		w = w[:24]
	}
	if len(g) > 24 {
		g = g[:24]
	}
	return fmt.Sprintf("%d bytes instead of %d, different from byte %d: %x instead of %x", len(got), len(want), i, g, w)
}

func (v *vp) messages(fromClient bool, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, v.message(fromClient)...)
	}
	return b
}

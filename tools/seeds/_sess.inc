COMMON='''
package server

import (
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"
)

var _ = bytes.Equal
var _ = io.EOF

type demoStore struct{ url string }

func (d *demoStore) Get() (*Config, error)                                       { return &Config{DatabaseURL: d.url}, nil }
func (d *demoStore) Subscribe(ch chan<- *Config, c ...ConfigChangedCheckFn) error { return nil }
func (d *demoStore) Unsubscribe(ch chan<- *Config)                               {}

func demoStartup(version uint32, params ...string) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b[4:], version)
	for _, p := range params {
		b = append(append(b, p...), 0)
	}
	b = append(b, 0)
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	return b
}

func demoMsg(t byte, body string) []byte {
	b := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(b[1:], uint32(4+len(body)))
	return append(b, body...)
}

func demoPair(t *testing.T) (net.Conn, net.Conn) {
	ln := demoListen(t)
	defer ln.Close()
	a, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	b, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	return a, b
}

func demoListen(t *testing.T) net.Listener {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	return ln
}

// demoRead reads until the other party hangs up or it takes too long.
func demoRead(c net.Conn) ([]byte, error) {
	_ = c.SetReadDeadline(time.Now().Add(10 * time.Second))
	var b bytes.Buffer
	_, err := io.Copy(&b, c)
	return b.Bytes(), err
}

// demoReadN reads n bytes.
func demoReadN(t *testing.T, c net.Conn, n int) []byte {
	t.Helper()
	_ = c.SetReadDeadline(time.Now().Add(10 * time.Second))
	b := make([]byte, n)
	if _, err := io.ReadFull(c, b); err != nil {
		t.Fatal(err)
	}
	return b
}

// demoSession returns an established session: the client's end, the database's end, the result of Start.
func demoSession(t *testing.T, wrap func(net.Conn) net.Conn) (*Session, net.Conn, net.Conn, chan error) {
	ln := demoListen(t)
	defer ln.Close()
	client, inner := demoPair(t)
	if wrap != nil {
		inner = wrap(inner)
	}
	s := NewSession(inner, &demoStore{"postgres://" + ln.Addr().String() + "/db"})
	errc := make(chan error, 1)
	go func() { errc <- s.Start() }()
	st := demoStartup(196608, "user", "u", "database", "db")
	_, _ = client.Write(st)
	db, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	if got := demoReadN(t, db, len(st)); !bytes.Equal(got, st) {
		t.Fatalf("the database got %q", got)
	}
	return s, client, db, errc
}
'''

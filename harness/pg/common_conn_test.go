package pg

import (
	"errors"
	"io"
	"net"
	"time"
)

// fakeConn is a connection that delivers the bytes of a reader and records what is written.
type fakeConn struct {
	r      io.Reader
	w      []byte
	writes int
	werr   error
	wshort int
	closed int
}

var errFakeWrite = errors.New("write failed")

func (c *fakeConn) Read(p []byte) (int, error) { return c.r.Read(p) }
func (c *fakeConn) Write(p []byte) (int, error) {
	c.writes++
	if c.werr != nil {
		n := c.wshort
		if n > len(p) {
			n = len(p)
		}
		c.w = append(c.w, p[:n]...)
		return n, c.werr
	}
	c.w = append(c.w, p...)
	return len(p), nil
}
func (c *fakeConn) Close() error                     { c.closed++; return nil }
func (c *fakeConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *fakeConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *fakeConn) SetDeadline(time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(time.Time) error { return nil }

// chunked delivers a byte string in pieces of arbitrary size and ends with the given error.
type chunked struct {
	v    *vp
	b    []byte
	mode int
	end  error
	zero int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch c.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + c.v.r.Intn(7)
	case 2:
		n = 1 + c.v.r.Intn(len(p))
		if c.v.r.Intn(4) == 0 && c.zero < 5 {
			c.zero++
			return 0, nil
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.mode == 3 && c.end == io.EOF {
		return n, c.end // allowed by io.Reader
	}
	return n, nil
}

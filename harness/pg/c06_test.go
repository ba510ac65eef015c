package pg

import (
	"bytes"
	"fmt"
	"io"
	"testing"
)

// TestVP_C06: messages are received by the parser for the sender, and sending writes the serialised bytes once.
func TestVP_C06(t *testing.T) {
	v := newVP(t)
	front := map[string]bool{"Query": true, "Terminate": true}
	backNot := map[string]bool{"Query": true, "Terminate": true, "Password": true, "Startup": true, "Generic": true}
	known := map[byte]bool{}
	for _, k := range kinds {
		if k.code >= 0 {
			known[byte(k.code)] = true
		}
	}
	expect := func(what string, c *Conn, r *chunked, want Message, rest []byte, recv func() (Message, error)) {
		v.guard(func() string { return what }, func() {
			m, err := recv()
			if err != nil {
				v.fail("%s: error %v", what, err)
				return
			}
			if !same(m, want) {
				v.fail("%s: received as %T %+v, expected %T %+v", what, m, m, want, want)
				return
			}
			if !bytes.Equal(r.b, rest) {
				v.fail("%s: %d bytes are left instead of %d", what, len(r.b), len(rest))
			}
		})
	}
	open := func(data []byte) (*Conn, *chunked) {
		r := &chunked{v: v, b: append([]byte(nil), data...), mode: v.r.Intn(4), end: io.EOF}
		return NewConn(&fakeConn{r: r}), r
	}
	for i := 0; i < v.n(4); i++ {
		for _, k := range kinds {
			m := k.gen(v)
			b := encode(m)
			if len(b) > 20000 && i%3 != 0 {
				continue
			}
			rest := v.bytes()
			if k.name == "Startup" {
				c, r := open(append(append([]byte(nil), b...), rest...))
				expect(fmt.Sprintf("RecvStartupMessage %x", b), c, r, m, rest, func() (Message, error) { return c.RecvStartupMessage() })
				continue
			}
			c, r := open(append(append([]byte(nil), b...), rest...))
			want := m
			if !front[k.name] && b[0] != 'Q' && b[0] != 'X' {
				want = &GenericMessage{b[0], b[5:]}
			}
			if front[k.name] || b[0] != 'Q' && b[0] != 'X' {
				expect(fmt.Sprintf("RecvFrontendMessage %x", b), c, r, want, rest, func() (Message, error) { return c.RecvFrontendMessage() })
			}
			c, r = open(append(append([]byte(nil), b...), rest...))
			if !backNot[k.name] || k.name == "Generic" && !known[b[0]] {
				expect(fmt.Sprintf("RecvMessage %x", b), c, r, m, rest, func() (Message, error) { return c.RecvMessage() })
			}
		}
		// opaque messages of every type
		for ty := 0; ty < 256; ty++ {
			body := v.bytes()
			b := stdW(byte(ty), body)
			rest := v.bytes()
			if ty != 'Q' && ty != 'X' {
				c, r := open(append(append([]byte(nil), b...), rest...))
				expect(fmt.Sprintf("RecvFrontendMessage %x", b), c, r, &GenericMessage{byte(ty), body}, rest, func() (Message, error) { return c.RecvFrontendMessage() })
			}
			if !known[byte(ty)] {
				c, r := open(append(append([]byte(nil), b...), rest...))
				expect(fmt.Sprintf("RecvMessage %x", b), c, r, &GenericMessage{byte(ty), body}, rest, func() (Message, error) { return c.RecvMessage() })
			}
		}
		for _, code := range []int32{1, 4, 10, 11, 12, 13, -1, 1 << 30} {
			body := append(e32(code), v.bytes()...)
			b := stdW('R', body)
			c, r := open(b)
			expect(fmt.Sprintf("RecvMessage %x", b), c, r, &GenericMessage{'R', body}, nil, func() (Message, error) { return c.RecvMessage() })
		}
		// sending
		for _, k := range kinds {
			m := k.gen(v)
			b := encode(m)
			v.guard(func() string { return "SendMessage " + k.name }, func() {
				f := &fakeConn{w: []byte("before")}
				if err := NewConn(f).SendMessage(m); err != nil || !bytes.Equal(f.w, append([]byte("before"), b...)) {
					v.fail("SendMessage of %s wrote %x, expected %x (error %v)", k.name, f.w[6:], b, err)
				}
				f = &fakeConn{werr: errFakeWrite, wshort: v.r.Intn(len(b) + 1)}
				if err := NewConn(f).SendMessage(m); err == nil || !bytes.HasPrefix(b, f.w) {
					v.fail("SendMessage of %s: error of the write not reported, or other bytes written (%x)", k.name, f.w)
				}
			})
		}
		for by := 0; by < 256; by++ {
			f := &fakeConn{}
			if err := NewConn(f).SendByte(byte(by)); err != nil || !bytes.Equal(f.w, []byte{byte(by)}) {
				v.fail("SendByte(%d) wrote %x (error %v)", by, f.w, err)
			}
			f = &fakeConn{werr: errFakeWrite}
			if err := NewConn(f).SendByte(byte(by)); err == nil {
				v.fail("SendByte(%d): error of the write not reported", by)
			}
		}
	}
}

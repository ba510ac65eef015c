package pg

import (
	"bytes"
	"errors"
	"io"
	"testing"
)

func TestVP_C05(t *testing.T) {
	v := newVP(t)
	end := errors.New("connection reset")
	for i := 0; i < v.n(6000); i++ {
		startup := v.r.Intn(2) == 0
		h := 1
		if startup {
			h = 0
		}
		var stream []byte
		for j, n := 0, v.r.Intn(4); j < n; j++ {
			b := v.bytes()
			if !startup {
				stream = append(stream, byte(v.r.Intn(256)))
			}
			stream = append(stream, join(e32(int32(len(b)+4)), b)...)
		}
		switch v.r.Intn(4) {
		case 0:
			if len(stream) > 0 {
				stream = stream[:v.r.Intn(len(stream))]
			}
		case 1:
			if !startup {
				stream = append(stream, byte(v.r.Intn(256)))
			}
			stream = append(stream, join(e32([]int32{0, 1, 2, 3, 4, 5, -1, -2147483648, 2147483647, 1 << 20}[v.r.Intn(10)]), v.bytes())...)
		case 2:
			if len(stream) > 4 {
				stream[v.r.Intn(5)] ^= byte(1 << uint(v.r.Intn(8)))
			}
		}
		mode := v.r.Intn(5)
		e := io.EOF
		if v.r.Intn(2) == 0 {
			e = end
		}
		src := &chunked{v: v, b: append([]byte{}, stream...), mode: mode, end: e}
		if v.r.Intn(6) == 0 {
			src.mode = 4
		}
		rest := stream
		for j := 0; j < 6; j++ {
			var got []byte
			var err error
			bad := false
			v.guard(func() string { return "reading frames from " + hexs(stream) }, func() {
				bad = true
				if startup {
					var f StartupFrame
					f, err = ReadStartupFrame(src)
					got = f
				} else {
					var f StandardFrame
					f, err = ReadStandardFrame(src)
					got = f
				}
				bad = false
			})
			if bad {
				break
			}
			// what should have happened
			var want []byte
			if len(rest) >= h+4 {
				n := int64(int32(uint32(rest[h])<<24 | uint32(rest[h+1])<<16 | uint32(rest[h+2])<<8 | uint32(rest[h+3])))
				if n >= 4 && int64(len(rest)-h) >= n {
					want = rest[:int64(h)+n]
				}
			}
			if want == nil {
				if err == nil {
					v.fail("frame %d of the stream %s: %s is returned although there is no complete frame", j+1, hexs(stream), hexs(got))
				} else if got != nil {
					v.fail("frame %d of the stream %s: a partial frame comes with the error", j+1, hexs(stream))
				}
				break
			}
			if err != nil {
				v.fail("frame %d of the stream %s (delivery mode %d): error %v", j+1, hexs(stream), src.mode, err)
				break
			}
			if !bytes.Equal(got, want) {
				v.fail("frame %d of the stream %s is read as %s", j+1, hexs(stream), hexs(got))
				break
			}
			rest = rest[len(want):]
			if !bytes.Equal(src.b, rest) {
				v.fail("after frame %d of the stream %s, %d bytes are left instead of %d", j+1, hexs(stream), len(src.b), len(rest))
				break
			}
		}
	}
}

package pg

import (
	"bytes"
	"runtime"
	"testing"
	"time"
)

func TestVP_C04(t *testing.T) {
	v := newVP(t)
	var ms, ms2 runtime.MemStats
	alloc := func(what string, in []byte, f func()) {
		runtime.ReadMemStats(&ms)
		ok := within(20*time.Second, func() {
			defer func() {
				if e := recover(); e != nil {
					v.fail("%s of %s: panic: %v at %s", what, hexs(in), e, firstFrames())
				}
			}()
			f()
		})
		if !ok {
			v.fail("%s of %s does not end", what, hexs(in))
			t.FailNow()
		}
		runtime.ReadMemStats(&ms2)
		if d := ms2.TotalAlloc - ms.TotalAlloc; d > uint64(3<<20+400*len(in)) {
			v.fail("%s of %s allocates %d bytes for %d bytes of input", what, hexs(in), d, len(in))
		}
	}
	// directed: counts and lengths at every position of a small frame
	vals := []int32{-1, -2, -2147483648, 2147483647, 0, 1, 1 << 30, 1 << 24, 32767, 65535}
	var k kind
	one := func(wire []byte) {
		v.runs++
		alloc("parsing "+k.name, wire, func() { _, _ = k.parse(frameOf(k, wire)) })
	}
	for _, k = range kinds {
		for i := 0; i < 2; i++ {
			wire := encode(k.gen(v))
			h := 5
			if k.code == -1 {
				h = 4
			}
			for p := 0; p < 14 && h+p < len(wire); p++ {
				one(wire[:h+p])
				for _, x := range vals {
					w := append([]byte{}, wire...)
					copy(w[h+p:], e32(x))
					one(w)
					w = append([]byte{}, wire...)
					copy(w[h+p:], e16(int16(x)))
					one(w)
				}
			}
			body := make([]byte, 0, 24)
			for _, x := range vals {
				for _, y := range vals {
					one(frameBytes(k, join(body, e32(x), e32(y))))
					one(frameBytes(k, join(body, e16(int16(x)), e32(y))))
				}
			}
		}
		for i := 0; i < v.n(150); i++ {
			one(v.mutate(k, encode(k.gen(v))))
		}
	}
	// reading from the network
	k = kinds[0]
	for i := 0; i < v.n(2000); i++ {
		var in []byte
		switch v.r.Intn(4) {
		case 0:
			in = v.bytes()
		case 1:
			in = join([]byte{"RKCDIENvSpQZTX"[v.r.Intn(14)]}, e32(vals[v.r.Intn(len(vals))]), v.bytes())
		case 2:
			in = join(e32(vals[v.r.Intn(len(vals))]), v.bytes())
		default:
			kk := kinds[v.r.Intn(len(kinds))]
			in = v.mutate(kk, encode(kk.gen(v)))
		}
		v.runs++
		alloc("ReadStandardFrame", in, func() { _, _ = ReadStandardFrame(bytes.NewReader(in)) })
		alloc("ReadStartupFrame", in, func() { _, _ = ReadStartupFrame(bytes.NewReader(in)) })
		alloc("RecvMessage", in, func() { _, _ = NewConn(&fakeConn{r: bytes.NewReader(in)}).RecvMessage() })
		alloc("RecvStartupMessage", in, func() { _, _ = NewConn(&fakeConn{r: bytes.NewReader(in)}).RecvStartupMessage() })
	}
}

func frameBytes(k kind, body []byte) []byte {
	if k.code == -1 {
		return join(e32(int32(len(body)+4)), body)
	}
	c := k.code
	if c < 0 {
		c = 'd'
	}
	return stdW(byte(c), body)
}

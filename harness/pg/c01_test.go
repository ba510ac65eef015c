package pg

import (
	"bytes"
	"testing"
)

func TestVP_C01(t *testing.T) {
	v := newVP(t)
	for _, k := range kinds {
		for i := 0; i < v.n(500); i++ {
			m := k.gen(v)
			c := clone(m)
			want := encode(m)
			v.guard(func() string { return show(c) }, func() {
				for try := 0; try < 2; try++ {
					got := m.Frame().Bytes()
					if !bytes.Equal(got, want) {
						v.fail("%s serialises to %s instead of %s (call %d)", show(c), hexs(got), hexs(want), try+1)
						return
					}
				}
				f := m.Frame()
				h := 5
				if k.code == -1 {
					h = 4
				} else if f.MessageType() != want[0] {
					v.fail("%s: frame of type %d", show(c), f.MessageType())
				}
				if !bytes.Equal(f.MessageBody(), want[h:]) {
					v.fail("%s: body %s", show(c), hexs(f.MessageBody()))
				}
				if !same(c, m) {
					v.fail("serialising changed %s into %s", show(c), show(m))
				}
			})
		}
	}
	for i := 0; i < v.n(500); i++ {
		b := v.bytes()
		ty := byte(v.r.Intn(256))
		v.guard(func() string { return "frame of " + hexs(b) }, func() {
			if got := NewStandardFrame(ty, b); !bytes.Equal(got, stdW(ty, b)) {
				v.fail("NewStandardFrame(%d, %s) = %s", ty, hexs(b), hexs(got))
			}
			if got := NewStartupFrame(b); !bytes.Equal(got, join(e32(int32(len(b)+4)), b)) {
				v.fail("NewStartupFrame(%s) = %s", hexs(b), hexs(got))
			}
		})
	}
}

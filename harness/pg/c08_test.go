package pg

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVP_C08(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(6000); i++ {
		var b WriteBuffer
		var want []byte
		hist := "an empty buffer"
		for j, n := 0, 1+v.r.Intn(10); j < n; j++ {
			ok := false
			prev := []byte(b)
			snap := append([]byte{}, prev...)
			v.guard(func() string { return hist }, func() {
				switch v.r.Intn(7) {
				case 0:
					x := v.bytes()
					c := append([]byte{}, x...)
					hist += fmt.Sprintf(", WriteBytes(%s)", hexs(x))
					b.WriteBytes(x)
					want = append(want, c...)
					if !bytes.Equal(x, c) {
						v.fail("%s: the argument is changed", hist)
					}
				case 1:
					x := byte(v.r.Intn(256))
					hist += fmt.Sprintf(", WriteByte(%d)", x)
					b.WriteByte(x)
					want = append(want, x)
				case 2:
					x := v.i32()
					hist += fmt.Sprintf(", WriteInt32(%d)", x)
					b.WriteInt32(x)
					want = append(want, e32(x)...)
				case 3:
					x := v.i16()
					hist += fmt.Sprintf(", WriteInt16(%d)", x)
					b.WriteInt16(x)
					want = append(want, e16(x)...)
				case 4:
					x := v.str()
					hist += fmt.Sprintf(", WriteString(%q)", x)
					b.WriteString(x)
					want = append(want, eStr(x)...)
				case 5:
					var x []int32
					for k, m := 0, v.count(); k < m; k++ {
						x = append(x, v.i32())
					}
					hist += fmt.Sprintf(", WriteInt32Array(%v)", x)
					b.WriteInt32Array(x)
					for _, y := range x {
						want = append(want, e32(y)...)
					}
				case 6:
					var x []int16
					for k, m := 0, v.count(); k < m; k++ {
						x = append(x, v.i16())
					}
					hist += fmt.Sprintf(", WriteInt16Array(%v)", x)
					b.WriteInt16Array(x)
					for _, y := range x {
						want = append(want, e16(y)...)
					}
				}
				ok = true
			})
			if !ok {
				break
			}
			if !bytes.Equal(b, want) || b.Len() != len(want) {
				v.fail("%s: the buffer holds %s instead of %s", hist, hexs(b), hexs(want))
				break
			}
			if !bytes.Equal(prev, snap) {
				v.fail("%s: bytes written before are changed", hist)
				break
			}
		}
	}
}

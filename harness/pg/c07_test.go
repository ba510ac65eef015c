package pg

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"testing"
)

func TestVP_C07(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(5000); i++ {
		in := v.bytes()
		if len(in) > 0 && v.r.Intn(3) == 0 {
			in[v.r.Intn(len(in))] = 0
		}
		if i%50 == 0 { // a long string without a terminator in its first part
			in = bytes.Repeat([]byte{byte(1 + v.r.Intn(255))}, 1<<uint(9+v.r.Intn(9)))
			in = append(append(in, 0), v.bytes()...)
		}
		orig := append([]byte{}, in...)
		b := ReadBuffer(in)
		hist := "buffer " + hexs(orig)
		stop := false
		for j := 0; j < 8 && !stop; j++ {
			before := append([]byte{}, b...)
			op := v.r.Intn(7)
			var n, width int
			if op == 0 || op >= 5 {
				n = []int{0, 1, 2, 3, len(before), len(before) + 1, len(before) / 2, len(before)/2 + 1, len(before) / 4, len(before)/4 + 1, -1, -2, -1 << 40, 1 << 40, 1 << 30, 1<<62 + 1, 1 << 61, 1 << 62, -1 << 63, 1<<63 - 1, 1<<62 - 1, 1 << 31}[v.r.Intn(22)]
			}
			hist += fmt.Sprintf(", %s", []string{fmt.Sprintf("ReadBytes(%d)", n), "ReadByte", "ReadInt32", "ReadInt16", "ReadString", fmt.Sprintf("ReadInt32Array(%d)", n), fmt.Sprintf("ReadInt16Array(%d)", n)}[op])
			var err error
			var got interface{}
			var ok bool
			var want interface{}
			stop = true
			v.guard(func() string { return hist }, func() {
				switch op {
				case 0:
					width, ok = n, n >= 0 && n <= len(before)
					var g []byte
					g, err = b.ReadBytes(n)
					got = string(g)
					if ok {
						want = string(before[:n])
					}
					if ok && g == nil {
						v.fail("%s: nil instead of an empty value", hist)
					}
				case 1:
					width, ok = 1, len(before) >= 1
					got, err = b.ReadByte()
					if ok {
						want = before[0]
					}
				case 2:
					width, ok = 4, len(before) >= 4
					got, err = b.ReadInt32()
					if ok {
						want = int32(binary.BigEndian.Uint32(before))
					}
				case 3:
					width, ok = 2, len(before) >= 2
					got, err = b.ReadInt16()
					if ok {
						want = int16(binary.BigEndian.Uint16(before))
					}
				case 4:
					k := bytes.IndexByte(before, 0)
					width, ok = k+1, k >= 0
					got, err = b.ReadString()
					if ok {
						want = string(before[:k])
					}
				case 5:
					ok = n >= 0 && n <= len(before)/4
					var g []int32
					g, err = b.ReadInt32Array(n)
					got = fmt.Sprint(g)
					if ok {
						width = 4 * n
						w := []int32{}
						for k := 0; k < n; k++ {
							w = append(w, int32(binary.BigEndian.Uint32(before[4*k:])))
						}
						want = fmt.Sprint(w)
					}
				case 6:
					ok = n >= 0 && n <= len(before)/2
					var g []int16
					g, err = b.ReadInt16Array(n)
					got = fmt.Sprint(g)
					if ok {
						width = 2 * n
						w := []int16{}
						for k := 0; k < n; k++ {
							w = append(w, int16(binary.BigEndian.Uint16(before[2*k:])))
						}
						want = fmt.Sprint(w)
					}
				}
				stop = false
			})
			if stop {
				break
			}
			rest := before
			if ok {
				rest = before[width:]
				if err != nil || got != want {
					v.fail("%s: %v, %v instead of %v", hist, got, err, want)
					break
				}
			} else if err == nil {
				v.fail("%s: no error", hist)
				break
			} else if op != 4 && n >= 0 && err != io.EOF {
				v.fail("%s: the error is %v", hist, err)
			}
			if !bytes.Equal(b, rest) || b.Len() != len(rest) {
				v.fail("%s: the buffer holds %s instead of %s", hist, hexs(b), hexs(rest))
				break
			}
			if !bytes.Equal(in, orig) {
				v.fail("%s: the content of the buffer is changed", hist)
				break
			}
		}
	}
}

package pg

import (
	"bytes"
	"testing"
)

func TestVP_C03(t *testing.T) {
	v := newVP(t)
	for _, k := range kinds {
		k := k
		for i := 0; i < v.n(2500); i++ {
			wire := encode(k.gen(v))
			if i%3 == 1 {
				// a frame of another kind
				k2 := kinds[v.r.Intn(len(kinds))]
				if (k2.code == -1) == (k.code == -1) {
					wire = encode(k2.gen(v))
				}
			}
			if i%3 != 1 || v.r.Intn(2) == 0 {
				wire = v.mutate(k, wire)
			}
			in := append([]byte{}, wire...)
			v.guard(func() string { return "parsing " + k.name + " from " + hexs(in) }, func() {
				m, err := k.parse(frameOf(k, wire))
				if !bytes.Equal(in, wire) {
					v.fail("parsing %s changed the frame %s into %s", k.name, hexs(in), hexs(wire))
					return
				}
				if err != nil {
					if m != nil {
						v.fail("%s: both a message and the error %v for %s", k.name, err, hexs(in))
					}
					return
				}
				if m == nil {
					v.fail("%s: neither a message nor an error for %s", k.name, hexs(in))
					return
				}
				if k.code >= 0 && int(in[0]) != k.code {
					v.fail("the parser of %s accepts a frame of type %q: %s", k.name, in[0], hexs(in))
				}
				if got := m.Frame().Bytes(); !bytes.Equal(got, in) {
					v.fail("the frame %s is accepted as %s, which serialises to %s", hexs(in), k.name, hexs(got))
				}
			})
		}
	}
}

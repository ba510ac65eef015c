package pg

import "testing"

func TestVP_C02(t *testing.T) {
	v := newVP(t)
	for _, k := range kinds {
		for i := 0; i < v.n(600); i++ {
			m := k.gen(v)
			wire := encode(m)
			v.guard(func() string { return "parsing " + show(m) }, func() {
				g, err := k.parse(frameOf(k, wire))
				if err != nil {
					v.fail("the frame of %s is rejected: %v", show(m), err)
					return
				}
				if !same(m, g) {
					v.fail("the frame of %s is parsed as %s", show(m), show(g))
				}
			})
			v.guard(func() string { return "round trip of " + show(m) }, func() {
				g, err := k.parse(m.Frame())
				if err != nil {
					v.fail("the frame that %s serialises to is rejected: %v", show(m), err)
					return
				}
				if !same(m, g) {
					v.fail("the round trip of %s yields %s", show(m), show(g))
				}
			})
		}
	}
}

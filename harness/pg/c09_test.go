package pg

import (
	"fmt"
	"testing"
)

// TestVP_C09: the first parameter of a name counts, and looking up changes nothing.
func TestVP_C09(t *testing.T) {
	v := newVP(t)
	names := []string{"", "user", "User", "database", "data", "databases", "\x00", "é"}
	for i := 0; i < v.n(4000); i++ {
		m := &StartupMessage{ProtocolVersion: v.i32()}
		if v.r.Intn(20) == 0 {
			m.ProtocolVersion = 80877103
		}
		want := map[string]string{}
		n := v.r.Intn(6)
		if i%50 == 0 {
			n = v.r.Intn(300)
		}
		for j := 0; j < n; j++ {
			k := names[v.r.Intn(len(names))]
			if v.r.Intn(4) == 0 {
				k = v.str()
			}
			val := v.str()
			m.Parameters = append(m.Parameters, &StartupMessageParameter{k, val})
			if _, ok := want[k]; !ok {
				want[k] = val
			}
		}
		before := clone(m)
		desc := func() string {
			s := ""
			for _, p := range m.Parameters {
				s += fmt.Sprintf(" %.20q=%.20q", p.Name, p.Value)
			}
			return s
		}
		ask := append([]string{v.str()}, names...)
		for k := range want {
			ask = append(ask, k)
		}
		for _, k := range ask {
			v.guard(func() string { return fmt.Sprintf("GetParameter(%.20q) of%s", k, desc()) }, func() {
				if got := m.GetParameter(k); got != want[k] {
					v.fail("GetParameter(%.20q) of%s is %.30q, expected %.30q", k, desc(), got, want[k])
				}
			})
			if !same(m, before.(Message)) {
				v.fail("GetParameter(%.20q) changed the message", k)
			}
		}
	}
}

package server

import (
	"fmt"
	"testing"
	"time"
)

func TestVP_C15(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(150); i++ {
		what := fmt.Sprintf("subscriptions, run %d", i)
		v.guard(func() string { return what }, func() {
			src := make(chan *Config)
			p := NewConfigDistributor(src)
			defer p.Close()
			type sub struct {
				ch     chan *Config
				checks []ConfigChangedCheckFn
				want   []*Config
				on     bool
			}
			accepts := func(cs []ConfigChangedCheckFn, o, n *Config) bool {
				for _, c := range cs {
					if c(o, n) {
						return true
					}
				}
				return len(cs) == 0
			}
			var subs []*sub
			var cur *Config
			log := ""
			sentinel := &sub{ch: make(chan *Config, 100), on: true}
			if err := p.Subscribe(sentinel.ch); err != nil {
				v.fail("%s: Subscribe: %v", what, err)
				return
			}
			for k := 0; k < 12; k++ {
				switch v.r.Intn(4) {
				case 0, 1:
					c := &Config{Listen: fmt.Sprint(v.r.Intn(3)), DatabaseURL: fmt.Sprint(v.r.Intn(3))}
					log += fmt.Sprintf(" update(%s,%s)", c.Listen, c.DatabaseURL)
					for _, s := range subs {
						if s.on && accepts(s.checks, cur, c) {
							s.want = append(s.want, c)
						}
					}
					cur = c
					select {
					case src <- c:
					case <-time.After(vpPatience):
						v.fail("%s:%s: the update is not received", what, log)
						return
					}
					// wait until it has been published: the store takes the next lock afterwards only
					select {
					case g := <-sentinel.ch:
						if g != c {
							v.fail("%s:%s: a subscriber without checks got another configuration", what, log)
							return
						}
					case <-time.After(vpPatience):
						v.fail("%s:%s: the update does not reach a subscriber without checks", what, log)
						return
					}
				case 2:
					s := &sub{ch: make(chan *Config, 100), on: true}
					for j := v.r.Intn(4); j > 0; j-- {
						switch v.r.Intn(4) {
						case 0:
							s.checks = append(s.checks, func(o, n *Config) bool { return o == nil || o.Listen != n.Listen })
						case 1:
							s.checks = append(s.checks, func(o, n *Config) bool { return o != nil && o.DatabaseURL != n.DatabaseURL })
						case 2:
							s.checks = append(s.checks, func(o, n *Config) bool { return false })
						default:
							s.checks = append(s.checks, func(o, n *Config) bool { return o != nil && n.Listen == "1" })
						}
					}
					log += fmt.Sprintf(" subscribe(%d checks)", len(s.checks))
					if cur != nil && accepts(s.checks, nil, cur) {
						s.want = append(s.want, cur)
					}
					if err := p.Subscribe(s.ch, s.checks...); err != nil {
						v.fail("%s:%s: Subscribe: %v", what, log, err)
						return
					}
					subs = append(subs, s)
				default:
					if len(subs) > 0 {
						j := v.r.Intn(len(subs))
						log += fmt.Sprintf(" unsubscribe(%d)", j)
						if subs[j].on {
							p.Unsubscribe(subs[j].ch)
							subs[j].on = false
						}
					}
				}
			}
			// everything before has been delivered once the lock can be taken
			p.Unsubscribe(sentinel.ch)
			for j, s := range subs {
				if g := vpDrain(s.ch); !vpSame(g, s.want) {
					v.fail("%s:%s: the subscriber %d got %s instead of %s", what, log, j, vpNames(g), vpNames(s.want))
					return
				}
			}
		})
	}
}

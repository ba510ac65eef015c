package cli

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/BurntSushi/toml"

	"github.com/hired/gevulot/pkg/server"
)

// vpContent is a random content of a configuration file and the configuration it stands for, if any.
func vpContent(v *vp) (string, *server.Config) {
	var b strings.Builder
	if v.r.Intn(6) > 0 {
		fmt.Fprintf(&b, "listen = %q\n", []string{"127.0.0.1:1", ":2", " ", "", "x", "[::1]:3"}[v.r.Intn(6)])
	}
	if v.r.Intn(4) > 0 {
		fmt.Fprintf(&b, "database-url = %q\n", []string{"postgres://u@h/d", "", "?", "mysql://x"}[v.r.Intn(4)])
	}
	if v.r.Intn(3) == 0 {
		b.WriteString("unknown = 1\n")
	}
	if v.r.Intn(6) == 0 {
		b.WriteString([]string{"listen = [\n", "listen = 5\n", "\x00\n", "= 3\n", "[database-url]\n", "listen = \"twice\"\n"}[v.r.Intn(6)])
	}
	s := b.String()
	if v.r.Intn(12) == 0 {
		s = s[:v.r.Intn(len(s)+1)]
	}
	c := &server.Config{}
	if _, err := toml.Decode(s, c); err != nil || c.Listen == "" {
		return s, nil
	}
	return s, c
}

func TestVP_C23(t *testing.T) {
	v := newVP(t)
	dir, err := ioutil.TempDir("", "vpcli")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for i := 0; i < v.n(300); i++ {
		f := filepath.Join(dir, "one.toml")
		s, want := vpContent(v)
		_ = ioutil.WriteFile(f, []byte(s), 0o600)
		what := fmt.Sprintf("loading %q", s)
		v.guard(func() string { return what }, func() {
			got, err := readServerConfig(f)
			switch {
			case (err == nil) != (want != nil):
				v.fail("%s: error %v, expected the configuration %+v", what, err, want)
			case err != nil && got != nil:
				v.fail("%s: error %v with the configuration %+v", what, err, got)
			case err == nil && (got == nil || !reflect.DeepEqual(got, want)):
				v.fail("%s: the configuration is %+v instead of %+v", what, got, want)
			}
		})
	}
	for _, p := range []string{filepath.Join(dir, "none.toml"), dir} {
		v.guard(func() string { return p }, func() {
			if c, err := readServerConfig(p); err == nil {
				v.fail("loading %s: no error but %+v", p, c)
			}
			if p != dir {
				if err := watchServerConfig(p, make(chan *server.Config, 1)); err == nil {
					v.fail("watching %s: no error", p)
				}
			}
		})
	}
	// the configuration before has not been taken yet
	for i := 0; i < v.n(3); i++ {
		name := filepath.Join(dir, fmt.Sprintf("busy%d.toml", i))
		_ = ioutil.WriteFile(name, []byte("\n"), 0o600)
		ch := make(chan *server.Config, i%2)
		if cap(ch) > 0 {
			ch <- &server.Config{Listen: "before"}
		}
		v.guard(func() string { return "a write while the receiver is busy" }, func() {
			if err := watchServerConfig(name, ch); err != nil {
				v.fail("watching %s: %v", name, err)
				return
			}
			w, err := os.OpenFile(name, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer w.Close()
			_, _ = w.WriteAt([]byte("listen = \"busy:1\"\n"), 0)
			time.Sleep(150 * time.Millisecond)
			if cap(ch) > 0 {
				<-ch
			}
			select {
			case c := <-ch:
				if c == nil || c.Listen != "busy:1" {
					v.fail("a write of a configuration with the address busy:1 while the receiver is busy: delivered: %+v", c)
				}
			case <-time.After(4 * time.Second):
				v.fail("a write of a configuration with the address busy:1 while the receiver is busy (%d waiting configurations): nothing is delivered", cap(ch))
			}
		})
	}
	// histories of writes of a watched file; each write is one system call and one event
	const size = 300
	for i := 0; i < v.n(3); i++ {
		name := filepath.Join(dir, fmt.Sprintf("watched%d.toml", i))
		_ = ioutil.WriteFile(name, []byte(strings.Repeat("\n", size)), 0o600)
		ch := make(chan *server.Config, 100)
		var h []string
		v.guard(func() string { return fmt.Sprintf("writes %q", h) }, func() {
			if err := watchServerConfig(name, ch); err != nil {
				v.fail("watching %s: %v", name, err)
				return
			}
			w, err := os.OpenFile(name, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer w.Close()
			var last *server.Config
			for j := 0; j < 12; j++ {
				s, want := vpContent(v)
				if want == nil && v.r.Intn(3) == 0 {
					s, want = "listen = \"again:1\"\n", &server.Config{Listen: "again:1"}
				} else if want != nil && last != nil && v.r.Intn(4) == 0 {
					want = last // the same once more
					s = fmt.Sprintf("listen = %q\ndatabase-url = %q\n", want.Listen, want.DatabaseURL)
				}
				h = append(h, s)
				_, _ = w.WriteAt([]byte(s+strings.Repeat("\n", size-len(s))), 0)
				var got []*server.Config
				if want != nil {
					last = want
					select {
					case c := <-ch:
						got = append(got, c)
					case <-time.After(4 * time.Second):
					}
				}
				for quiet := false; !quiet; {
					select {
					case c := <-ch:
						got = append(got, c)
					case <-time.After(40 * time.Millisecond):
						quiet = true
					}
				}
				switch {
				case want == nil && len(got) > 0:
					v.fail("writes %q: the last one is not valid, delivered: %+v", h, got[0])
					return
				case want != nil && (len(got) != 1 || !reflect.DeepEqual(got[0], want)):
					v.fail("writes %q: the last one stands for %+v, %d deliveries %+v", h, want, len(got), got)
					return
				}
			}
		})
	}
}

package cli

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/hired/gevulot/pkg/server"
)

// vpOneFile runs f with just one file descriptor left: a file can be read, a watcher cannot be made.
func vpOneFile(f func()) {
	d, err := os.Open("/dev/null")
	if err != nil {
		return
	}
	n := d.Fd()
	d.Close()
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l) != nil {
		return
	}
	one := l
	one.Cur = uint64(n) + 1
	if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &one) != nil {
		return
	}
	defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l)
	f()
}

func TestVP_C22(t *testing.T) {
	v := newVP(t)
	dir, err := ioutil.TempDir("", "vpcli")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	good := filepath.Join(dir, "good.toml")
	files := map[string]string{good: "listen = \"127.0.0.1:1\"\ndatabase-url = \"postgres://u@h/d\"\n", filepath.Join(dir, "empty.toml"): "", filepath.Join(dir, "bad.toml"): "listen = [", filepath.Join(dir, "type.toml"): "listen = 5\n"}
	for n, c := range files {
		_ = ioutil.WriteFile(n, []byte(c), 0o600)
	}
	type argv struct {
		args                  []string
		help, invalid, unload bool
	}
	var cases []argv
	for _, verb := range [][]string{nil, {"-v"}, {"--verbose"}} {
		for _, h := range []string{"--help", "--version", "--help-long", "--help-man", "--completion-script-bash"} {
			cases = append(cases, argv{args: append(append([]string{}, verb...), h), help: true})
			cases = append(cases, argv{args: append(append([]string{"-c", good}, verb...), h), help: true})
			cases = append(cases, argv{args: append([]string{h, "-c", filepath.Join(dir, "none.toml")}, verb...), help: true})
		}
		for _, h := range [][]string{{"--nope"}, {"extra"}, {"-c"}, {"--config"}, {"-x"}, {"-c", good, "more"}} {
			cases = append(cases, argv{args: append(append([]string{}, verb...), h...), invalid: true})
		}
		for _, f := range []string{"empty.toml", "bad.toml", "type.toml", "none.toml", "", "."} {
			cases = append(cases, argv{args: append([]string{"--config", filepath.Join(dir, f)}, verb...), unload: true})
		}
		for _, h := range [][]string{{"-c", good}, {"--config=" + good}, {"--config", good}} {
			cases = append(cases, argv{args: append(append([]string{}, verb...), h...)})
		}
	}
	for i := 0; i < v.n(3); i++ {
		for _, c := range cases {
			serrs := []error{nil, errors.New("vp: no server today")}
			if !c.help && !c.invalid && !c.unload && len(c.args) == 2 && i == 0 {
				serrs = append(serrs, server.ErrServerClosed, io.EOF, io.ErrUnexpectedEOF, os.ErrClosed, os.ErrNotExist, os.ErrInvalid, context.Canceled, syscall.EINTR, syscall.EADDRINUSE,
					fmt.Errorf("server: %w", server.ErrServerClosed), &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}, &net.OpError{Op: "accept", Net: "tcp", Err: os.ErrClosed}, errors.New(""))
			}
			for _, serr := range serrs {
				for _, nowatch := range []bool{false, true} {
					var out, errs bytes.Buffer
					ran := 0
					var first *server.Config
					x := &cli{stdout: &out, stderr: &errs, runServer: func(ch <-chan *server.Config) error {
						ran++
						select {
						case first = <-ch:
						default:
						}
						return serr
					}}
					what := fmt.Sprintf("gevulot %q (server error %v, no watcher %v)", c.args, serr, nowatch)
					var code int
					v.guard(func() string { return what }, func() {
						if nowatch {
							vpOneFile(func() { code = x.Run(c.args) })
						} else {
							code = x.Run(c.args)
						}
						wantRuns, want, text := 0, 1, ""
						switch {
						case c.help:
							want = 0
						case c.invalid, c.unload, nowatch:
						default:
							wantRuns = 1
							if serr == nil {
								want = 0
							} else {
								text = serr.Error()
							}
						}
						if code != want {
							v.fail("%s: exit code %d instead of %d; stderr %q", what, code, want, errs.String())
						}
						if ran != wantRuns {
							v.fail("%s: the server has been started %d times instead of %d", what, ran, wantRuns)
						}
						if ran > 0 && (first == nil || first.Listen != "127.0.0.1:1" || first.DatabaseURL != "postgres://u@h/d") {
							v.fail("%s: the first configuration available to the server is %+v", what, first)
						}
						if want == 1 && strings.TrimSpace(errs.String()) == "" || !strings.Contains(errs.String(), text) {
							v.fail("%s: the standard error stream does not describe the failure %q: %q", what, text, errs.String())
						}
						if want == 1 && c.unload && strings.HasSuffix(c.args[1], "empty.toml") && !nowatch && !strings.Contains(errs.String(), errNoListenAddress.Error()) {
							v.fail("%s: the standard error stream does not describe the failure: %q", what, errs.String())
						}
					})
				}
			}
		}
	}
}

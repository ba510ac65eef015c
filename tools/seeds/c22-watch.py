id="c22-watch"; prop="C22"; pkg="cli"
edits=[("pkg/cli/cli.go","	if err != nil {\n		return nil, err\n	}\n\n	return configChan, nil\n","	if err != nil {\n		log.Warnf(\"config changes won't be noticed: %v\", err)\n	}\n\n	return configChan, nil\n")]
needs="a configuration file that can be read but not watched (no file descriptors left, say)"
breaks="the server is started although its configuration is not watched"
demo='''
package cli

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/hired/gevulot/pkg/server"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "c.toml")
	if err := ioutil.WriteFile(path, []byte("listen = \\"127.0.0.1:1\\"\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	started := false
	var out, errs bytes.Buffer
	c := &cli{stdout: &out, stderr: &errs, runServer: func(<-chan *server.Config) error { started = true; return nil }}
	d, err := os.Open("/dev/null")
	if err != nil {
		t.Fatal(err)
	}
	n := d.Fd()
	d.Close()
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
		t.Fatal(err)
	}
	one := l
	one.Cur = uint64(n) + 1
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &one); err != nil {
		t.Fatal(err)
	}
	code := c.Run([]string{"-c", path})
	_ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l)
	if started || code != 1 {
		t.Fatalf("started %v, exit code %d, stderr %q", started, code, errs.String())
	}
}
'''

id="c22-closed"; prop="C22"; pkg="cli"
edits=[("pkg/cli/cli.go","	err = c.runServer(configChan)\n\n	if err != nil {\n","	err = c.runServer(configChan)\n\n	if err != nil && err != server.ErrServerClosed {\n")]
needs="a server that ends with ErrServerClosed, as it does when its configuration store fails after it has been closed"
breaks="the command exits with 0 and prints nothing although the server has failed"
demo='''
package cli

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/hired/gevulot/pkg/server"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "c.toml")
	if err := ioutil.WriteFile(path, []byte("listen = \\"127.0.0.1:1\\"\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	var out, errs bytes.Buffer
	c := &cli{stdout: &out, stderr: &errs, runServer: func(<-chan *server.Config) error { return server.ErrServerClosed }}
	if code := c.Run([]string{"-c", path}); code != 1 || errs.Len() == 0 {
		t.Fatalf("exit code %d, stderr %q", code, errs.String())
	}
}
'''

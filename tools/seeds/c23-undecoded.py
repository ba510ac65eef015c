id="c23-undecoded"; prop="C23"; pkg="cli"
edits=[("pkg/cli/read_server_config.go","	_, err = toml.DecodeFile(absPath, config)\n\n	if err != nil {\n		return nil, err\n	}\n","	meta, err := toml.DecodeFile(absPath, config)\n\n	if err != nil {\n		return nil, err\n	}\n\n	if len(meta.Undecoded()) > 0 {\n		config.DatabaseURL = \"\"\n	}\n")]
needs="a configuration file with a key that is not known"
breaks="the configuration is not what the file says"
demo='''
package cli

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "c.toml")
	if err := ioutil.WriteFile(path, []byte("listen = \\"127.0.0.1:1\\"\\ndatabase_url = \\"postgres://h/d\\"\\ndatabase-url = \\"postgres://h/d\\"\\ncolour = 1\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	c, err := readServerConfig(path)
	if err != nil {
		t.Fatal(err)
	}
	if c.DatabaseURL != "postgres://h/d" {
		t.Fatalf("got %+v", c)
	}
}
'''

id="c23-resend"; prop="C23"; pkg="cli"
edits=[("pkg/cli/watch_server_config.go","	watcher.OnWrite = func() {\n","	var lastConfig *server.Config\n\n	watcher.OnWrite = func() {\n"),
("pkg/cli/watch_server_config.go","			log.Errorf(\"error loading config file %s: %v\", configPath, err)\n			return\n		}\n\n		configChan <- updatedConfig\n","			log.Errorf(\"error loading config file %s: %v\", configPath, err)\n\n			// Make sure that the server still has the last good config\n			updatedConfig = lastConfig\n		}\n\n		if updatedConfig != nil {\n			configChan <- updatedConfig\n			lastConfig = updatedConfig\n		}\n")]
needs="a valid write followed by an invalid one"
breaks="the previous configuration is delivered once more when the new one does not load"
demo='''
package cli

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "c.toml")
	if err := ioutil.WriteFile(path, []byte("listen = \\"127.0.0.1:1\\"\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	ch := make(chan *server.Config, 10)
	if err := watchServerConfig(path, ch); err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(path, os.O_WRONLY, 0o600)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if _, err := f.WriteAt([]byte("listen = \\"127.0.0.1:2\\"\\n"), 0); err != nil {
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	if _, err := f.WriteAt([]byte("listen ? \\"127.0.0.1:3\\"\\n"), 0); err != nil {
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	if n := len(ch); n != 1 {
		t.Fatalf("%d configurations have been delivered", n)
	}
}
'''

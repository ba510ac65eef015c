id="c23-drop"; prop="C23"; pkg="cli"
edits=[("pkg/cli/watch_server_config.go","		configChan <- updatedConfig\n","		select {\n		case configChan <- updatedConfig:\n		default:\n			// The server is busy with the previous one\n			log.Debugf(\"config %s is already being updated\", configPath)\n		}\n")]
needs="a write while the previous configuration has not been taken yet"
breaks="the new configuration is never delivered"
demo='''
package cli

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/server"
)

func TestSeededDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "c.toml")
	one := []byte("listen = \\"127.0.0.1:1\\"\\n")
	two := []byte("listen = \\"127.0.0.1:2\\"\\n")
	if err := ioutil.WriteFile(path, one, 0o600); err != nil {
		t.Fatal(err)
	}
	ch := make(chan *server.Config, 1)
	ch <- &server.Config{Listen: "first"}
	if err := watchServerConfig(path, ch); err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(path, os.O_WRONLY, 0o600)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if _, err := f.Write(two); err != nil {
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	<-ch
	select {
	case c := <-ch:
		if c.Listen != "127.0.0.1:2" {
			t.Fatalf("got %+v", c)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the configuration has not been delivered")
	}
}
'''

id="c16-eof"; prop="C16"; pkg="server"
edits=[("pkg/server/config_distributor.go","""				p.Close()

				return
""","""				p.closed.Fire()

				return
""")]
needs="the source is closed while there are subscriptions"
breaks="the subscriptions are not cancelled when the source is closed"
demo='''
package server

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	src := make(chan *Config)
	p := NewConfigDistributor(src)
	if err := p.Subscribe(make(chan *Config, 1)); err != nil {
		t.Fatal(err)
	}
	close(src)
	for i := 0; i < 1000; i++ {
		p.mu.RLock()
		n := len(p.subscriptions)
		p.mu.RUnlock()
		if n == 0 && p.closed.HasFired() {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatal("a closed store still has a subscription")
}
'''

id="c14-get-nil"; prop="C14"; pkg="server"
edits=[("pkg/server/config_distributor.go","""			p.mu.Lock()
			{
				oldConfig := p.lastConfig
				p.lastConfig = newConfig

				p.notifySubscribersLocked(oldConfig, newConfig)
			}
			p.mu.Unlock()
""","""			p.mu.RLock()
			oldConfig := p.lastConfig
			p.notifySubscribersLocked(oldConfig, newConfig)
			p.mu.RUnlock()

			p.mu.Lock()
			p.lastConfig = newConfig
			p.mu.Unlock()
""")]
needs="a Get between the delivery of an update to a subscriber and the update of the current configuration"
breaks="Get returns the previous configuration, a subscription in between misses the update"
demo='''
package server

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	src := make(chan *Config)
	p := NewConfigDistributor(src)
	defer p.Close()
	// the subscriber gets the update within the check, when the lock is held: Get must not be able to return the old one
	asked := make(chan struct{})
	ch := make(chan *Config)
	if err := p.Subscribe(ch, func(o, n *Config) bool { close(asked); return true }); err != nil {
		t.Fatal(err)
	}
	src <- &Config{Listen: "first"}
	<-asked
	got := make(chan error, 1)
	go func() {
		// blocks until the update is delivered
		p.mu.RLock()
		c := p.lastConfig
		p.mu.RUnlock()
		if c == nil {
			got <- ErrSessionClosed
		}
		got <- nil
	}()
	time.Sleep(100 * time.Millisecond)
	<-ch
	select {
	case err := <-got:
		if err != nil {
			t.Fatal("the configuration that is being published is not the current one")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("deadlock")
	}
}
'''

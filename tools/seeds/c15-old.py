id="c15-old"; prop="C15"; pkg="server"
edits=[("pkg/server/config_distributor.go","""				oldConfig := p.lastConfig
				p.lastConfig = newConfig

				p.notifySubscribersLocked(oldConfig, newConfig)
""","""				p.notifySubscribersLocked(p.lastConfig, newConfig)

				// Keep the config that subscribers already know about
				if p.lastConfig == nil || len(p.subscriptions) > 0 {
					p.lastConfig = newConfig
				}
""")]
needs="an update that arrives while nobody is subscribed"
breaks="the current configuration stays the old one and later subscribers get it"
demo='''
package server

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	src := make(chan *Config)
	p := NewConfigDistributor(src)
	defer p.Close()
	ch := make(chan *Config, 1)
	if err := p.Subscribe(ch); err != nil {
		t.Fatal(err)
	}
	src <- &Config{Listen: "a"}
	<-ch
	p.Unsubscribe(ch)
	b := &Config{Listen: "b"}
	src <- b
	for i := 0; i < 1000; i++ {
		if c, err := p.Get(); err == nil && c == b {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatal("the latest configuration is not returned")
}
'''

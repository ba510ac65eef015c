id="c15-lastcheck"; prop="C15"; pkg="server"
edits=[("pkg/server/config_distributor.go","""	for _, fn := range checks {
		if fn(oldConfig, newConfig) {
			return true
		}
	}

	return false
""","""	changed := false

	for _, fn := range checks {
		changed = fn(oldConfig, newConfig)
	}

	return changed
""")]
needs="a subscription with two checks the first of which accepts the update and the second does not"
breaks="the update is not sent to an interested subscriber"
demo='''
package server

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	src := make(chan *Config)
	p := NewConfigDistributor(src)
	defer p.Close()
	ch := make(chan *Config, 1)
	yes := func(o, n *Config) bool { return true }
	no := func(o, n *Config) bool { return false }
	if err := p.Subscribe(ch, yes, no); err != nil {
		t.Fatal(err)
	}
	src <- &Config{}
	select {
	case <-ch:
	case <-time.After(10 * time.Second):
		t.Fatal("the update is not delivered")
	}
}
'''

exec(open("/verif/tools/seeds/_srv.inc").read())
id="c18-sub-nil"; prop="C18"; pkg="server"
edits=[("pkg/server/server.go","""	if err != nil {
		return err
	}

	// Stop watching""","""	// There will be no configuration anymore
	if err == ErrConfigDistributorClosed {
		return nil
	}

	if err != nil {
		return err
	}

	// Stop watching""")]
needs="the configuration store has been closed before Start"
breaks="Start returns success"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	src := make(chan *Config, 5)
	d := NewConfigDistributor(src)
	d.Close()
	srv := NewServer(d)
	defer srv.Close()
	res := make(chan error, 1)
	go func() { res <- srv.Start() }()
	select {
	case err := <-res:
		if err == nil {
			t.Fatal("Start returns success")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("Start does not return")
	}
}
'''

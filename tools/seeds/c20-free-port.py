exec(open("/verif/tools/seeds/_srv.inc").read())
id="c20-free-port"; prop="C20"; pkg="server"
edits=[("pkg/server/server.go","""			// Initialize a new listener
			ln, err := net.Listen("tcp", config.Listen)

			if err != nil {
				log.Errorf("server: can't listen on %s: %v", config.Listen, err)
				continue
			}
""","""			// Initialize a new listener
			ln, err := net.Listen("tcp", config.Listen)

			// The old listener could occupy the new address (e.g., 127.0.0.1:5432 and :5432)
			if err != nil {
				_ = srv.changeListener(nil)
				ln, err = net.Listen("tcp", config.Listen)
			}

			if err != nil {
				log.Errorf("server: can't listen on %s: %v", config.Listen, err)
				continue
			}
""")]
needs="the server can not listen on the new address"
breaks="the existing listener is closed although there is no new one"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	src := make(chan *Config, 5)
	d := NewConfigDistributor(src)
	defer d.Close()
	srv := NewServer(d)
	defer srv.Close()
	go func() { _ = srv.Start() }()
	a := demoFree("127.0.0.1")
	src <- &Config{Listen: a}
	if !demoEventually(func() bool { return demoListens(a) }) {
		t.Fatal("not listening")
	}
	src <- &Config{Listen: "127.0.0.1:http-that-does-not-exist"}
	time.Sleep(300 * time.Millisecond)
	if !demoListens(a) {
		t.Fatal("the existing listener no longer serves")
	}
}
'''

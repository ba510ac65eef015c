exec(open("/verif/tools/seeds/_srv.inc").read())
id="c20-port"; prop="C20"; pkg="server"
edits=[("pkg/server/server.go","""		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
""","""		return oldConfig == nil || len(oldConfig.Listen) < len(newConfig.Listen) || oldConfig.Listen[:len(newConfig.Listen)] != newConfig.Listen
""")]
needs="the new listen address is a prefix of the old one (port 80 after port 8080)"
breaks="the change of the listen address is not followed"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	src := make(chan *Config, 5)
	d := NewConfigDistributor(src)
	defer d.Close()
	srv := NewServer(d)
	defer srv.Close()
	go func() { _ = srv.Start() }()
	var long, short string
	for p := 3000; p < 6500; p++ {
		short, long = fmt.Sprintf("127.0.0.1:%d", p), fmt.Sprintf("127.0.0.1:%d7", p)
		a, e1 := net.Listen("tcp", short)
		b, e2 := net.Listen("tcp", long)
		if e1 == nil {
			a.Close()
		}
		if e2 == nil {
			b.Close()
		}
		if e1 == nil && e2 == nil {
			break
		}
	}
	current := func() net.Listener { srv.mu.Lock(); defer srv.mu.Unlock(); return srv.listener }
	src <- &Config{Listen: long}
	if !demoEventually(func() bool { return current() != nil }) {
		t.Fatal("not listening")
	}
	time.Sleep(10 * time.Millisecond)
	src <- &Config{Listen: short}
	if !demoEventually(func() bool { return current().Addr().String() == short }) {
		t.Fatalf("the server listens on %s rather than on %s", current().Addr(), short)
	}
}
'''

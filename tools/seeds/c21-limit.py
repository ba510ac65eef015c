exec(open("/verif/tools/seeds/_srv.inc").read())
id="c21-limit"; prop="C21"; pkg="server"
edits=[("pkg/server/server.go","""	for {
		// NB: we use l not srv.listener here because later can be nil
		conn, err := ln.Accept()
""","""	failures := 0

	for {
		// NB: we use l not srv.listener here because later can be nil
		conn, err := ln.Accept()
"""),
("pkg/server/server.go","""			if errors.As(err, &ne) && ne.Temporary() {
				continue
			}
""","""			if errors.As(err, &ne) && ne.Temporary() && failures < 20 {
				failures++
				continue
			}
""")]
needs="more than twenty temporary errors in the lifetime of a listener"
breaks="accepting ends with a temporary error"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	srv := NewServer(&demoStore{})
	defer srv.Close()
	l := newDemoListener()
	ch := make(chan error, 1)
	go func() { ch <- srv.Serve(l) }()
	for i := 0; i < 60; i++ {
		l.in <- &demoNetErr{temporary: true}
	}
	select {
	case err := <-ch:
		t.Fatalf("Serve ends with %v", err)
	case <-time.After(300 * time.Millisecond):
	}
}
'''

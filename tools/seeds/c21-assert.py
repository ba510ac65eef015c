exec(open("/verif/tools/seeds/_srv.inc").read())
id="c21-assert"; prop="C21"; pkg="server"
edits=[("pkg/server/server.go","""			var ne net.Error
			if errors.As(err, &ne) && ne.Temporary() {
				continue
			}
""","""			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				continue
			}
""")]
needs="a temporary error that is wrapped into another one"
breaks="accepting ends with a temporary error"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	srv := NewServer(&demoStore{})
	defer srv.Close()
	l := newDemoListener()
	ch := make(chan error, 1)
	go func() { ch <- srv.Serve(l) }()
	l.in <- fmt.Errorf("accept: %w", &demoNetErr{temporary: true})
	select {
	case err := <-ch:
		t.Fatalf("Serve ends with %v", err)
	case <-time.After(300 * time.Millisecond):
	}
}
'''

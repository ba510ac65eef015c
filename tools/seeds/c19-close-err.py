exec(open("/verif/tools/seeds/_srv.inc").read())
id="c19-close-err"; prop="C19"; pkg="server"
edits=[("pkg/server/server.go","""			resultErr = srv.listener.Close()
			srv.listener = nil
		}

		// Close every active session
		for s := range srv.sessions {
			err := s.Close()

			if err != nil {
				log.Errorf("server: error closing session: %v", err)
			}
		}
""","""			resultErr = srv.listener.Close()
			srv.listener = nil
		}

		// Close every active session
		for s := range srv.sessions {
			err := s.Close()

			if err != nil {
				log.Errorf("server: error closing session: %v", err)
				break
			}
		}
""")]
needs="several sessions are active and closing one of them fails"
breaks="Close leaves the sessions after the one that could not be closed open"
demo=COMMON+'''
type failingConn struct{ *demoPipe }

func (c failingConn) Close() error { c.demoPipe.Close(); return errors.New("can not close") }

func TestSeededDemo(t *testing.T) {
	srv := NewServer(&demoStore{"postgres://localhost:1/db"})
	var conns []*demoPipe
	for i := 0; i < 8; i++ {
		p := newDemoPipe()
		conns = append(conns, p)
		go func() { _ = srv.ServeConn(failingConn{p}) }()
	}
	for _, p := range conns {
		if !demoWait(p.read) {
			t.Fatal("a connection is not served")
		}
	}
	srv.Close()
	for _, p := range conns {
		if !demoWait(p.done) {
			t.Fatal("a session is left open")
		}
	}
}
'''

exec(open("/verif/tools/seeds/_srv.inc").read())
id="c18-register-nil"; prop="C18"; pkg="server"
edits=[("pkg/server/server.go","""		session.Close()
		return err
""","""		log.Debugf("server: refusing %s: %v", conn.RemoteAddr().String(), err)
		return session.Close()
""")]
needs="the server is closed after ServeConn has looked whether it is closed and before the session is registered"
breaks="ServeConn returns success on a closed server"
demo=COMMON+'''
type demoAddrConn struct {
	*demoPipe
	f    func()
	once sync.Once
}

func (c *demoAddrConn) RemoteAddr() net.Addr { c.once.Do(c.f); return c.demoPipe.RemoteAddr() }

func TestSeededDemo(t *testing.T) {
	srv := NewServer(&demoStore{"postgres://localhost:1/db"})
	p := newDemoPipe()
	err := srv.ServeConn(&demoAddrConn{demoPipe: p, f: func() { _ = srv.Close() }})
	if err != ErrServerClosed {
		t.Fatalf("ServeConn on a closed server returns %v", err)
	}
	if !demoWait(p.done) {
		t.Fatal("the connection is left open")
	}
}
'''

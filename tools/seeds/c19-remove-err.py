exec(open("/verif/tools/seeds/_srv.inc").read())
id="c19-remove-err"; prop="C19"; pkg="server"
edits=[("pkg/server/server.go","""	// Automatically remove session from the list
	defer srv.removeSession(session)

""",""),
("pkg/server/server.go","""	// Start the proxied DB session
	return session.Start()
""","""	// Start the proxied DB session
	err = session.Start()

	// Remove session from the list; sessions that failed are closed already
	if err == nil {
		srv.removeSession(session)
	}

	return err
""")]
needs="a session ends with an error on a server that goes on"
breaks="sessions that ended stay in the set of active sessions of a server that goes on"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	srv := NewServer(&demoStore{"postgres://localhost:1/db"})
	defer srv.Close()
	p := newDemoPipe()
	done := make(chan struct{})
	go func() { _ = srv.ServeConn(p); close(done) }()
	if !demoWait(p.read) {
		t.Fatal("not served")
	}
	srv.mu.Lock()
	for s := range srv.sessions {
		s.Close()
	}
	srv.mu.Unlock()
	if !demoWait(done) {
		t.Fatal("ServeConn does not return")
	}
	srv.mu.Lock()
	defer srv.mu.Unlock()
	if len(srv.sessions) != 0 {
		t.Fatal("a session that ended is still tracked")
	}
}
'''

exec(open("/verif/tools/seeds/_sess.inc").read())
id="c27-dcl"; prop="C27"; pkg="server"
edits=[("pkg/server/session.go","""	s.mu.Lock()
	defer s.mu.Unlock()

	// First call to getDBConnnectionParam — parse params from the config
""","""	// There already are parameters, no need to lock
	if s.dbConnectionParams != nil {
		return s.dbConnectionParams[name], nil
	}

	s.mu.Lock()
	defer s.mu.Unlock()

	// First call to getDBConnnectionParam — parse params from the config
""")]
needs="two goroutines ask for parameters of the same session at once, one of them before they are known"
breaks="the cached connection parameters are read without the lock"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	client, inner := demoPair(t)
	defer client.Close()
	s := NewSession(inner, &demoStore{"postgres://localhost:1/db"})
	if _, err := s.getDBConnnectionParam("host"); err != nil {
		t.Fatal(err)
	}
	s.mu.Lock()
	done := make(chan bool)
	go func() {
		_, _ = s.getDBConnnectionParam("port")
		close(done)
	}()
	select {
	case <-done:
		t.Fatal("the connection parameters are read without the lock")
	case <-time.After(300 * time.Millisecond):
	}
	s.mu.Unlock()
	<-done
}
'''

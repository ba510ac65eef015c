exec(open("/verif/tools/seeds/_sess.inc").read())
id="c13-defer"; prop="C13"; pkg="server"
edits=[("pkg/server/session.go","""	// Automatically close the session
	defer s.Close()

	// Initialize connection params (SSL, encoding, etc.)
	err := s.negotiateSessionParams()

	if err != nil {
		return err
	}
""","""	// Initialize connection params (SSL, encoding, etc.)
	err := s.negotiateSessionParams()

	if err != nil {
		return err
	}

	// Automatically close the session
	defer s.Close()
""")]
needs="the negotiation fails"
breaks="the connection of the client is left open when the negotiation fails"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	client, inner := demoPair(t)
	s := NewSession(inner, &demoStore{"postgres://localhost:1/db"})
	_, _ = client.Write(demoStartup(196608, "user", "u", "database", "other"))
	_ = s.Start()
	_ = client.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, err := client.Read(make([]byte, 1)); err == nil {
		t.Fatal("unexpected data")
	} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
		t.Fatal("the connection of the client is left open")
	}
}
'''

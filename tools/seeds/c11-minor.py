exec(open("/verif/tools/seeds/_sess.inc").read())
id="c11-minor"; prop="C11"; pkg="server"
edits=[("pkg/server/session.go","""	if startupMessage.ProtocolVersion != pg.DefaultProtocolVersion {
""","""	if startupMessage.ProtocolVersion>>16 != pg.DefaultProtocolVersion>>16 {
""")]
needs="a client asks for a minor version of the protocol other than 3.0"
breaks="a connection to the database is opened for a client with another version of the protocol"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	ln := demoListen(t)
	client, inner := demoPair(t)
	s := NewSession(inner, &demoStore{"postgres://" + ln.Addr().String() + "/db"})
	_, _ = client.Write(demoStartup(196610, "user", "u", "database", "db"))
	done := make(chan bool, 1)
	go func() {
		c, err := ln.Accept()
		if err == nil {
			c.Close()
		}
		done <- err == nil
	}()
	_ = s.Start()
	time.Sleep(200 * time.Millisecond)
	ln.Close()
	if <-done {
		t.Fatal("the database was connected for protocol 3.2")
	}
}
'''

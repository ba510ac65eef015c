exec(open("/verif/tools/seeds/_sess.inc").read())
id="c13-malformed"; prop="C13"; pkg="server"
edits=[("pkg/server/session.go","""		message, err := s.dbConn.RecvMessage()

		if err != nil {
			return err
		}
""","""		message, err := s.dbConn.RecvMessage()

		// Let the client see what is understood
		if err == pg.ErrMalformedMessage {
			continue
		}

		if err != nil {
			return err
		}
""")]
needs="the database sends a message of a known type with a malformed body"
breaks="the session goes on although the database sent a malformed message, which is lost"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	_, client, db, errc := demoSession(t, nil)
	defer client.Close()
	_, _ = db.Write(demoMsg('Z', "too long"))
	select {
	case err := <-errc:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the session goes on")
	}
}
'''

exec(open("/verif/tools/seeds/_sess.inc").read())
id="c12-once"; prop="C12"; pkg="server"
edits=[("pkg/server/session.go","""		log.Info("session: client requested SSL; denying")

		err = s.clientConn.SendByte('N')

		if err != nil {
			return err
		}
""","""		// It is enough to say no once
		if !declined {
			log.Info("session: client requested SSL; denying")

			err = s.clientConn.SendByte('N')

			if err != nil {
				return err
			}

			declined = true
		}
"""),("pkg/server/session.go","""	for startupMessage.ProtocolVersion == pg.SSLRequestMagic {
""","""	for declined := false; startupMessage.ProtocolVersion == pg.SSLRequestMagic; {
""")]
needs="a client repeats the SSL request"
breaks="the second SSL request is not answered, so that the client waits forever"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	client, inner := demoPair(t)
	s := NewSession(inner, &demoStore{"postgres://localhost:1/db"})
	go s.Start()
	for i := 0; i < 3; i++ {
		_, _ = client.Write([]byte{0, 0, 0, 8, 4, 210, 22, 47})
		if b := demoReadN(t, client, 1); b[0] != 'N' {
			t.Fatalf("answer %q", b)
		}
	}
}
'''

exec(open("/verif/tools/seeds/_sess.inc").read())
id="c12-tell"; prop="C12"; pkg="server"
edits=[("pkg/server/session.go","""		return fmt.Errorf("session: unsupported PG protocol version %v", startupMessage.ProtocolVersion)
""","""		_ = s.clientConn.SendMessage(&pg.CommandCompleteMessage{Tag: "unsupported"})

		return fmt.Errorf("session: unsupported PG protocol version %v", startupMessage.ProtocolVersion)
""")]
needs="a client uses another version of the protocol (or asks for GSSAPI encryption)"
breaks="something else than N is written to the client during the negotiation"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	client, inner := demoPair(t)
	s := NewSession(inner, &demoStore{"postgres://localhost:1/db"})
	go s.Start()
	_, _ = client.Write(append([]byte{0, 0, 0, 8, 4, 210, 22, 47}, demoStartup(196607)...))
	if b, _ := demoRead(client); string(b) != "N" {
		t.Fatalf("the client got %q", b)
	}
}
'''

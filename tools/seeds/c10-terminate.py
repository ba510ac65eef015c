exec(open("/verif/tools/seeds/_sess.inc").read())
id="c10-terminate"; prop="C10"; pkg="server"
edits=[("pkg/server/session.go","""		message, ok := <-s.dbOut

		// Channel is closed — exit
		if !ok {
			return sendErr
		}
""","""		message, ok := <-s.dbOut

		// Channel is closed or the client has said goodbye — exit
		if _, bye := message.(*pg.TerminateMessage); !ok || bye {
			return sendErr
		}
""")]
needs="the client terminates the session properly, with a Terminate message"
breaks="the Terminate message of the client does not reach the database"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	_, client, db, _ := demoSession(t, nil)
	want := append(demoMsg('Q', "SELECT 1\\x00"), demoMsg('X', "")...)
	_, _ = client.Write(want)
	client.Close()
	if got, _ := demoRead(db); !bytes.Equal(got, want) {
		t.Fatalf("the database got %q instead of %q", got, want)
	}
}
'''

exec(open("/verif/tools/seeds/_sess.inc").read())
id="c13-outcome"; prop="C13"; pkg="server"
edits=[("pkg/server/session.go","""	err = g.Wait()

	if err != nil {
		log.Errorf("session: error: %v", err)
""","""	if err := g.Wait(); err != nil {
		log.Errorf("session: error: %v", err)
""")]
needs="an established session that ends with an error, whose caller looks at the outcome"
breaks="the outcome of the session is logged but not reported to the caller"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	_, client, db, errc := demoSession(t, nil)
	// a message of an impossible length
	_, _ = db.Write([]byte{'Z', 0, 0, 0, 1})
	defer client.Close()
	defer db.Close()
	go func() { _, _ = demoRead(client); client.Close() }()
	select {
	case err := <-errc:
		if err == nil {
			t.Fatal("the session does not report that the database sent a malformed message")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("the session does not end")
	}
}
'''

exec(open("/verif/tools/seeds/_sess.inc").read())
id="c13-close-err"; prop="C13"; pkg="server"
edits=[("pkg/server/session.go","""	if s.dbConn != nil {
		err = s.dbConn.Close()

		log.Debugf""","""	if err == nil && s.dbConn != nil {
		err = s.dbConn.Close()

		log.Debugf""")]
needs="closing the connection of the client fails"
breaks="the connection to the database is left open"
demo=COMMON+'''
type demoBad struct{ net.Conn }

func (c *demoBad) Close() error { _ = c.Conn.Close(); return io.ErrClosedPipe }

func TestSeededDemo(t *testing.T) {
	s, client, db, _ := demoSession(t, func(c net.Conn) net.Conn { return &demoBad{c} })
	defer client.Close()
	_ = s.Close()
	_ = db.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, err := db.Read(make([]byte, 1)); err == nil {
		t.Fatal("unexpected data")
	} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
		t.Fatal("the connection to the database is left open")
	}
}
'''

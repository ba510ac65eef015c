exec(open("/verif/tools/seeds/_sess.inc").read())
id="c11-fold"; prop="C11"; pkg="server"
edits=[("pkg/server/session.go","""	if dbName := startupMessage.GetParameter("database"); dbName != allowedDB {
		return""","""	if dbName := startupMessage.GetParameter("database"); !strings.EqualFold(dbName, allowedDB) {
		return"""),
("pkg/server/session.go","""param.Name == "database" && param.Value != allowedDB {""","""param.Name == "database" && !strings.EqualFold(param.Value, allowedDB) {"""),
("pkg/server/session.go",'''	"net"
	"sync"
''','''	"net"
	"strings"
	"sync"
''')]
needs="a client asks for a database whose name differs from the configured one only in case"
breaks="the client reaches another database than the configured one"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	ln := demoListen(t)
	defer ln.Close()
	client, inner := demoPair(t)
	s := NewSession(inner, &demoStore{"postgres://" + ln.Addr().String() + "/db"})
	_, _ = client.Write(demoStartup(196608, "user", "u", "database", "DB"))
	go func() {
		if c, err := ln.Accept(); err == nil {
			time.Sleep(100 * time.Millisecond)
			c.Close()
			client.Close()
		}
	}()
	_ = s.Start()
	_ = ln.(*net.TCPListener).SetDeadline(time.Now())
	if s.dbConn != nil {
		t.Fatal("the client got to a database that is not the configured one")
	}
}
'''

exec(open("/verif/tools/seeds/_sess.inc").read())
id="c10-retry"; prop="C10"; pkg="server"
edits=[("pkg/pg/conn.go","""	_, err := h.conn.Write(msg.Frame().Bytes())
	return err
}
""","""	frame := msg.Frame().Bytes()
	_, err := h.conn.Write(frame)

	// Try again after a temporary error
	if ne, ok := err.(net.Error); ok && ne.Temporary() {
		_, err = h.conn.Write(frame)
	}

	return err
}
""")]
needs="writing to a connection is interrupted by a temporary error in the middle of a message"
breaks="a part of a message is sent twice"
demo=COMMON+'''
type demoTemp struct{}

func (demoTemp) Error() string   { return "temporary" }
func (demoTemp) Temporary() bool { return true }
func (demoTemp) Timeout() bool   { return false }

// demoShort interrupts the first long write.
type demoShort struct {
	net.Conn
	done bool
}

func (c *demoShort) Write(b []byte) (int, error) {
	if !c.done && len(b) > 20 {
		c.done = true
		n, _ := c.Conn.Write(b[:10])
		return n, demoTemp{}
	}
	return c.Conn.Write(b)
}

func TestSeededDemo(t *testing.T) {
	_, client, db, _ := demoSession(t, func(c net.Conn) net.Conn { return &demoShort{Conn: c} })
	want := append(demoMsg('C', "SELECT 1\\x00"), demoMsg('D', "\\x00\\x01\\x00\\x00\\x00\\x10abcdefghijklmnop")...)
	want = append(want, demoMsg('Z', "I")...)
	_, _ = db.Write(want)
	time.Sleep(100 * time.Millisecond)
	db.Close()
	if got, _ := demoRead(client); !bytes.HasPrefix(want, got) {
		t.Fatalf("the client got %q, the database sent %q", got, want)
	}
}
'''

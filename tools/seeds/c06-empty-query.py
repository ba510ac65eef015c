id="c06-empty-query"; prop="C06"; pkg="pg"
edits=[("pkg/pg/conn.go","	case EmptyQueryResponseMessageType:\n		return ParseEmptyQueryResponseMessage(frame)\n","	case EmptyQueryResponseMessageType:\n		// NB: both mark the end of a command\n		return ParseGenericMessage(frame)\n")]
needs="a backend that answers an empty query string"
breaks="EmptyQueryResponse is received as an opaque message"
demo='''
package pg

import (
	"net"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	go func() { a.Write([]byte{'I', 0, 0, 0, 4}) }()
	m, err := NewConn(b).RecvMessage()
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := m.(*EmptyQueryResponseMessage); !ok {
		t.Fatalf("received as %T", m)
	}
}
'''

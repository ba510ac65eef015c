id="c03-auth-salt"; prop="C03"; pkg="pg"
edits=[("pkg/pg/authentication_request_message.go","		salt, err := messageData.ReadBytes(4)\n","		salt, err := messageData.ReadBytes(messageData.Len())\n")]
needs="an MD5 authentication request whose salt does not have four bytes"
breaks="a request with a short or long salt is accepted and changed"
demo='''
package pg

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for n := 0; n < 9; n++ {
		f := NewStandardFrame('R', append([]byte{0, 0, 0, 5}, bytes.Repeat([]byte{7}, n)...))
		m, err := ParseAuthenticationRequestMessage(f)
		if err == nil && !bytes.Equal(m.Frame().Bytes(), f) {
			t.Fatalf("%x is accepted and becomes %x", []byte(f), m.Frame().Bytes())
		}
	}
}
'''

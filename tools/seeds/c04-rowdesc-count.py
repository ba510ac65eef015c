id="c04-rowdesc-count"; prop="C04"; pkg="pg"
edits=[("pkg/pg/negotiate_protocol_version_message.go","	for i := 0; i < int(unrecognizedOptionsCount); i++ {\n		unrecognizedOptions[i], err = messageData.ReadString()\n","	for i := 0; messageData.Len() > 0; i++ {\n		unrecognizedOptions[i], err = messageData.ReadString()\n")]
needs="a frame with more options than its count says"
breaks="such a frame makes the parser panic with an index out of range"
demo='''
package pg

import "testing"

func TestSeededDemo(t *testing.T) {
	f := NewStandardFrame('v', []byte{0, 3, 0, 0, 0, 0, 0, 1, 'a', 0, 'b', 0})
	if _, err := ParseNegotiateProtocolVersionMessage(f); err == nil {
		t.Fatal("no error")
	}
}
'''

id="c07-string-limit"; prop="C07"; pkg="pg"
edits=[("pkg/pg/read_buffer.go","	nullIndex := bytes.IndexByte(*b, 0)\n","	head := *b\n\n	if len(head) > 8192 {\n		head = head[:8192]\n	}\n\n	nullIndex := bytes.IndexByte(head, 0)\n")]
needs="a string of more than 8191 bytes"
breaks="long strings are rejected although their terminator is in the buffer"
demo='''
package pg

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	s := strings.Repeat("x", 10000)
	b := ReadBuffer(s + "\\000rest")
	if got, err := b.ReadString(); err != nil || got != s || string(b) != "rest" {
		t.Fatal(len(got), err)
	}
}
'''

id="c05-partial-eof"; prop="C05"; pkg="pg"
edits=[("pkg/pg/standard_frame.go","	_, err = io.CopyN(buffer, r, int64(frameLength-4))\n\n	if err != nil {\n","	_, err = io.CopyN(buffer, r, int64(frameLength-4))\n\n	if err != nil && err != io.EOF {\n")]
needs="a stream that ends in the middle of a frame"
breaks="a partial frame is returned as a complete one"
demo='''
package pg

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	f, err := ReadStandardFrame(bytes.NewReader([]byte{'Q', 0, 0, 0, 9, 'a', 'b'}))
	if err == nil {
		t.Fatalf("partial frame %x without an error", []byte(f))
	}
}
'''

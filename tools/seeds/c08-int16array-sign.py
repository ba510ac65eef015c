id="c08-int16array-sign"; prop="C08"; pkg="pg"
edits=[("pkg/pg/write_buffer.go","		binary.BigEndian.PutUint16(arrBytes[i*2:i*2+2], uint16(arr[i]))\n","		if arr[i] == -1 && i > 0 {\n			continue\n		}\n\n		binary.BigEndian.PutUint16(arrBytes[i*2:i*2+2], uint16(arr[i]))\n")]
needs="an array with -1 after its first element"
breaks="such elements are written as 0"
demo='''
package pg

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	var b WriteBuffer
	b.WriteInt16Array([]int16{-1, 2, -1})
	if !bytes.Equal(b, []byte{255, 255, 0, 2, 255, 255}) {
		t.Fatalf("%x", []byte(b))
	}
}
'''

id="c01-datarow-empty"; prop="C01"; pkg="pg"
edits=[("pkg/pg/data_row_message.go","		if value == nil {\n","		if len(value) == 0 {\n")]
needs="a row with an empty, non-NULL value"
breaks="an empty value is serialised as NULL"
demo='''
package pg

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m := &DataRowMessage{Values: [][]byte{{}, nil, []byte("x")}}
	want := []byte{'D', 0, 0, 0, 19, 0, 3, 0, 0, 0, 0, 255, 255, 255, 255, 0, 0, 0, 1, 'x'}
	if got := m.Frame().Bytes(); !bytes.Equal(got, want) {
		t.Fatalf("%x instead of %x", got, want)
	}
}
'''

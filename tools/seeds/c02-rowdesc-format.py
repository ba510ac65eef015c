id="c02-rowdesc-format"; prop="C02"; pkg="pg"
edits=[("pkg/pg/row_description_message.go","			DataTypeSize:     dataTypeSize,\n			DataTypeModifier: dataTypeModifier,\n","			DataTypeSize:     dataTypeSize,\n			DataTypeModifier: int32(int16(dataTypeModifier)),\n")]
needs="a type modifier that does not fit into 16 bits, for example of numeric(10,2)"
breaks="the upper half of the type modifier is lost when parsing a row description"
demo='''
package pg

import (
	"reflect"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m := &RowDescriptionMessage{Fields: []*FieldDescriptor{{Name: "n", DataTypeModifier: 655366, DataTypeSize: -1}}}
	got, err := ParseRowDescriptionMessage(m.Frame())
	if err != nil || !reflect.DeepEqual(got, m) {
		t.Fatalf("%v %+v", err, got)
	}
}
'''

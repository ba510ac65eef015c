id="c09-empty-dup"; prop="C09"; pkg="pg"
edits=[("pkg/pg/startup_message.go","	for _, param := range m.Parameters {\n		if param.Name == name {\n			return param.Value\n		}\n	}\n\n	return \"\"\n","	value := \"\"\n\n	for _, param := range m.Parameters {\n		if param.Name == name && param.Value != \"\" {\n			return param.Value\n		}\n	}\n\n	return value\n")]
needs="a startup message with the same parameter twice, first with an empty value"
breaks="a later duplicate wins over an empty first value"
demo='''
package pg

import "testing"

func TestSeededDemo(t *testing.T) {
	m := &StartupMessage{Parameters: []*StartupMessageParameter{{Name: "database", Value: ""}, {Name: "database", Value: "other"}}}
	if v := m.GetParameter("database"); v != "" {
		t.Fatalf("GetParameter returned %q instead of the first value", v)
	}
}
'''

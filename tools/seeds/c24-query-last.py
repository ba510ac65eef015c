id="c24-query-last"; prop="C24"; pkg="pg"
edits=[("pkg/pg/dsn.go","	for k, v := range url.Query() {\n		settings[k] = v[0]\n	}\n","	for k, v := range url.Query() {\n		settings[k] = v[len(v)-1]\n	}\n")]
needs="a URL with the same query parameter twice"
breaks="the last of several query parameters of a name wins"
demo='''
package pg

import "testing"

func TestSeededDemo(t *testing.T) {
	p, err := ParseDatabaseURI("postgres://localhost/db?sslmode=verify-full&sslmode=disable")
	if err != nil {
		t.Fatal(err)
	}
	if p["sslmode"] != "verify-full" {
		t.Fatalf("sslmode is %q", p["sslmode"])
	}
}
'''

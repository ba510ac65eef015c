id="c24-user-db"; prop="C24"; pkg="pg"
edits=[("pkg/pg/dsn.go","	} else {\n		// Default is the same as database user\n		settings[\"database\"] = settings[\"user\"]\n	}\n","	} else if url.User != nil && url.User.Username() != \"\" {\n		// Default is the same as database user\n		settings[\"database\"] = url.User.Username()\n	}\n")]
needs="a URL with an empty user name (and a password, say) and no path"
breaks="the database defaults to the operating system user instead of the (empty) user of the URL"
demo='''
package pg

import "testing"

func TestSeededDemo(t *testing.T) {
	p, err := ParseDatabaseURI("postgres://:secret@localhost")
	if err != nil {
		t.Fatal(err)
	}
	if p["database"] != p["user"] {
		t.Fatalf("database %q, user %q", p["database"], p["user"])
	}
}
'''

package pg

import (
	"fmt"
	"net/url"
	"os/user"
	"strings"
	"testing"
)

// TestVP_C24: query parameters before components before defaults.
func TestVP_C24(t *testing.T) {
	v := newVP(t)
	esc := func(s string) string { return url.PathEscape(s) }
	pick := func(xs ...string) string { return xs[v.r.Intn(len(xs))] }
	osName := ""
	osOK := false
	if u, err := user.Current(); err == nil {
		osName, osOK = u.Username, true
	}
	for i := 0; i < v.n(6000); i++ {
		var b strings.Builder
		want := map[string]string{"host": "localhost", "port": "5432"}
		scheme := pick("postgres", "postgresql", "postgres", "POSTGRES", "http", "postgre", "postgresql2", "pg", "")
		ok := strings.ToLower(scheme) == "postgres" || strings.ToLower(scheme) == "postgresql"
		if scheme != "" {
			b.WriteString(scheme + ":")
		}
		b.WriteString("//")
		userName := osName
		hasUser := osOK
		if v.r.Intn(2) == 0 {
			userName, hasUser = pick("joe", "", "a b", "jo@e", "é"), true
			b.WriteString(esc(userName))
			switch v.r.Intn(3) {
			case 0:
				p := pick("secret", "", "p:w", "x y")
				b.WriteString(":" + url.QueryEscape(strings.ReplaceAll(p, " ", "_")))
				want["password"] = strings.ReplaceAll(p, " ", "_")
			}
			b.WriteString("@")
		}
		if hasUser {
			want["user"] = userName
		}
		if v.r.Intn(2) == 0 {
			h := pick("db.example.com", "127.0.0.1", "[::1]", "HOST")
			b.WriteString(h)
			want["host"] = strings.Trim(h, "[]")
		}
		if v.r.Intn(2) == 0 {
			p := pick("5433", "1", "65535", "")
			b.WriteString(":" + p)
			if p != "" {
				want["port"] = p
			}
		}
		want["database"] = userName
		if v.r.Intn(2) == 0 {
			d := pick("db", "", "a/b", "my db", "postgres")
			b.WriteString("/" + strings.ReplaceAll(esc(d), "%2F", "/"))
			if d != "" {
				want["database"] = d
			}
		}
		if v.r.Intn(2) == 0 {
			sep := "?"
			seen := map[string]bool{}
			for j, n := 0, v.r.Intn(5); j < n; j++ {
				k := pick("host", "port", "user", "database", "password", "sslmode", "dbname", "application_name", "", "Host")
				x := pick("q1", "q2", "", "a b&c")
				b.WriteString(sep + url.QueryEscape(k) + "=" + url.QueryEscape(x))
				sep = "&"
				if !seen[k] {
					want[k] = x
				}
				seen[k] = true
			}
		}
		s := b.String()
		if _, err := url.Parse(s); err != nil {
			ok = false
		}
		if v.r.Intn(20) == 0 {
			s, ok = s+pick("%zz", "\x7f", "?a=%", " "), false
			if u, err := url.Parse(s); err == nil {
				_ = u
				continue // it is valid after all
			}
		}
		v.guard(func() string { return fmt.Sprintf("ParseDatabaseURI(%q)", s) }, func() {
			got, err := ParseDatabaseURI(s)
			if !ok {
				if err == nil || got != nil {
					v.fail("ParseDatabaseURI(%q) gives %v, error %v; expected an error only", s, got, err)
				}
				return
			}
			if err != nil {
				v.fail("ParseDatabaseURI(%q): %v", s, err)
				return
			}
			if fmt.Sprint(map[string]string(got)) != fmt.Sprint(want) {
				v.fail("ParseDatabaseURI(%q) gives %q, expected %q", s, map[string]string(got), want)
			}
		})
	}
}

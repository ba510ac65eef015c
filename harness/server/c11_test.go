package server

import (
	"bytes"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hired/gevulot/pkg/pg"
)

func TestVP_C11(t *testing.T) {
	v := newVP(t)
	names := []string{"database", "user", "Database", "database ", "", "options"}
	values := []string{"db", "", "other", "DB", "db2", "u"}
	for i := 0; i < v.n(120); i++ {
		conf := []string{"db", "db", "", "other"}[v.r.Intn(4)]
		version := uint32(196608)
		if v.r.Intn(8) == 0 {
			version = []uint32{196607, 196609, 131072, 0, 80877102, 0xffffffff, 196608 << 1}[v.r.Intn(7)]
		}
		var params []string
		n := v.r.Intn(6)
		for j := 0; j < n; j++ {
			name := names[v.r.Intn(len(names))]
			if name == "" {
				name = "database"
			}
			value := values[v.r.Intn(len(values))]
			if v.r.Intn(2) == 0 {
				value = conf
			}
			params = append(params, name, value)
		}
		ssl := v.r.Intn(3)
		what := fmt.Sprintf("startup message with version %d and parameters %q, configured database %q", version, params, conf)
		v.guard(func() string { return what }, func() {
			db := vpNewDB()
			decoy := vpNewDB()
			defer decoy.close()
			p := vpSession(db.url(conf), db)
			defer p.close()
			p.start()
			for j := 0; j < ssl; j++ {
				vpWrite(p.client, []byte{0, 0, 0, 8, 4, 210, 22, 47})
				if b, err := vpRead(p.client, 1); err != nil || b[0] != 'N' {
					v.fail("%s: SSL request answered with %x, %v", what, b, err)
					return
				}
			}
			st := vpStartup(version, params...)
			conf := conf
			if ps, err := pg.ParseDatabaseURI(db.url(conf)); err != nil {
				v.fail("%s: the configured URL is not accepted: %v", what, err)
				return
			} else {
				conf = ps["database"]
			}
			allowed, named := version == 196608, false
			for j := 0; j < len(params); j += 2 {
				if params[j] == "database" {
					named = true
					allowed = allowed && params[j+1] == conf
				}
			}
			allowed = allowed && (named || conf == "")
			vpWrite(p.client, st)
			if !allowed {
				err, ok := p.ended(vpPatience)
				if !ok {
					v.fail("%s: the session does not end", what)
				} else if err == nil {
					v.fail("%s: the session ends without an error", what)
				}
				time.Sleep(time.Millisecond)
				if n := atomic.LoadInt32(&db.n); n != 0 {
					v.fail("%s: a connection to the database was opened", what)
				}
				return
			}
			c := db.get()
			if c == nil {
				v.fail("%s: no connection to the database was opened", what)
				return
			}
			p.database = c
			got, err := vpRead(c, len(st))
			if err != nil || !bytes.Equal(got, st) {
				v.fail("%s: the startup message for the database is %x instead of %x (%v)", what, got, st, err)
			}
			q := vpMsg('Q', []byte("x\x00"))
			vpWrite(p.client, q)
			if got, err := vpRead(c, len(q)); err != nil || !bytes.Equal(got, q) {
				v.fail("%s: the database got %x instead of %x (%v) after the startup message", what, got, q, err)
			}
			if n := atomic.LoadInt32(&db.n); n != 1 {
				v.fail("%s: %d connections to the database were opened", what, n)
			}
		})
	}
}

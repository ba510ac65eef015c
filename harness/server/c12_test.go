package server

import (
	"bytes"
	"fmt"
	"sync/atomic"
	"testing"
	"time"
)

func TestVP_C12(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(60); i++ {
		n := v.r.Intn(6)
		if i%20 == 19 {
			n = 20000
		}
		end := v.r.Intn(4)
		what := fmt.Sprintf("%d SSL requests, then case %d", n, end)
		v.guard(func() string { return what }, func() {
			db := vpNewDB()
			p := vpSession(db.url("db"), db)
			defer p.close()
			p.start()
			ssl := []byte{0, 0, 0, 8, 4, 210, 22, 47}
			if n > 100 || v.r.Intn(2) == 0 {
				go vpWrite(p.client, bytes.Repeat(ssl, n))
			} else {
				for j := 0; j < n; j++ {
					vpWrite(p.client, ssl)
					time.Sleep(time.Duration(v.r.Intn(300)) * time.Microsecond)
				}
			}
			got, err := vpRead(p.client, n)
			if err != nil || !bytes.Equal(got, bytes.Repeat([]byte{'N'}, n)) {
				if len(got) > 20 {
					got = got[:20]
				}
				v.fail("%s: answers are %q, %v", what, got, err)
				return
			}
			switch end {
			case 0:
				st := vpStartup(196608, "user", "u", "database", "db")
				vpWrite(p.client, st)
				if p.database = db.get(); p.database == nil {
					v.fail("%s: no connection to the database after a startup message", what)
					return
				}
				if got, err := vpRead(p.database, len(st)); err != nil || !bytes.Equal(got, st) {
					v.fail("%s: the database got %x instead of %x", what, got, st)
				}
				m := vpMsg('Z', []byte{'I'})
				vpWrite(p.database, m)
				if got, err := vpRead(p.client, len(m)); err != nil || !bytes.Equal(got, m) {
					v.fail("%s: the client got %q instead of %q", what, got, m)
				}
				return
			case 1:
				vpWrite(p.client, vpStartup(196608, "user", "u", "database", "x"))
			case 2:
				vpWrite(p.client, vpStartup(196609, "user", "u", "database", "db"))
			case 3:
				vpWrite(p.client, []byte{0, 0, 0, 3})
			}
			if err, ok := p.ended(vpPatience); !ok {
				v.fail("%s: the session does not end", what)
			} else if err == nil {
				v.fail("%s: the session ends without an error", what)
			}
			p.inner.mu.Lock()
			defer p.inner.mu.Unlock()
			if len(p.inner.w) != n {
				v.fail("%s: %d bytes were written to the client", what, len(p.inner.w))
			}
			if c := atomic.LoadInt32(&db.n); c != 0 {
				v.fail("%s: the database was connected", what)
			}
		})
	}
}

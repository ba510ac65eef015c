package pgmeta

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/lib/pq/oid"
)

// A driver whose result sets and failures are made up here.
type fakeDB struct {
	rows     [][3]driver.Value // oid, relname, nspname
	queryErr bool
	failAt   int // row at which reading on fails, -1 for none
	open     int // open result sets
	queries  int
	other    string
}

type fakeRows struct {
	d    *fakeDB
	cols []string
	i    int
}

func (d *fakeDB) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *fakeDB) Driver() driver.Driver                        { return nil }
func (d *fakeDB) Prepare(q string) (driver.Stmt, error)        { return &fakeStmt{d, q}, nil }
func (d *fakeDB) Close() error                                 { return nil }
func (d *fakeDB) Begin() (driver.Tx, error)                    { return nil, errors.New("no transactions") }

type fakeStmt struct {
	d *fakeDB
	q string
}

func (s *fakeStmt) Close() error                               { return nil }
func (s *fakeStmt) NumInput() int                              { return -1 }
func (s *fakeStmt) Exec([]driver.Value) (driver.Result, error) { return nil, errors.New("not a query") }
func (s *fakeStmt) Query([]driver.Value) (driver.Rows, error) {
	s.d.queries++
	if s.d.queryErr {
		return nil, errors.New("query failed")
	}
	q := strings.Join(strings.Fields(s.q), " ")
	l := strings.ToLower(q)
	a, b := strings.Index(l, "select "), strings.Index(l, " from ")
	if a != 0 || b < 0 {
		s.d.other = q
		return nil, errors.New("unknown query")
	}
	var cols []string
	for _, c := range strings.Split(q[7:b], ",") {
		w := strings.Fields(c)
		if len(w) == 0 {
			s.d.other = q
			return nil, errors.New("unknown query")
		}
		n := strings.ToLower(w[0])
		n = n[strings.LastIndex(n, ".")+1:]
		if n != "oid" && n != "relname" && n != "nspname" {
			s.d.other = q
		}
		cols = append(cols, n)
	}
	s.d.open++
	return &fakeRows{d: s.d, cols: cols}, nil
}

func (r *fakeRows) Columns() []string { return r.cols }
func (r *fakeRows) Close() error      { r.d.open--; return nil }
func (r *fakeRows) Next(dest []driver.Value) error {
	if r.d.failAt == r.i {
		return errors.New("connection lost")
	}
	if r.i >= len(r.d.rows) {
		return io.EOF
	}
	for j, c := range r.cols {
		switch c {
		case "oid":
			dest[j] = r.d.rows[r.i][0]
		case "relname":
			dest[j] = r.d.rows[r.i][1]
		case "nspname":
			dest[j] = r.d.rows[r.i][2]
		default:
			dest[j] = "?"
		}
	}
	r.i++
	return nil
}

// TestVP_C25: the mapping is complete or an error.
func TestVP_C25(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(1500); i++ {
		d := &fakeDB{failAt: -1}
		bad := false
		n := v.r.Intn(6)
		used := map[int64]bool{}
		want := map[oid.Oid]Table{}
		for j := 0; j < n; j++ {
			o := int64(v.r.Uint32())
			if v.r.Intn(3) == 0 {
				o = int64(v.r.Intn(20))
			}
			if used[o] {
				continue
			}
			used[o] = true
			row := [3]driver.Value{o, fmt.Sprintf("t%d", v.r.Intn(4)), fmt.Sprintf("s%d", v.r.Intn(3))}
			switch v.r.Intn(30) {
			case 0:
				row[0] = int64(1) << 40 // no object ID
			case 1:
				row[0] = nil
			case 2:
				row[1] = nil
			case 3:
				row[2] = nil
			}
			if row[0] != driver.Value(o) || row[1] == nil || row[2] == nil {
				bad = true
			} else {
				want[oid.Oid(o)] = Table{Schema: row[2].(string), Name: row[1].(string)}
			}
			d.rows = append(d.rows, row)
		}
		if v.r.Intn(4) == 0 {
			d.failAt = v.r.Intn(len(d.rows) + 1)
			bad = true
		}
		if v.r.Intn(20) == 0 {
			d.queryErr, bad = true, true
		}
		what := func() string {
			return fmt.Sprintf("OIDTableMapping with rows %v, query fails %v, reading fails at row %d", d.rows, d.queryErr, d.failAt)
		}
		v.guard(what, func() {
			db := sql.OpenDB(d)
			defer db.Close()
			m, err := (&Inspector{db: db}).OIDTableMapping()
			switch {
			case d.other != "" || (d.queries != 1 && !bad):
				return // another query: nothing is known about it
			case err == nil && bad:
				v.fail("%s: no error, mapping %v", what(), m)
			case err != nil && !bad:
				v.fail("%s: error %v", what(), err)
			case err != nil && m != nil:
				v.fail("%s: a mapping %v with the error %v", what(), m, err)
			case err == nil && fmt.Sprint(m) != fmt.Sprint(want):
				v.fail("%s: mapping %v, expected %v", what(), m, want)
			}
			if d.open != 0 {
				v.fail("%s: %d result sets left open", what(), d.open)
			}
		})
	}
	// connecting fails: nothing of the database handle is left
	openers := func() int {
		b := make([]byte, 1<<20)
		return strings.Count(string(b[:runtime.Stack(b, true)]), "connectionOpener(")
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	addr := l.Addr().String()
	l.Close()
	before := openers()
	v.guard(func() string { return "Inspect of a closed port" }, func() {
		i, err := Inspect("postgres://joe@" + addr + "/db?sslmode=disable")
		if err == nil {
			v.fail("Inspect of a closed port succeeds: %v", i)
			return
		}
		for k := 0; k < 100 && openers() > before; k++ {
			time.Sleep(20 * time.Millisecond)
		}
		if openers() > before {
			v.fail("Inspect of a closed port fails with %v and leaves its database handle open", err)
		}
	})
}

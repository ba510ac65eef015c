id="c25-partial-scan"; prop="C25"; pkg="pgmeta"
edits=[("pkg/pgmeta/inspector.go","		err := rows.Scan(&tableOid, &table.Name, &table.Schema)\n\n		if err != nil {\n			return nil, err\n		}\n","		err := rows.Scan(&tableOid, &table.Name, &table.Schema)\n\n		if err != nil && len(mapping) == 0 {\n			return nil, err\n		}\n\n		if err != nil {\n			break\n		}\n")]
needs="a row that cannot be decoded after at least one good row"
breaks="a partial mapping is returned without an error"
demo='''
package pgmeta

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"testing"
)

type demoDB struct{ n int }

func (d *demoDB) Connect(context.Context) (driver.Conn, error)       { return d, nil }
func (d *demoDB) Driver() driver.Driver                              { return nil }
func (d *demoDB) Prepare(q string) (driver.Stmt, error)              { return d, nil }
func (d *demoDB) Close() error                                       { return nil }
func (d *demoDB) Begin() (driver.Tx, error)                          { return nil, errors.New("no") }
func (d *demoDB) NumInput() int                                      { return -1 }
func (d *demoDB) Exec(a []driver.Value) (driver.Result, error)       { return nil, errors.New("no") }
func (d *demoDB) Query(a []driver.Value) (driver.Rows, error)        { return d, nil }
func (d *demoDB) Columns() []string                                  { return []string{"oid", "table", "schema"} }
func (d *demoDB) Next(dest []driver.Value) error {
	if d.n++; d.n > 3 {
		return io.EOF
	}
	dest[0], dest[1], dest[2] = int64(d.n), "t", "s"
	if d.n == 2 {
		dest[0] = "not a number"
	}
	return nil
}

func TestSeededDemo(t *testing.T) {
	i := &Inspector{db: sql.OpenDB(&demoDB{})}
	if m, err := i.OIDTableMapping(); err == nil {
		t.Fatalf("no error, mapping %v", m)
	}
}
'''

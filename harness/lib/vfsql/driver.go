package vfsql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
)

// The native driver.

type connector struct{ db *DB }

func (c *connector) Connect(context.Context) (driver.Conn, error) { return &conn{db: c.db}, nil }
func (c *connector) Driver() driver.Driver                        { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("not supported") }

type conn struct {
	db *DB
	tx *Tx
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}
func (c *conn) Close() error { return nil }
func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

// CheckNamedValue lets every value through; the database converts it.
func (c *conn) CheckNamedValue(*driver.NamedValue) error { return nil }

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.db.step("begin", ""); err != nil {
		return nil, err
	}
	iso := sql.IsolationLevel(o.Isolation)
	c.tx = c.db.begin(ctx, iso == sql.LevelRepeatableRead || iso == sql.LevelSerializable)
	return &dtx{c, c.tx}, nil
}

type dtx struct {
	c *conn
	t *Tx
}

func (d *dtx) Commit() error   { d.c.tx = nil; return d.c.db.end(d.t, true) }
func (d *dtx) Rollback() error { d.c.tx = nil; return d.c.db.end(d.t, false) }

func raw(a []driver.NamedValue) []any {
	out := make([]any, len(a))
	for i := range a {
		out[i] = a[i].Value
	}
	return out
}

func (c *conn) do(ctx context.Context, op, q string, a []driver.NamedValue) (*result, error) {
	if c.tx != nil {
		return c.db.in(c.tx, ctx, op, q, raw(a))
	}
	return c.db.auto(ctx, op, q, raw(a))
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	r, err := c.do(ctx, "query", q, a)
	if err != nil {
		return nil, err
	}
	return &drows{r: r}, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	r, err := c.do(ctx, "exec", q, a)
	if err != nil {
		return nil, err
	}
	return execResult{r.n}, nil
}

type drows struct {
	r  *result
	at int
}

func (d *drows) Columns() []string {
	if d.r.cols == nil && len(d.r.rows) == 0 {
		return []string{}
	}
	return d.r.cols
}
func (d *drows) Close() error { return nil }
func (d *drows) Next(dest []driver.Value) error {
	if d.at >= len(d.r.rows) {
		return io.EOF
	}
	for i, v := range d.r.rows[d.at] {
		dest[i] = outVal(v)
	}
	d.at++
	return nil
}

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := c.db.step("prepare", q); err != nil {
		if c.tx != nil {
			c.tx.aborted = true
		}
		return nil, err
	}
	return &dstmt{c: c, s: &stmtState{tx: c.tx, q: q}}, nil
}

type dstmt struct {
	c *conn
	s *stmtState
}

func (d *dstmt) CheckNamedValue(*driver.NamedValue) error { return nil }
func (d *dstmt) Close() error {
	if d.s.rows != nil && !d.s.done && d.s.tx != nil && !d.s.tx.done {
		_, err := d.s.exec(nil)
		return err
	}
	return nil
}
func (d *dstmt) NumInput() int { return -1 }
func (d *dstmt) Exec(a []driver.Value) (driver.Result, error) {
	return nil, errors.New("not supported")
}
func (d *dstmt) Query(a []driver.Value) (driver.Rows, error) {
	return nil, errors.New("not supported")
}
func (d *dstmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	if d.s.tx == nil {
		r, err := d.c.do(ctx, "exec", d.s.q, a)
		if err != nil {
			return nil, err
		}
		return execResult{r.n}, nil
	}
	return d.s.exec(raw(a))
}
func (d *dstmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	r, err := d.c.do(ctx, "query", d.s.q, a)
	if err != nil {
		return nil, err
	}
	return &drows{r: r}, nil
}

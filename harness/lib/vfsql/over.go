package vfsql

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
)

// In symbolic runs database/sql itself is replaced by the functions below; natively the driver in driver.go is used.

type rowsState struct {
	res    *result
	at     int
	closed bool
	err    error
}

type stmtState struct {
	tx   *Tx
	q    string
	rows [][]interface{}
	done bool
}

var (
	dbs   = map[*sql.DB]*DB{}
	txs   = map[*sql.Tx]*Tx{}
	rowss = map[*sql.Rows]*rowsState{}
	rowOf = map[*sql.Row]*rowsState{}
	stmts = map[*sql.Stmt]*stmtState{}
)

func (db *DB) handle() *sql.DB {
	if !vf.Symbolic() {
		return sql.OpenDB(&connector{db})
	}
	h := new(sql.DB)
	dbs[h] = db
	return h
}

type execResult struct{ n int64 }

func (r execResult) LastInsertId() (int64, error) {
	return 0, errors.New("LastInsertId is not supported by this driver")
}
func (r execResult) RowsAffected() (int64, error) { return r.n, nil }

func toResult(r *result, err error) (sql.Result, error) {
	if err != nil {
		return nil, err
	}
	return execResult{r.n}, nil
}

func toRows(r *result, err error) (*sql.Rows, error) {
	if err != nil {
		return nil, err
	}
	rs := new(sql.Rows)
	rowss[rs] = &rowsState{res: r}
	return rs, nil
}

func toRow(r *result, err error) *sql.Row {
	row := new(sql.Row)
	rowOf[row] = &rowsState{res: r, err: err}
	return row
}

//verif:override (*database/sql.DB).ExecContext
func dbExecContext(h *sql.DB, ctx context.Context, q string, args ...any) (sql.Result, error) {
	return toResult(dbs[h].auto(ctx, "exec", q, args))
}

//verif:override (*database/sql.DB).Exec
func dbExec(h *sql.DB, q string, args ...any) (sql.Result, error) {
	return toResult(dbs[h].auto(nil, "exec", q, args))
}

//verif:override (*database/sql.DB).QueryContext
func dbQueryContext(h *sql.DB, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	return toRows(dbs[h].auto(ctx, "query", q, args))
}

//verif:override (*database/sql.DB).Query
func dbQuery(h *sql.DB, q string, args ...any) (*sql.Rows, error) {
	return toRows(dbs[h].auto(nil, "query", q, args))
}

//verif:override (*database/sql.DB).QueryRowContext
func dbQueryRowContext(h *sql.DB, ctx context.Context, q string, args ...any) *sql.Row {
	return toRow(dbs[h].auto(ctx, "query", q, args))
}

//verif:override (*database/sql.DB).QueryRow
func dbQueryRow(h *sql.DB, q string, args ...any) *sql.Row {
	return toRow(dbs[h].auto(nil, "query", q, args))
}

//verif:override (*database/sql.DB).BeginTx
func dbBeginTx(h *sql.DB, ctx context.Context, opts *sql.TxOptions) (*sql.Tx, error) {
	db := dbs[h]
	if ctx != nil && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	if err := db.step("begin", ""); err != nil {
		return nil, err
	}
	t := new(sql.Tx)
	txs[t] = db.begin(ctx, opts != nil && (opts.Isolation == sql.LevelRepeatableRead || opts.Isolation == sql.LevelSerializable))
	return t, nil
}

//verif:override (*database/sql.DB).Begin
func dbBegin(h *sql.DB) (*sql.Tx, error) { return dbBeginTx(h, context.Background(), nil) }

//verif:override (*database/sql.DB).PingContext
func dbPingContext(h *sql.DB, ctx context.Context) error { return dbs[h].step("ping", "") }

//verif:override (*database/sql.DB).Ping
func dbPing(h *sql.DB) error { return dbs[h].step("ping", "") }

//verif:override (*database/sql.DB).Close
func dbClose(h *sql.DB) error { return nil }

//verif:override (*database/sql.Tx).ExecContext
func txExecContext(t *sql.Tx, ctx context.Context, q string, args ...any) (sql.Result, error) {
	return toResult(txs[t].db.in(txs[t], ctx, "exec", q, args))
}

//verif:override (*database/sql.Tx).Exec
func txExec(t *sql.Tx, q string, args ...any) (sql.Result, error) {
	return toResult(txs[t].db.in(txs[t], nil, "exec", q, args))
}

//verif:override (*database/sql.Tx).QueryContext
func txQueryContext(t *sql.Tx, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	return toRows(txs[t].db.in(txs[t], ctx, "query", q, args))
}

//verif:override (*database/sql.Tx).Query
func txQuery(t *sql.Tx, q string, args ...any) (*sql.Rows, error) {
	return toRows(txs[t].db.in(txs[t], nil, "query", q, args))
}

//verif:override (*database/sql.Tx).QueryRowContext
func txQueryRowContext(t *sql.Tx, ctx context.Context, q string, args ...any) *sql.Row {
	return toRow(txs[t].db.in(txs[t], ctx, "query", q, args))
}

//verif:override (*database/sql.Tx).QueryRow
func txQueryRow(t *sql.Tx, q string, args ...any) *sql.Row {
	return toRow(txs[t].db.in(txs[t], nil, "query", q, args))
}

//verif:override (*database/sql.Tx).PrepareContext
func txPrepareContext(t *sql.Tx, ctx context.Context, q string) (*sql.Stmt, error) {
	tx := txs[t]
	if tx.done {
		return nil, sql.ErrTxDone
	}
	if err := tx.db.step("prepare", q); err != nil {
		tx.aborted = true
		return nil, err
	}
	st := new(sql.Stmt)
	stmts[st] = &stmtState{tx: tx, q: q}
	return st, nil
}

//verif:override (*database/sql.Tx).Prepare
func txPrepare(t *sql.Tx, q string) (*sql.Stmt, error) {
	return txPrepareContext(t, context.Background(), q)
}

//verif:override (*database/sql.Tx).Commit
func txCommit(t *sql.Tx) error { return txs[t].db.end(txs[t], true) }

//verif:override (*database/sql.Tx).Rollback
func txRollback(t *sql.Tx) error { return txs[t].db.end(txs[t], false) }

//verif:override (*database/sql.Stmt).ExecContext
func stmtExecContext(s *sql.Stmt, ctx context.Context, args ...any) (sql.Result, error) {
	st := stmts[s]
	return st.exec(args)
}

func (st *stmtState) exec(args []any) (sql.Result, error) {
	if parse(st.q).Kind != "copy" {
		return toResult(st.tx.db.in(st.tx, nil, "exec", st.q, args))
	}
	if len(args) > 0 {
		st.rows = append(st.rows, append([]any{}, args...))
		return execResult{1}, nil
	}
	st.done = true
	rows := st.rows
	st.rows = nil
	if err := st.tx.db.copyIn(st.tx, st.q, rows); err != nil {
		return nil, err
	}
	return execResult{int64(len(rows))}, nil
}

//verif:override (*database/sql.Stmt).Exec
func stmtExec(s *sql.Stmt, args ...any) (sql.Result, error) { return stmts[s].exec(args) }

//verif:override (*database/sql.Stmt).QueryContext
func stmtQueryContext(s *sql.Stmt, ctx context.Context, args ...any) (*sql.Rows, error) {
	st := stmts[s]
	return toRows(st.tx.db.in(st.tx, ctx, "query", st.q, args))
}

//verif:override (*database/sql.Stmt).QueryRowContext
func stmtQueryRowContext(s *sql.Stmt, ctx context.Context, args ...any) *sql.Row {
	st := stmts[s]
	return toRow(st.tx.db.in(st.tx, ctx, "query", st.q, args))
}

//verif:override (*database/sql.Stmt).Close
func stmtClose(s *sql.Stmt) error {
	st := stmts[s]
	if st.rows != nil && !st.done && !st.tx.done {
		_, err := st.exec(nil)
		return err
	}
	return nil
}

//verif:override (*database/sql.Rows).Next
func rowsNext(r *sql.Rows) bool {
	s := rowss[r]
	if s.closed || s.at >= len(s.res.rows) {
		s.closed = true
		return false
	}
	s.at++
	return true
}

//verif:override (*database/sql.Rows).Scan
func rowsScan(r *sql.Rows, dest ...any) error {
	s := rowss[r]
	if s.closed {
		return errors.New("sql: Rows are closed")
	}
	if s.at == 0 {
		return errors.New("sql: Scan called without calling Next")
	}
	return scan(s.res.rows[s.at-1], dest)
}

//verif:override (*database/sql.Rows).Close
func rowsClose(r *sql.Rows) error { rowss[r].closed = true; return nil }

//verif:override (*database/sql.Rows).Err
func rowsErr(r *sql.Rows) error { return nil }

//verif:override (*database/sql.Rows).Columns
func rowsColumns(r *sql.Rows) ([]string, error) { return append([]string{}, rowss[r].res.cols...), nil }

//verif:override (*database/sql.Row).Scan
func rowScan(r *sql.Row, dest ...any) error {
	s := rowOf[r]
	if s.err != nil {
		return s.err
	}
	if len(s.res.rows) == 0 {
		return sql.ErrNoRows
	}
	return scan(s.res.rows[0], dest)
}

//verif:override (*database/sql.Row).Err
func rowErr(r *sql.Row) error { return rowOf[r].err }

func scan(row []Val, dest []any) error {
	if len(row) != len(dest) {
		return fmt.Errorf("sql: expected %d destination arguments in Scan, not %d", len(row), len(dest))
	}
	for i, d := range dest {
		if err := put(row[i], d); err != nil {
			return fmt.Errorf("sql: Scan error on column index %d: %w", i, err)
		}
	}
	return nil
}

var errNull = errors.New("converting NULL to a non-pointer type is unsupported")

func asText(v Val) string {
	switch x := v.(type) {
	case time.Time:
		return x.Format(time.RFC3339Nano)
	default:
		return text(x)
	}
}

func asInt(v Val) (int64, error) {
	switch x := v.(type) {
	case int64:
		return x, nil
	case *big.Int:
		if !x.IsInt64() {
			return 0, errors.New("converting driver.Value type []uint8 to a int64: value out of range")
		}
		return x.Int64(), nil
	}
	return strconv.ParseInt(asText(v), 10, 64)
}

func asFloat(v Val) (float64, error) {
	switch x := v.(type) {
	case float64:
		return x, nil
	case int64:
		return float64(x), nil
	}
	return strconv.ParseFloat(asText(v), 64)
}

// put stores a value the way database/sql converts it.
func put(v Val, dest any) error {
	switch d := dest.(type) {
	case *string:
		if v == nil {
			return errNull
		}
		*d = asText(v)
		return nil
	case *[]byte:
		if v == nil {
			*d = nil
		} else {
			*d = []byte(asText(v))
		}
		return nil
	case *int:
		if v == nil {
			return errNull
		}
		n, err := asInt(v)
		if err != nil {
			return err
		}
		*d = int(n)
		return nil
	case *int64:
		if v == nil {
			return errNull
		}
		n, err := asInt(v)
		if err != nil {
			return err
		}
		*d = n
		return nil
	case *float64:
		if v == nil {
			return errNull
		}
		f, err := asFloat(v)
		if err != nil {
			return err
		}
		*d = f
		return nil
	case *bool:
		if v == nil {
			return errNull
		}
		b, ok := toBool(v)
		if !ok {
			return errors.New("couldn't convert to a bool")
		}
		*d = b
		return nil
	case *time.Time:
		t, ok := v.(time.Time)
		if !ok {
			return fmt.Errorf("unsupported Scan, storing driver.Value type %T into type *time.Time", v)
		}
		*d = t
		return nil
	case *interface{}:
		*d = outVal(v)
		return nil
	case *sql.NullString:
		if v == nil {
			d.String, d.Valid = "", false
		} else {
			d.String, d.Valid = asText(v), true
		}
		return nil
	case *sql.NullInt64:
		if v == nil {
			d.Int64, d.Valid = 0, false
			return nil
		}
		n, err := asInt(v)
		if err != nil {
			return err
		}
		d.Int64, d.Valid = n, true
		return nil
	case *sql.NullFloat64:
		if v == nil {
			d.Float64, d.Valid = 0, false
			return nil
		}
		f, err := asFloat(v)
		if err != nil {
			return err
		}
		d.Float64, d.Valid = f, true
		return nil
	case *sql.NullBool:
		if v == nil {
			d.Bool, d.Valid = false, false
			return nil
		}
		b, ok := toBool(v)
		if !ok {
			return errors.New("couldn't convert to a bool")
		}
		d.Bool, d.Valid = b, true
		return nil
	case *sql.NullTime:
		if v == nil {
			d.Time, d.Valid = time.Time{}, false
			return nil
		}
		t, ok := v.(time.Time)
		if !ok {
			return fmt.Errorf("unsupported Scan, storing driver.Value type %T into type *time.Time", v)
		}
		d.Time, d.Valid = t, true
		return nil
	case **time.Time:
		if v == nil {
			*d = nil
			return nil
		}
		t, ok := v.(time.Time)
		if !ok {
			return fmt.Errorf("unsupported Scan, storing driver.Value type %T into type *time.Time", v)
		}
		*d = &t
		return nil
	case **string:
		if v == nil {
			*d = nil
			return nil
		}
		s := asText(v)
		*d = &s
		return nil
	case **big.Int:
		return fmt.Errorf("unsupported Scan, storing driver.Value type %T into type *big.Int", outVal(v))
	case *[]string:
		return fmt.Errorf("unsupported Scan, storing driver.Value type %T into type *[]string", outVal(v))
	case sql.Scanner:
		return d.Scan(outVal(v))
	}
	p := reflect.ValueOf(dest)
	if p.Kind() != reflect.Ptr || p.IsNil() {
		return errors.New("destination not a pointer")
	}
	e := p.Elem()
	switch e.Kind() {
	case reflect.String:
		if v == nil {
			return errNull
		}
		e.SetString(asText(v))
		return nil
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v == nil {
			return errNull
		}
		n, err := asInt(v)
		if err != nil {
			return err
		}
		e.SetInt(n)
		return nil
	case reflect.Float64:
		if v == nil {
			return errNull
		}
		f, err := asFloat(v)
		if err != nil {
			return err
		}
		e.SetFloat(f)
		return nil
	}
	vf.Inconclusive(fmt.Sprintf("sql: Scan into %T", dest))
	return nil
}

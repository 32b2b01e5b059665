// Package vfsql is a small in-memory PostgreSQL stand-in: it executes the statements the repository sends, with row
// versions, row locks, unique and foreign keys, and transactions at READ COMMITTED or REPEATABLE READ.
package vfsql

import (
	"context"
	"database/sql"
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
)

type Column struct {
	Name, Type string
	NotNull    bool
	Default    func(db *DB, x *exec) Val
}

type Unique struct {
	Name string
	Cols []int
}

type FK struct {
	Name  string
	Col   int
	Table string
	Ref   int
}

type Table struct {
	Name  string
	Cols  []Column
	Ord   map[string]int
	Uniq  []Unique
	FKs   []FK
	Check func(row []Val) string
	// Trigger may refuse an update or delete (new is nil)
	Trigger func(db *DB, old, new []Val) error
	recs    []*rec
	serial  int64
}

type ver struct {
	seq int
	row []Val // nil when deleted
}

type rec struct {
	vers  []ver
	owner *Tx
	pend  []Val
	dirty bool // pend (nil: deleted) replaces the last version when the owner commits
}

// now is the last committed row.
func (r *rec) now() []Val {
	if len(r.vers) == 0 {
		return nil
	}
	return r.vers[len(r.vers)-1].row
}

func (r *rec) lastSeq() int {
	if len(r.vers) == 0 {
		return 0
	}
	return r.vers[len(r.vers)-1].seq
}

// see is the row a transaction sees at a snapshot.
func (r *rec) see(tx *Tx, snap int) []Val {
	if r.owner == tx && r.dirty {
		return r.pend
	}
	for i := len(r.vers) - 1; i >= 0; i-- {
		if r.vers[i].seq <= snap {
			return r.vers[i].row
		}
	}
	return nil
}

type Tx struct {
	db      *DB
	rr      bool
	snap    int
	aborted bool
	done    bool
	start   time.Time
	recs    []*rec
	waits   *Tx
	ctx     context.Context
	raw     bool
}

type DB struct {
	Tables map[string]*Table
	// Before is asked before every step (op is begin, query, exec, copy, commit or rollback); an error is what the
	// step returns instead of running. A failing commit rolls back.
	Before func(op, q string) error
	// After is asked once a step has run; an error is returned instead of its outcome.
	After func(op, q string) error
	// OnCommit sees every committed state.
	OnCommit func()
	// Ties lets rows that an ORDER BY leaves equal come in any order, as they do in the database.
	Ties bool
	// Quiet turns the switch points off.
	Quiet bool
	// Dead makes every step fail, as after the death of the process or the server.
	Dead bool
	// Steps counts the steps taken.
	Steps int
	// Writes counts the rows written.
	Writes int
	// Log lists the statements when LogOn.
	LogOn bool
	Log   []string

	seq  int
	open []*Tx
	conn *sql.DB
}

var errDead = errors.New("driver: bad connection")

// Find gives the column position, for harnesses.
func (t *Table) Find(c string) int {
	i, ok := t.Ord[c]
	if !ok {
		panic("vfsql: no column " + t.Name + "." + c)
	}
	return i
}

// Rows lists the committed rows.
func (db *DB) Rows(table string) [][]Val {
	var out [][]Val
	for _, r := range db.Tables[table].recs {
		if row := r.now(); row != nil {
			out = append(out, row)
		}
	}
	return out
}

// Get is a committed field of the row with the given key, nil when there is none.
func (db *DB) Get(table, keyCol, key, col string) Val {
	t := db.Tables[table]
	k, c := t.Find(keyCol), t.Find(col)
	for _, r := range t.recs {
		if row := r.now(); row != nil && row[k] != nil && text(row[k]) == key {
			return row[c]
		}
	}
	return nil
}

// Seed adds a committed row, bypassing the checks; the pairs are column, value.
func (db *DB) Seed(table string, kv ...interface{}) {
	t := db.Tables[table]
	if t == nil {
		panic("vfsql: no table " + table)
	}
	row := make([]Val, len(t.Cols))
	set := make([]bool, len(t.Cols))
	for i := 0; i+1 < len(kv); i += 2 {
		c := t.Find(kv[i].(string))
		v, err := toVal(kv[i+1])
		if err != nil {
			v = kv[i+1]
		}
		v, err = coerce(v, t.Cols[c].Type)
		if err != nil {
			panic("vfsql: seed " + table + "." + t.Cols[c].Name + ": " + err.Error())
		}
		row[c], set[c] = v, true
	}
	x := &exec{db: db}
	for i := range t.Cols {
		if !set[i] && t.Cols[i].Default != nil {
			row[i] = t.Cols[i].Default(db, x)
		}
	}
	db.seq++
	t.recs = append(t.recs, &rec{vers: []ver{{db.seq, row}}})
}

// Put overwrites a committed field, as an operator with direct access would.
func (db *DB) Put(table, keyCol, key, col string, v interface{}) {
	t := db.Tables[table]
	k, c := t.Find(keyCol), t.Find(col)
	for _, r := range t.recs {
		row := r.now()
		if row == nil || row[k] == nil || text(row[k]) != key {
			continue
		}
		nr := append([]Val{}, row...)
		nv, err := toVal(v)
		if err != nil {
			nv = v
		}
		nr[c], err = coerce(nv, t.Cols[c].Type)
		if err != nil {
			panic(err.Error())
		}
		db.seq++
		r.vers = append(r.vers, ver{db.seq, nr})
	}
}

// Remove deletes a committed row.
func (db *DB) Remove(table, keyCol, key string) {
	t := db.Tables[table]
	k := t.Find(keyCol)
	for _, r := range t.recs {
		row := r.now()
		if row != nil && row[k] != nil && text(row[k]) == key {
			db.seq++
			r.vers = append(r.vers, ver{db.seq, nil})
		}
	}
}

// Crash ends every open transaction without effect.
func (db *DB) Crash() {
	for len(db.open) > 0 {
		db.rollback(db.open[len(db.open)-1])
	}
}

// Idle reports whether no transaction is open.
func (db *DB) Idle() bool { return len(db.open) == 0 }

func (db *DB) step(op, q string) error {
	if !db.Quiet && vf.InPar() {
		vf.Yield()
	}
	if db.Dead {
		return errDead
	}
	db.Steps++
	if db.LogOn {
		db.Log = append(db.Log, op+" "+q)
	}
	if db.Before != nil {
		return db.Before(op, q)
	}
	return nil
}

func (db *DB) after(op, q string) error {
	if db.After != nil {
		return db.After(op, q)
	}
	return nil
}

func (db *DB) begin(ctx context.Context, rr bool) *Tx {
	tx := &Tx{db: db, rr: rr, snap: -1, start: time.Now(), ctx: ctx}
	db.open = append(db.open, tx)
	return tx
}

func (db *DB) drop(tx *Tx) {
	tx.done = true
	for i, o := range db.open {
		if o == tx {
			db.open = append(append([]*Tx{}, db.open[:i]...), db.open[i+1:]...)
			return
		}
	}
}

func (db *DB) rollback(tx *Tx) {
	if tx.done {
		return
	}
	for _, r := range tx.recs {
		r.owner, r.pend, r.dirty = nil, nil, false
	}
	db.drop(tx)
}

func (db *DB) commit(tx *Tx) error {
	if tx.aborted {
		db.rollback(tx)
		return pgErr("25P02", "pq: Could not complete operation in a failed transaction")
	}
	wrote := false
	for _, r := range tx.recs {
		if r.dirty {
			if !wrote {
				db.seq++
				wrote = true
			}
			db.Writes++
			r.vers = append(r.vers, ver{db.seq, r.pend})
		}
		r.owner, r.pend, r.dirty = nil, nil, false
	}
	db.drop(tx)
	if wrote && db.OnCommit != nil {
		db.OnCommit()
	}
	return nil
}

// wait blocks until the record is free; an error means a deadlock.
func (tx *Tx) wait(r *rec) error {
	for r.owner != nil && r.owner != tx {
		o := r.owner
		for p := o; p != nil; p = p.waits {
			if p == tx {
				return pgErr("40P01", "deadlock detected")
			}
		}
		if !vf.InPar() {
			vf.Inconclusive("sql: the only task waits for a row lock")
		}
		tx.waits = o
		vf.Block(func() bool { return r.owner != o })
		tx.waits = nil
		if tx.done || tx.db.Dead {
			return errDead
		}
		if tx.ctx != nil && tx.ctx.Err() != nil {
			return tx.ctx.Err()
		}
	}
	return nil
}

func (tx *Tx) own(r *rec) {
	if r.owner != tx {
		r.owner = tx
		tx.recs = append(tx.recs, r)
	}
}

// ---- statements

type result struct {
	cols []string
	rows [][]Val
	n    int64
}

// run executes a statement in a transaction; an error aborts the transaction.
func (db *DB) run(tx *Tx, q string, args []interface{}) (*result, error) {
	if tx.aborted {
		return nil, pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	s := parse(q)
	if s.Err != "" {
		vf.Inconclusive("sql: " + s.Err + " in: " + q)
	}
	vals := make([]Val, len(args))
	for i, a := range args {
		v, err := toVal(a)
		if err != nil {
			return nil, err
		}
		vals[i] = v
	}
	if n := params(q); n != len(vals) {
		tx.aborted = true
		return nil, errors.New("pq: got " + strconv.Itoa(len(vals)) + " parameters but the statement requires " + strconv.Itoa(n))
	}
	x := &exec{db: db, tx: tx, args: vals, snap: db.seq}
	if tx.rr {
		if tx.snap < 0 {
			tx.snap = db.seq
		}
		x.snap = tx.snap
	}
	res, err := x.stmt(s)
	if err != nil {
		tx.aborted = true
		return nil, err
	}
	return res, nil
}

// params is the number of parameters of a statement.
//
//verif:memo
func params(q string) int {
	ts, _ := lex(q)
	n := 0
	for _, t := range ts {
		if t.k == "par" && t.n > n {
			n = t.n
		}
	}
	return n
}

// auto executes a statement in a transaction of its own.
func (db *DB) auto(ctx context.Context, op, q string, args []interface{}) (*result, error) {
	if ctx != nil && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	if err := db.step(op, q); err != nil {
		return nil, err
	}
	tx := db.begin(ctx, false)
	res, err := db.run(tx, q, args)
	if err != nil {
		db.rollback(tx)
		return nil, err
	}
	if err := db.commit(tx); err != nil {
		return nil, err
	}
	if err := db.after(op, q); err != nil {
		return nil, err
	}
	return res, nil
}

// in executes a statement in an open transaction.
func (db *DB) in(tx *Tx, ctx context.Context, op, q string, args []interface{}) (*result, error) {
	if tx.done {
		return nil, sql.ErrTxDone
	}
	if ctx != nil && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	if tx.ctx != nil && tx.ctx.Err() != nil {
		db.rollback(tx)
		return nil, tx.ctx.Err()
	}
	if err := db.step(op, q); err != nil {
		// a statement that fails aborts its transaction
		tx.aborted = true
		return nil, err
	}
	res, err := db.run(tx, q, args)
	if err != nil {
		return nil, err
	}
	if err := db.after(op, q); err != nil {
		tx.aborted = true
		return nil, err
	}
	return res, nil
}

func (db *DB) end(tx *Tx, commit bool) error {
	if tx.done {
		return sql.ErrTxDone
	}
	if !commit {
		err := db.step("rollback", "")
		db.rollback(tx)
		return err
	}
	if tx.ctx != nil && tx.ctx.Err() != nil {
		db.rollback(tx)
		return tx.ctx.Err()
	}
	if err := db.step("commit", ""); err != nil {
		db.rollback(tx)
		return err
	}
	if err := db.commit(tx); err != nil {
		return err
	}
	return db.after("commit", "")
}

func lower(s string) string { return strings.ToLower(s) }

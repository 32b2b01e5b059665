package vfsql

import (
	"errors"
	"math/big"
	"time"

	"github.com/lib/pq"
)

func (x *exec) stmt(s *Stmt) (*result, error) {
	n := len(x.ctes)
	if err := x.with(s.With); err != nil {
		return nil, err
	}
	defer func() { x.ctes = x.ctes[:n] }()
	switch s.Kind {
	case "select":
		r, err := x.sel(nil, s.Sel)
		if err != nil {
			return nil, err
		}
		return &result{cols: r.cols, rows: r.rows, n: int64(len(r.rows))}, nil
	case "insert":
		return x.insert(s)
	case "update", "delete":
		return x.change(s)
	}
	bad("statement " + s.Kind)
	return nil, nil
}

func uniqErr(t *Table, u *Unique) error {
	return &pq.Error{Severity: "ERROR", Code: "23505", Message: "duplicate key value violates unique constraint \"" + u.Name + "\"", Table: t.Name, Constraint: u.Name}
}

// clash finds the record that holds the same unique key, waiting for transactions that may still give it up.
func (x *exec) clash(t *Table, u *Unique, row []Val, self *rec) (*rec, error) {
	for _, c := range u.Cols {
		if row[c] == nil {
			return nil, nil
		}
	}
	same := func(o []Val) bool {
		if o == nil {
			return false
		}
		for _, c := range u.Cols {
			if !eqNull(o[c], row[c]) {
				return false
			}
		}
		return true
	}
	for i := 0; i < len(t.recs); i++ {
		r := t.recs[i]
		if r == self {
			continue
		}
		if r.owner == x.tx && r.dirty {
			if same(r.pend) {
				return r, nil
			}
			continue
		}
		if r.owner != nil && r.owner != x.tx && r.dirty {
			was, will := same(r.now()), same(r.pend)
			if was && will {
				return r, nil
			}
			if was || will {
				if err := x.tx.wait(r); err != nil {
					return nil, err
				}
				i = -1
			}
			continue
		}
		if same(r.now()) {
			return r, nil
		}
	}
	return nil, nil
}

// verify checks the constraints of a row that is about to be written; old is nil for an insert.
func (x *exec) verify(t *Table, row, old []Val) error {
	for i := range t.Cols {
		if t.Cols[i].NotNull && row[i] == nil {
			return &pq.Error{Severity: "ERROR", Code: "23502", Message: "null value in column \"" + t.Cols[i].Name + "\" violates not-null constraint", Table: t.Name, Column: t.Cols[i].Name}
		}
	}
	if t.Check != nil {
		if c := t.Check(row); c != "" {
			return &pq.Error{Severity: "ERROR", Code: "23514", Message: "new row for relation \"" + t.Name + "\" violates check constraint \"" + c + "\"", Constraint: c}
		}
	}
	for i := range t.FKs {
		f := &t.FKs[i]
		if row[f.Col] == nil || old != nil && eqNull(old[f.Col], row[f.Col]) {
			continue
		}
		found := false
		for _, r := range x.db.Tables[f.Table].recs {
			cur := r.now()
			if r.owner == x.tx && r.dirty {
				cur = r.pend
			}
			if cur != nil && eqNull(cur[f.Ref], row[f.Col]) {
				found = true
				break
			}
		}
		if !found {
			return &pq.Error{Severity: "ERROR", Code: "23503", Message: "insert or update on table \"" + t.Name + "\" violates foreign key constraint \"" + f.Name + "\"", Table: t.Name, Constraint: f.Name}
		}
	}
	return nil
}

// put inserts a checked row.
func (x *exec) put(t *Table, row []Val) (*rec, *Unique, error) {
	if err := x.verify(t, row, nil); err != nil {
		return nil, nil, err
	}
	for i := range t.Uniq {
		u := &t.Uniq[i]
		r, err := x.clash(t, u, row, nil)
		if err != nil {
			return nil, nil, err
		}
		if r != nil {
			return r, u, nil
		}
	}
	r := &rec{owner: x.tx, pend: row, dirty: true}
	x.tx.recs = append(x.tx.recs, r)
	t.recs = append(t.recs, r)
	return r, nil, nil
}

// fresh builds a row from the listed columns and the defaults.
func (x *exec) fresh(t *Table, cols []int, vals []Val, def []bool) ([]Val, error) {
	row := make([]Val, len(t.Cols))
	set := make([]bool, len(t.Cols))
	for i, c := range cols {
		if i >= len(vals) {
			return nil, pgErr("42601", "INSERT has more target columns than expressions")
		}
		if def != nil && def[i] {
			continue
		}
		v, err := coerce(vals[i], t.Cols[c].Type)
		if err != nil {
			return nil, err
		}
		row[c], set[c] = v, true
	}
	if len(vals) > len(cols) {
		return nil, pgErr("42601", "INSERT has more expressions than target columns")
	}
	for i := range t.Cols {
		if !set[i] && t.Cols[i].Default != nil {
			row[i] = t.Cols[i].Default(x.db, x)
		}
	}
	return row, nil
}

func (x *exec) colsOf(t *Table, names []string) ([]int, error) {
	var out []int
	if len(names) == 0 {
		for i := range t.Cols {
			out = append(out, i)
		}
		return out, nil
	}
	for _, n := range names {
		i, ok := t.Ord[n]
		if !ok {
			return nil, pgErr("42703", "column \""+n+"\" of relation \""+t.Name+"\" does not exist")
		}
		out = append(out, i)
	}
	return out, nil
}

func (t *Table) names() []string {
	var out []string
	for _, c := range t.Cols {
		out = append(out, c.Name)
	}
	return out
}

func (x *exec) insert(s *Stmt) (*result, error) {
	t, err := x.table(s.Table)
	if err != nil {
		return nil, err
	}
	cols, err := x.colsOf(t, s.Cols)
	if err != nil {
		return nil, err
	}
	var lines [][]Val
	var defs [][]bool
	if s.Src != nil {
		r, err := x.sel(nil, s.Src)
		if err != nil {
			return nil, err
		}
		lines = r.rows
	} else {
		for _, ex := range s.Rows {
			var vals []Val
			var def []bool
			for _, e := range ex {
				if _, ok := e.(DefaultVal); ok {
					vals, def = append(vals, nil), append(def, true)
					continue
				}
				v, err := x.eval(nil, e)
				if err != nil {
					return nil, err
				}
				vals, def = append(vals, v), append(def, false)
			}
			lines, defs = append(lines, vals), append(defs, def)
		}
	}
	alias := s.Alias
	if alias == "" {
		alias = t.Name
	}
	res := &result{}
	for i, vals := range lines {
		var def []bool
		if defs != nil {
			def = defs[i]
		}
		row, err := x.fresh(t, cols, vals, def)
		if err != nil {
			return nil, err
		}
		r, u, err := x.put(t, row)
		if err != nil {
			return nil, err
		}
		if u != nil {
			if !s.Conf || len(s.ConfCols) > 0 && !covers(t, u, s.ConfCols) {
				return nil, uniqErr(t, u)
			}
			if s.Nothing {
				continue
			}
			if err := x.tx.wait(r); err != nil {
				return nil, err
			}
			x.tx.own(r)
			cur := r.now()
			if r.dirty {
				cur = r.pend
			}
			e := &env{tabs: []bound{
				{alias: alias, ord: t.Ord, cols: t.names(), types: t.Cols, row: cur, rec: r, tab: t},
				{alias: "excluded", ord: t.Ord, cols: t.names(), types: t.Cols, row: row},
			}}
			if s.SetWhere != nil {
				ok, err := x.cond(e, s.SetWhere)
				if err != nil {
					return nil, err
				}
				if !ok {
					continue
				}
			}
			if row, err = x.assign(t, e, r, cur, s.Set); err != nil {
				return nil, err
			}
		}
		res.n++
		if s.Ret != nil {
			e := &env{tabs: []bound{{alias: alias, ord: t.Ord, cols: t.names(), types: t.Cols, row: row, rec: r, tab: t}}}
			if err := x.ret(res, e, s.Ret); err != nil {
				return nil, err
			}
		}
	}
	if s.Ret != nil {
		res.cols = retCols(t, s.Ret)
	}
	return res, nil
}

func covers(t *Table, u *Unique, cols []string) bool {
	if len(cols) != len(u.Cols) {
		return false
	}
	for _, c := range u.Cols {
		ok := false
		for _, n := range cols {
			ok = ok || t.Cols[c].Name == n
		}
		if !ok {
			return false
		}
	}
	return true
}

func retCols(t *Table, items []Item) []string {
	var out []string
	for _, it := range items {
		if it.Star {
			out = append(out, t.names()...)
		} else {
			out = append(out, it.Alias)
		}
	}
	return out
}

func (x *exec) ret(res *result, e *env, items []Item) error {
	vals, err := x.items(e, items)
	if err != nil {
		return err
	}
	res.rows = append(res.rows, vals)
	return nil
}

// assign writes the new version of an owned record.
func (x *exec) assign(t *Table, e *env, r *rec, cur []Val, set []Assign) ([]Val, error) {
	row := append([]Val{}, cur...)
	for _, a := range set {
		c, ok := t.Ord[a.Col]
		if !ok {
			return nil, pgErr("42703", "column \""+a.Col+"\" of relation \""+t.Name+"\" does not exist")
		}
		v, err := x.eval(e, a.E)
		if err != nil {
			return nil, err
		}
		if row[c], err = coerce(v, t.Cols[c].Type); err != nil {
			return nil, err
		}
	}
	if t.Trigger != nil {
		if err := t.Trigger(x.db, cur, row); err != nil {
			return nil, err
		}
	}
	if err := x.verify(t, row, cur); err != nil {
		return nil, err
	}
	for i := range t.Uniq {
		u := &t.Uniq[i]
		changed := false
		for _, c := range u.Cols {
			if !eqNull(row[c], cur[c]) {
				changed = true
			}
		}
		if !changed {
			continue
		}
		o, err := x.clash(t, u, row, r)
		if err != nil {
			return nil, err
		}
		if o != nil {
			return nil, uniqErr(t, u)
		}
	}
	r.pend, r.dirty = row, true
	return row, nil
}

func (x *exec) change(s *Stmt) (*result, error) {
	t, err := x.table(s.Table)
	if err != nil {
		return nil, err
	}
	alias := s.Alias
	if alias == "" {
		alias = t.Name
	}
	var base []*env
	for _, r := range t.recs {
		if row := r.see(x.tx, x.snap); row != nil {
			base = append(base, &env{tabs: []bound{{alias: alias, ord: t.Ord, cols: t.names(), types: t.Cols, row: row, rec: r, tab: t}}})
		}
	}
	if base, err = x.join(nil, s.From, base); err != nil {
		return nil, err
	}
	res := &result{}
	var done []*rec
	for _, e := range base {
		ok, err := x.cond(e, s.Where)
		if err != nil {
			return nil, err
		}
		if !ok {
			continue
		}
		r := e.tabs[0].rec
		dup := false
		for _, d := range done {
			dup = dup || d == r
		}
		if dup {
			continue
		}
		if r.owner != nil && r.owner != x.tx {
			if err := x.tx.wait(r); err != nil {
				return nil, err
			}
		}
		if !(r.owner == x.tx && r.dirty) && r.lastSeq() > x.snap {
			if x.tx.rr {
				return nil, pgErr("40001", "could not serialize access due to concurrent update")
			}
			e.tabs[0].row = r.now()
			if e.tabs[0].row == nil {
				continue
			}
			ok, err := x.cond(e, s.Where)
			if err != nil {
				return nil, err
			}
			if !ok {
				continue
			}
		}
		done = append(done, r)
		x.tx.own(r)
		cur := e.tabs[0].row
		res.n++
		if s.Kind == "delete" {
			if t.Trigger != nil {
				if err := t.Trigger(x.db, cur, nil); err != nil {
					return nil, err
				}
			}
			r.pend, r.dirty = nil, true
		} else {
			row, err := x.assign(t, e, r, cur, s.Set)
			if err != nil {
				return nil, err
			}
			e.tabs[0].row = row
		}
		if s.Ret != nil {
			if err := x.ret(res, e, s.Ret); err != nil {
				return nil, err
			}
		}
	}
	if s.Ret != nil {
		res.cols = retCols(t, s.Ret)
	}
	return res, nil
}

// copyIn loads the buffered rows of a COPY.
func (db *DB) copyIn(tx *Tx, q string, rows [][]interface{}) error {
	if tx.done {
		return errors.New("sql: transaction has already been committed or rolled back")
	}
	if err := db.step("copy", q); err != nil {
		tx.aborted = true
		return err
	}
	if tx.aborted {
		return pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	s := parse(q)
	if s.Err != "" {
		bad(s.Err + " in: " + q)
	}
	x := &exec{db: db, tx: tx, snap: db.seq}
	err := func() error {
		t, err := x.table(s.Table)
		if err != nil {
			return err
		}
		cols, err := x.colsOf(t, s.Cols)
		if err != nil {
			return err
		}
		for _, r := range rows {
			vals := make([]Val, len(r))
			for i, a := range r {
				if vals[i], err = toVal(a); err != nil {
					return err
				}
			}
			row, err := x.fresh(t, cols, vals, nil)
			if err != nil {
				return err
			}
			_, u, err := x.put(t, row)
			if err != nil {
				return err
			}
			if u != nil {
				return uniqErr(t, u)
			}
		}
		return nil
	}()
	if err != nil {
		tx.aborted = true
		return err
	}
	if err := db.after("copy", q); err != nil {
		tx.aborted = true
		return err
	}
	return nil
}

// snapshots is the stored procedure take_daily_balance_snapshots_batched (sql/1740493523.sql).
func (x *exec) snapshots() (Val, error) {
	size, ok := x.args[0].(int64)
	if !ok || size < 1 {
		bad("snapshot batch size")
	}
	now := wall(x.tx.start)
	bt, st, tt := x.db.Tables["balances"], x.db.Tables["balance_snapshots"], x.db.Tables["transactions"]
	bid, bbal := bt.Find("id"), bt.Find("balance_id")
	sb, stime := st.Find("balance_id"), st.Find("snapshot_time")
	cur := func(r *rec) []Val { return r.see(x.tx, x.snap) }
	var ids []int64
	var rows [][]Val
	for _, r := range bt.recs {
		if row := cur(r); row != nil {
			ids, rows = append(ids, row[bid].(int64)), append(rows, row)
		}
	}
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
			rows[j], rows[j-1] = rows[j-1], rows[j]
		}
	}
	total, last := int64(0), int64(0)
	day := func(t time.Time) string { return t.Format("2006-01-02") }
	for {
		count := int64(0)
		for i := range ids {
			if ids[i] <= last || count >= size {
				continue
			}
			has := false
			for _, r := range st.recs {
				if s := cur(r); s != nil && text(s[sb]) == text(rows[i][bbal]) && day(s[stime].(time.Time)) == day(now) {
					has = true
				}
			}
			if has {
				continue
			}
			count++
			row, err := x.fresh(st, nil, nil, nil)
			if err != nil {
				return nil, err
			}
			for _, c := range []string{"balance_id", "ledger_id", "balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance", "currency", "meta_data"} {
				row[st.Find(c)] = rows[i][bt.Find(c)]
			}
			row[stime], row[st.Find("created_at")] = now, now
			var at time.Time
			for _, r := range tt.recs {
				tr := cur(r)
				if tr == nil {
					continue
				}
				b := text(rows[i][bbal])
				if tr[tt.Find("source")] != nil && text(tr[tt.Find("source")]) == b || tr[tt.Find("destination")] != nil && text(tr[tt.Find("destination")]) == b {
					if c := tr[tt.Find("created_at")].(time.Time); row[st.Find("last_tx_id")] == nil || at.Before(c) {
						at, row[st.Find("last_tx_id")] = c, tr[tt.Find("transaction_id")]
					}
				}
			}
			if _, _, err := x.put(st, row); err != nil {
				return nil, err
			}
		}
		total += count
		var next int64 = -1
		seen := int64(0)
		for i := range ids {
			if ids[i] > last && seen < size {
				seen++
				next = ids[i]
			}
		}
		if count == 0 || next < 0 || next >= ids[len(ids)-1] {
			return total, nil
		}
		last = next
	}
}

func bigOf(n int64) *big.Int { return big.NewInt(n) }

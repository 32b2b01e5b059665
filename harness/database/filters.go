package database

import (
	"context"
	"database/sql/driver"
	"encoding/json"
	"math/big"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/filter"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfsql"
)

// A column of a table and the kind of its values: t text, n number, i small number, d date, j metadata.
type vCol struct {
	name string
	kind byte
}

func vCols(table string) (key string, cols []vCol) {
	list := ""
	switch table {
	case "transactions":
		key, list = "transaction_id", "t:source,destination,reference,currency,status,description,parent_transaction n:amount i:precision d:created_at,effective_date"
	case "balances":
		key, list = "balance_id", "t:indicator,currency,ledger_id,identity_id n:balance,credit_balance,debit_balance,inflight_balance,inflight_credit_balance,inflight_debit_balance d:created_at"
	case "ledgers":
		key, list = "ledger_id", "t:name d:created_at"
	case "identity":
		key, list = "identity_id", "t:first_name,last_name,other_names,gender,email_address,phone_number,nationality,street,country,state,organization_name,category,identity_type,post_code,city d:created_at,dob"
	case "accounts":
		key, list = "account_id", "t:name,number,bank_name,currency,ledger_id,identity_id,balance_id d:created_at"
	}
	cols = append(cols, vCol{key, 'k'})
	for _, g := range strings.Split(list, " ") {
		for _, n := range strings.Split(g[2:], ",") {
			cols = append(cols, vCol{n, g[0]})
		}
	}
	return key, append(cols, vCol{"meta_data", 'j'})
}

var vTables = []string{"transactions", "balances", "ledgers", "identity", "accounts"}

// vRow is a record: what is in its columns.
type vRow struct {
	id  string
	val map[string]interface{}
	doc map[string]interface{}
}

type vFilterWorld struct {
	db    *vfsql.DB
	d     Datasource
	table string
	key   string
	cols  []vCol
	rows  []*vRow
	ind   map[string]interface{} // indicators of the balances
	short bool                   // fewer forms of each condition
}

var vDay = time.Date(2024, 3, 10, 0, 0, 0, 0, time.UTC)

// vStore is a database with a table of n plain records that have a different value in every column.
func vStore(table string, n int) *vFilterWorld {
	w := &vFilterWorld{db: vfsql.New(), table: table, ind: map[string]interface{}{}}
	w.db.Remove("ledgers", "ledger_id", "general_ledger_id")
	w.d = Datasource{Conn: w.db.Conn()}
	w.key, w.cols = vCols(table)
	for i := 0; i < n; i++ {
		r := &vRow{id: "rec_" + string(rune('a'+i)), val: map[string]interface{}{}, doc: map[string]interface{}{}}
		for k, c := range w.cols {
			switch c.kind {
			case 'k':
				r.val[c.name] = r.id
			case 't':
				r.val[c.name] = string([]byte{byte('p' + i), byte('a' + k)})
			case 'n':
				r.val[c.name] = big.NewInt(int64(1000 + 10*k + i))
			case 'i':
				r.val[c.name] = int64(10 * (i + 1))
			case 'd':
				r.val[c.name] = vDay.AddDate(0, 0, k).Add(time.Duration(i) * time.Hour)
			}
		}
		w.rows = append(w.rows, r)
	}
	return w
}

// first says whether a column is the first of its kind.
func (w *vFilterWorld) first(c vCol) bool {
	for _, x := range w.cols {
		if x.kind == c.kind {
			return x.name == c.name
		}
	}
	return false
}

// write puts the records into the table.
func (w *vFilterWorld) write() {
	for _, r := range w.rows {
		var kv []interface{}
		for _, c := range w.cols {
			v := r.val[c.name]
			if c.kind == 'j' {
				b, err := json.Marshal(r.doc)
				vf.Assert(err == nil, "metadata is written")
				v = string(b)
			}
			kv = append(kv, c.name, v)
		}
		switch w.table {
		case "transactions":
			kv = append(kv, "precise_amount", big.NewInt(100), "hash", "h")
		}
		w.db.Seed(w.table, kv...)
	}
}

// ask lists the records a filter selects.
func (w *vFilterWorld) ask(set *filter.QueryFilterSet, opts *filter.QueryOptions, limit, offset int) ([]string, *int64, error) {
	ctx := context.Background()
	var ids []string
	var n *int64
	var err error
	switch w.table {
	case "transactions":
		l, c, e := w.d.GetAllTransactionsWithFilterAndOptions(ctx, set, opts, limit, offset)
		for _, x := range l {
			ids = append(ids, x.TransactionID)
		}
		n, err = c, e
	case "balances":
		l, c, e := w.d.GetAllBalancesWithFilterAndOptions(ctx, set, opts, limit, offset)
		for _, x := range l {
			ids = append(ids, x.BalanceID)
		}
		n, err = c, e
	case "ledgers":
		l, c, e := w.d.GetAllLedgersWithFilterAndOptions(ctx, set, opts, limit, offset)
		for _, x := range l {
			ids = append(ids, x.LedgerID)
		}
		n, err = c, e
	case "identity":
		l, c, e := w.d.GetAllIdentitiesWithFilterAndOptions(ctx, set, opts, limit, offset)
		for _, x := range l {
			ids = append(ids, x.IdentityID)
		}
		n, err = c, e
	case "accounts":
		l, c, e := w.d.GetAllAccountsWithFilterAndOptions(ctx, set, opts, limit, offset)
		for _, x := range l {
			ids = append(ids, x.AccountID)
		}
		n, err = c, e
	}
	return ids, n, err
}

// A condition and what it means.
type vCond struct {
	f     filter.QueryFilter
	holds func(r *vRow) bool
}

var vOps = []filter.Operator{filter.OpEqual, filter.OpNotEqual, filter.OpGreaterThan, filter.OpGreaterThanOrEqual, filter.OpLessThan, filter.OpLessThanOrEqual,
	filter.OpIn, filter.OpBetween, filter.OpIsNull, filter.OpIsNotNull, filter.OpLike, filter.OpILike}

// vHolds is what an operator means for two values of a kind.
func vHolds(op filter.Operator, lt func(a, b interface{}) bool, eq func(a, b interface{}) bool, v interface{}, want []interface{}) bool {
	if v == nil {
		return op == filter.OpIsNull
	}
	switch op {
	case filter.OpEqual:
		return eq(v, want[0])
	case filter.OpNotEqual:
		return vf.Not(eq(v, want[0]))
	case filter.OpGreaterThan:
		return lt(want[0], v)
	case filter.OpGreaterThanOrEqual:
		return vf.Not(lt(v, want[0]))
	case filter.OpLessThan:
		return lt(v, want[0])
	case filter.OpLessThanOrEqual:
		return vf.Not(lt(want[0], v))
	case filter.OpIn:
		r := false
		for _, x := range want {
			r = vf.Or(r, eq(v, x))
		}
		return r
	case filter.OpBetween:
		return vf.And(vf.Not(lt(v, want[0])), vf.Not(lt(want[1], v)))
	case filter.OpIsNotNull:
		return true
	}
	return false
}

func vSet(f *filter.QueryFilter, vals []interface{}) {
	switch f.Operator {
	case filter.OpIn, filter.OpBetween:
		f.Values = vals
	case filter.OpIsNull, filter.OpIsNotNull:
	default:
		f.Value = vals[0]
	}
}

func (w *vFilterWorld) count(op filter.Operator, name string) int {
	switch op {
	case filter.OpIn:
		if w.short {
			return 2
		}
		return 1 + vf.Choose(name+" values", 3)
	case filter.OpBetween:
		return 2
	case filter.OpIsNull, filter.OpIsNotNull:
		return 0
	}
	return 1
}

func vTextLt(a, b interface{}) bool { return a.(string) < b.(string) }
func vTextEq(a, b interface{}) bool { return vf.StrEq(a.(string), b.(string)) }

// vFold is an ASCII text in lower case.
func vFold(s string) string { return strings.ToLower(s) }

// vLike makes a pattern and its meaning.
func vLike(name string, fold bool) (string, func(v interface{}) bool) {
	set := "a-b"
	if fold {
		set = "a-bA-B"
	}
	x := vf.Str(name, 1, 1, set)
	is := func(a, b string) bool {
		if fold {
			a, b = vFold(a), vFold(b)
		}
		return vf.StrEq(a, b)
	}
	switch vf.Choose(name+" form", 4) {
	case 0:
		return x + "%", func(v interface{}) bool { s := v.(string); return len(s) > 0 && is(s[:1], x) }
	case 1:
		return "%" + x, func(v interface{}) bool { s := v.(string); return len(s) > 0 && is(s[len(s)-1:], x) }
	case 2:
		return "_" + x, func(v interface{}) bool { s := v.(string); return len(s) == 2 && is(s[1:], x) }
	}
	return x, func(v interface{}) bool { s := v.(string); return len(s) == 1 && is(s, x) }
}

// on makes a condition on a column; the records' values in the column become arbitrary.
func (w *vFilterWorld) on(name string, c vCol, op filter.Operator) vCond {
	f := filter.QueryFilter{Field: c.name, Operator: op}
	like := op == filter.OpLike || op == filter.OpILike
	var vals []interface{}
	lt, eq := vTextLt, vTextEq
	switch c.kind {
	case 'k', 't':
		set := "a-b"
		if op == filter.OpILike {
			set = "a-bA-B"
		}
		if like {
			if c.kind == 't' {
				for i, r := range w.rows {
					r.val[c.name] = vf.Str(name+" text "+string(rune('0'+i)), 0, 2, set)
				}
			}
			p, m := vLike(name, op == filter.OpILike)
			f.Value = p
			return vCond{f, func(r *vRow) bool { return m(r.val[c.name]) }}
		}
		lo := 0
		if op == filter.OpEqual || op == filter.OpNotEqual || op == filter.OpIn {
			set, lo = "", 1 // any bytes
		}
		if c.kind == 't' {
			for i, r := range w.rows {
				n := 2 - i
				if w.short {
					n = 1
				}
				r.val[c.name] = vf.Str(name+" text "+string(rune('0'+i)), lo, n, set)
			}
		}
		for i := w.count(op, name); i > 0; i-- {
			if c.kind == 'k' && vf.Choose(name+" known", 2) == 0 {
				vals = append(vals, w.rows[i%len(w.rows)].id)
				continue
			}
			hi := 2
			if i > 1 || w.short {
				hi = 1
			}
			vals = append(vals, vf.Str(name+" value "+string(rune('0'+i)), lo, hi, set))
		}
		if (c.name == "indicator" || c.name == "identity_id") && w.table == "balances" && vf.Choose(name+" absent", 2) == 1 {
			w.rows[0].val[c.name] = nil
		}
	case 'n', 'i':
		for i, r := range w.rows {
			if c.kind == 'n' {
				r.val[c.name] = vf.Big(name+" number "+string(rune('0'+i)), "-1000000000000000000000", "1000000000000000000000")
			} else {
				r.val[c.name] = vf.Int64(name+" number "+string(rune('0'+i)), 0, 1000)
			}
		}
		for i := w.count(op, name); i > 0; i-- {
			vals = append(vals, vf.Int64(name+" value "+string(rune('0'+i)), -1000, 1000000))
		}
		lt = func(a, b interface{}) bool { return vf.BigLt(vBig(a), vBig(b)) }
		eq = func(a, b interface{}) bool { return vf.BigEq(vBig(a), vBig(b)) }
	case 'd':
		return w.date(name, c, op)
	case 'j':
		return w.meta(name, op)
	}
	vSet(&f, vals)
	return vCond{f, func(r *vRow) bool { return vHolds(op, lt, eq, r.val[c.name], vals) }}
}

func vBig(v interface{}) *big.Int {
	if b, ok := v.(*big.Int); ok {
		return b
	}
	return big.NewInt(v.(int64))
}

func vTime(v interface{}) *big.Int { return big.NewInt(v.(time.Time).UnixMicro()) }

// date makes a condition on a date: equality is with all of the named second, minute, day.
func (w *vFilterWorld) date(name string, c vCol, op filter.Operator) vCond {
	f := filter.QueryFilter{Field: c.name, Operator: op}
	at := vDay.Add(13*time.Hour + 14*time.Minute + 15*time.Second + 123456*time.Microsecond)
	unit := time.Microsecond
	if op == filter.OpEqual {
		unit = []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour}[vf.Choose(name+" precision", 6)]
	}
	for i, r := range w.rows {
		if c.name == "dob" { // a date without a time
			r.val[c.name] = vDay.AddDate(0, 0, vf.Choose(name+" day "+string(rune('0'+i)), 3)-1)
			continue
		}
		if i == 0 {
			edge := at.Truncate(unit)
			if vf.Choose(name+" end", 2) == 1 {
				edge = edge.Add(unit)
			}
			r.val[c.name] = edge.Add(time.Duration(vf.Choose(name+" time", 3)-1) * time.Microsecond)
		}
	}
	eq := func(a, b interface{}) bool { return vf.BigEq(vTime(a), vTime(b)) }
	lt := func(a, b interface{}) bool { return vf.BigLt(vTime(a), vTime(b)) }
	if op == filter.OpLike || op == filter.OpILike {
		vf.Stop()
	}
	if op == filter.OpEqual {
		at = at.Truncate(unit)
		p := map[time.Duration]string{time.Microsecond: "microseconds", time.Millisecond: "milliseconds", time.Second: "second", time.Minute: "minute", time.Hour: "hour", 24 * time.Hour: "day"}[unit]
		if vf.Choose(name+" plain", 2) == 1 {
			f.Value = at
		} else {
			f.Value = filter.TimestampValue{Time: at, Precision: p}
		}
		return vCond{f, func(r *vRow) bool {
			v := r.val[c.name]
			return vf.And(vf.Not(lt(v, at)), lt(v, at.Add(unit)))
		}}
	}
	if c.name == "dob" {
		at = vDay
	}
	var vals, bound []interface{}
	for i := w.count(op, name); i > 0; i-- {
		t := at.Add(time.Duration(1-i) * time.Hour)
		if c.name == "dob" {
			t = at
		}
		vals = append(vals, t)
		bound = append(bound, interface{}(filter.TimestampValue{Time: t, Precision: "second"}))
	}
	vSet(&f, bound)
	return vCond{f, func(r *vRow) bool { return vHolds(op, lt, eq, r.val[c.name], vals) }}
}

// meta makes a condition on a metadata value.
func (w *vFilterWorld) meta(name string, op filter.Operator) vCond {
	f := filter.QueryFilter{Field: "meta_data.tier_1", Operator: op}
	docs := []interface{}{"ab", "b", "5", int64(5), int64(7), true, nil, "absent", "A"}
	numeric := op == filter.OpGreaterThan || op == filter.OpGreaterThanOrEqual || op == filter.OpLessThan || op == filter.OpLessThanOrEqual || op == filter.OpBetween
	if numeric {
		docs = []interface{}{int64(5), "7", "absent", nil}
	}
	for i, r := range w.rows {
		v := docs[vf.Choose(name+" has "+string(rune('0'+i)), len(docs))]
		if v != "absent" {
			r.doc["tier_1"] = v
		}
		r.doc["tier_2"] = "ab"
		r.doc["tier"] = int64(5)
	}
	get := func(r *vRow) interface{} { return r.doc["tier_1"] }
	if op == filter.OpLike || op == filter.OpILike {
		p, m := vLike(name, op == filter.OpILike)
		f.Value = p
		return vCond{f, func(r *vRow) bool {
			v := get(r)
			if v == nil {
				return false
			}
			return m(vShow(v))
		}}
	}
	var vals []interface{}
	if numeric {
		for i := w.count(op, name); i > 0; i-- {
			vals = append(vals, vf.Int64(name+" value "+string(rune('0'+i)), -10, 20))
		}
		vSet(&f, vals)
		lt := func(a, b interface{}) bool { return vf.BigLt(vNum(a), vNum(b)) }
		eq := func(a, b interface{}) bool { return vf.BigEq(vNum(a), vNum(b)) }
		return vCond{f, func(r *vRow) bool { return vHolds(op, lt, eq, get(r), vals) }}
	}
	for i := w.count(op, name); i > 0; i-- {
		n := name + " value " + string(rune('0'+i))
		switch vf.Choose(n+" type", 3) {
		case 0:
			vals = append(vals, vf.Str(n, 1, 2, "ab5'\""))
		case 1:
			vals = append(vals, int64(5))
		case 2:
			vals = append(vals, true)
		}
	}
	vSet(&f, vals)
	eq := func(a, b interface{}) bool { return vf.StrEq(vShow(a), vShow(b)) }
	if op == filter.OpEqual { // typed
		eq = func(a, b interface{}) bool {
			switch x := a.(type) {
			case string:
				y, ok := b.(string)
				return ok && vf.StrEq(x, y)
			case int64:
				y, ok := b.(int64)
				return ok && x == y
			case bool:
				y, ok := b.(bool)
				return ok && x == y
			}
			return false
		}
	}
	return vCond{f, func(r *vRow) bool { return vHolds(op, nil, eq, get(r), vals) }}
}

func vNum(v interface{}) *big.Int {
	if s, ok := v.(string); ok {
		n, _ := strconv.ParseInt(s, 10, 64)
		return big.NewInt(n)
	}
	return big.NewInt(v.(int64))
}

func vShow(v interface{}) string {
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	}
	return v.(string)
}

// side makes a condition on either side of a transaction: by balance, or by the name of the balance.
func (w *vFilterWorld) side(name string, op filter.Operator, byName bool) vCond {
	bals := []string{"bal_a", "bal_b", "bal_c"}
	if len(w.ind) == 0 {
		ind := []interface{}{"@a", "@b", nil}
		for i, b := range bals {
			w.ind[b] = ind[i]
			w.db.Seed("balances", "balance_id", b, "indicator", ind[i], "balance", vBig(int64(0)), "credit_balance", vBig(int64(0)), "debit_balance", vBig(int64(0)), "currency", "USD", "ledger_id", "l", "meta_data", "{}")
		}
		for i, r := range w.rows {
			if w.short {
				r.val["source"], r.val["destination"] = bals[i], bals[i+1]
				continue
			}
			r.val["source"] = bals[vf.Choose("source "+string(rune('0'+i)), 3)]
			r.val["destination"] = bals[vf.Choose("destination "+string(rune('0'+i)), 3)]
		}
	}
	f := filter.QueryFilter{Field: "balance_id", Operator: op}
	var vals []interface{}
	for i := w.count(op, name); i > 0; i-- {
		n := name + " value " + string(rune('0'+i))
		if byName {
			vals = append(vals, "@"+vf.Str(n, 1, 1, "a-c"))
		} else {
			vals = append(vals, "bal_"+vf.Str(n, 1, 1, "a-d"))
		}
	}
	if !byName {
		vSet(&f, vals)
		return vCond{f, func(r *vRow) bool {
			s, d := r.val["source"], r.val["destination"]
			p, q := vHolds(op, vTextLt, vTextEq, s, vals), vHolds(op, vTextLt, vTextEq, d, vals)
			if op == filter.OpNotEqual {
				return vf.And(p, q)
			}
			return vf.Or(p, q)
		}}
	}
	f.Field = "indicator"
	m := func(v interface{}) bool { return vHolds(op, vTextLt, vTextEq, v, vals) }
	if op == filter.OpLike || op == filter.OpILike {
		x := vf.Str(name+" like", 1, 1, "a-b")
		if op == filter.OpILike {
			x = vf.Str(name+" like", 1, 1, "A-B")
		}
		f.Value = "%" + x
		m = func(v interface{}) bool { return v != nil && vf.StrEq(v.(string)[1:], vFold(x)) }
	} else {
		vSet(&f, vals)
	}
	return vCond{f, func(r *vRow) bool { return vf.Or(m(w.ind[r.val["source"].(string)]), m(w.ind[r.val["destination"].(string)])) }}
}

// check asks for the records of a filter and compares them with its meaning.
func (w *vFilterWorld) check(set *filter.QueryFilterSet, opts *filter.QueryOptions, holds func(r *vRow) bool) {
	ids, n, err := w.ask(set, opts, 100, 0)
	if err != nil {
		vf.Observe("error", err.Error())
	}
	vf.Assert(err == nil, "an accepted filter is answered")
	seen := map[string]int{}
	for _, id := range ids {
		seen[id]++
	}
	for _, r := range w.rows {
		got := seen[r.id]
		vf.Assert(got <= 1, "a record is listed once")
		vf.Assert(vf.Iff(got == 1, holds(r)), "exactly the records that meet the conditions are selected")
		if got == 1 {
			vf.Reach("selected")
		} else {
			vf.Reach("left out")
		}
	}
	if opts != nil && opts.IncludeCount && len(ids) > 0 {
		vf.Assert(n != nil && *n == int64(len(ids)), "the count is of the selected records")
	}
}

// VSelect: one condition selects the records that meet it.
func VSelect() {
	table := vTables[vf.Choose("table", len(vTables))]
	w := vStore(table, 2)
	c := w.cols[vf.Choose("column", len(w.cols))]
	op := vOps[vf.Choose("operator", len(vOps))]
	if c.kind == 'n' || c.kind == 'i' || c.kind == 'd' {
		if op == filter.OpLike || op == filter.OpILike {
			vf.Stop()
		}
	}
	if !vf.Thorough() && !w.first(c) && op != filter.OpEqual && op != filter.OpIsNull && op != filter.OpGreaterThan {
		vf.Stop()
	}
	w.short = !vf.Thorough() && !w.first(c)
	k := w.on("first", c, op)
	w.write()
	opts := &filter.QueryOptions{}
	if w.first(c) && op == filter.OpEqual && vf.Choose("counted", 2) == 1 {
		opts.IncludeCount = true
	}
	w.check(&filter.QueryFilterSet{Filters: []filter.QueryFilter{k.f}, LogicalOperator: filter.LogicalAnd}, opts, k.holds)
}

// shape is one of the conditions that differ in how they are built.
func (w *vFilterWorld) shape(name string, i int, used map[string]bool) vCond {
	text, num := vCol{"status", 't'}, vCol{"amount", 'n'}
	switch w.table {
	case "balances":
		text, num = vCol{"currency", 't'}, vCol{"balance", 'n'}
	}
	if used[text.name] {
		text.name = "reference"
		if w.table == "balances" {
			text.name = "ledger_id"
		}
	}
	if used[num.name] {
		num = vCol{"precision", 'i'}
		if w.table == "balances" {
			num = vCol{"credit_balance", 'n'}
		}
	}
	switch i {
	case 0:
		used[text.name] = true
		return w.on(name, text, filter.OpEqual)
	case 1:
		used[text.name] = true
		return w.on(name, text, filter.OpIn)
	case 2:
		used[num.name] = true
		return w.on(name, num, filter.OpIn)
	case 3:
		used[num.name] = true
		return w.on(name, num, filter.OpBetween)
	case 4:
		used[num.name] = true
		return w.on(name, num, filter.OpGreaterThan)
	case 5:
		return w.meta2(name, filter.OpEqual)
	case 6:
		return w.meta2(name, filter.OpIn)
	case 7:
		return w.meta2(name, filter.OpIsNull)
	case 8:
		return w.meta2(name, filter.OpBetween)
	case 9:
		return w.dated(name)
	case 10:
		return w.side(name, filter.OpEqual, false)
	case 11:
		return w.side(name, filter.OpIn, false)
	case 12:
		return w.side(name, filter.OpEqual, true)
	case 13:
		return w.side(name, filter.OpIn, true)
	case 14:
		return w.side(name, filter.OpBetween, true)
	}
	return w.side(name, filter.OpIsNull, true)
}

// meta2 and dated are short forms whose records are fixed.
func (w *vFilterWorld) meta2(name string, op filter.Operator) vCond {
	f := filter.QueryFilter{Field: "meta_data.tier", Operator: op}
	for i, r := range w.rows {
		if i > 0 {
			r.doc["tier"] = int64(5)
		}
	}
	var vals []interface{}
	n := 1
	if op == filter.OpBetween || op == filter.OpIn {
		n = 2
	}
	for i := 0; i < n; i++ {
		vals = append(vals, []interface{}{int64(5), int64(6)}[vf.Choose(name+" value "+string(rune('0'+i)), 2)])
	}
	vSet(&f, vals)
	lt := func(a, b interface{}) bool { return vf.BigLt(vNum(a), vNum(b)) }
	eq := func(a, b interface{}) bool { return vf.BigEq(vNum(a), vNum(b)) }
	return vCond{f, func(r *vRow) bool { return vHolds(op, lt, eq, r.doc["tier"], vals) }}
}

func (w *vFilterWorld) dated(name string) vCond {
	at := vDay.AddDate(0, 0, 400)
	in := vf.Choose(name+" day", 2) == 1
	for i, r := range w.rows {
		r.val["created_at"] = at.AddDate(0, 0, i)
	}
	v := at
	if !in {
		v = at.AddDate(0, 0, 1)
	}
	f := filter.QueryFilter{Field: "created_at", Operator: filter.OpEqual, Value: filter.TimestampValue{Time: v, Precision: "day"}}
	return vCond{f, func(r *vRow) bool { return r.val["created_at"].(time.Time).Equal(v) }}
}

// VSelectAll: several conditions select the records that meet all, or any, of them.
func VSelectAll() {
	n := 16
	table := "transactions"
	if vf.Choose("table", 2) == 1 {
		table, n = "balances", 10
	}
	w := vStore(table, 2)
	w.short = true
	used := map[string]bool{}
	a := w.shape("first", vf.Choose("one", n), used)
	b := w.shape("second", vf.Choose("other", n), used)
	conds := []vCond{a, b}
	if vf.Thorough() && vf.Choose("three", 2) == 1 {
		conds = append(conds, w.shape("third", 3, used))
	}
	w.write()
	set := &filter.QueryFilterSet{}
	or := vf.Choose("any", 2) == 1
	if or {
		set.LogicalOperator = filter.LogicalOr
	} else {
		set.LogicalOperator = filter.LogicalAnd
	}
	for _, c := range conds {
		set.Filters = append(set.Filters, c.f)
	}
	w.check(set, nil, func(r *vRow) bool {
		h := !or
		for _, c := range conds {
			if or {
				h = vf.Or(h, c.holds(r))
			} else {
				h = vf.And(h, c.holds(r))
			}
		}
		return h
	})
}

// VSides: conditions on either side of a transaction.
func VSides() {
	w := vStore("transactions", 2)
	byName := vf.Choose("by name", 2) == 1
	op := vOps[vf.Choose("operator", len(vOps))]
	k := w.side("first", op, byName)
	w.write()
	set := &filter.QueryFilterSet{Filters: []filter.QueryFilter{k.f}, LogicalOperator: filter.LogicalAnd}
	if !byName {
		switch op {
		case filter.OpEqual, filter.OpNotEqual, filter.OpIn, filter.OpIsNull, filter.OpIsNotNull:
		default:
			_, _, err := w.ask(set, nil, 10, 0)
			vf.Assert(err != nil, "an operator a field does not have is refused")
			vf.Reach("refused")
			return
		}
	}
	w.check(set, nil, k.holds)
}

// VWritten: a value is compared as it is written, in a body and in a query string.
func VWritten() {
	texts := []string{"007", "+2348012345678", "1e3", "nan", "Infinity", "true", "2024-01-02", "2024/01/02", "9007199254740993", "0x10", "5", "1.50", "a|b", " x"}
	nums := []string{"9007199254740993", "123456789012345678901234567890", "0.1", "12345678901234567.89", "-7", "1e3"}
	v := ""
	text := vf.Choose("text", 2) == 1
	if text {
		v = texts[vf.Choose("value", len(texts))]
	} else {
		v = nums[vf.Choose("value", len(nums))]
	}
	w := vStore("transactions", 3)
	field, col := "amount", "amount"
	if text {
		field = []string{"reference", "description", "meta_data.tier", "source"}[vf.Choose("field", 4)]
		col = field
	}
	near := map[string]interface{}{"9007199254740993": "9007199254740992", "123456789012345678901234567890": "123456789012345680000000000000", "0.1": "0.1000000000000000055", "12345678901234567.89": "12345678901234568", "-7": "7", "1e3": "1001",
		"007": "7", "+2348012345678": "2348012345678", "nan": "NaN", "Infinity": "+Inf", "true": "t", "2024-01-02": "2024-01-02 00:00:00Z", "2024/01/02": "2024-01-02 00:00:00Z", "0x10": "16", "5": "05", "1.50": "1.5", "a|b": "a", " x": "x"}
	for i, x := range []interface{}{v, near[v], "other"} {
		if !text && i == 2 {
			x = "3"
		}
		if field == "meta_data.tier" {
			w.rows[i].doc["tier"] = x
		} else {
			w.rows[i].val[col] = x
		}
	}
	w.write()
	op := []filter.Operator{filter.OpEqual, filter.OpIn, filter.OpNotEqual}[vf.Choose("operator", 3)]
	if field == "meta_data.tier" && op == filter.OpEqual {
		vf.Stop() // the type of a metadata value is guessed
	}
	var set *filter.QueryFilterSet
	if vf.Choose("body", 2) == 1 {
		x := v
		if text {
			x = "\"" + v + "\""
		}
		key, val := "value", x
		if op == filter.OpIn {
			key, val = "values", "["+x+"]"
		}
		var f filter.QueryFilter
		err := json.Unmarshal([]byte(`{"field":"`+field+`","operator":"`+string(op)+`","`+key+`":`+val+`}`), &f)
		vf.Assert(err == nil, "a body is read")
		set = &filter.QueryFilterSet{Filters: []filter.QueryFilter{f}, LogicalOperator: filter.LogicalAnd}
	} else {
		if op == filter.OpIn && strings.HasPrefix(v, " ") {
			vf.Stop() // a list is split at commas and spaces around its items are dropped
		}
		p := filter.ParseFromQuery(url.Values{field + "_" + string(op): []string{v}}, nil)
		vf.Assert(len(p.Errors) == 0 && len(p.Filters.Filters) == 1, "a query string is read")
		set = p.Filters
	}
	w.check(set, nil, func(r *vRow) bool { return (r == w.rows[0]) != (op == filter.OpNotEqual) })
	vf.Reach("asked")
}

var _ driver.Value

// VPages: sorting and paging lists the selected records in order, each on one page.
func VPages() {
	table := vTables[vf.Choose("table", len(vTables))]
	w := vStore(table, 3)
	text := vCol{"name", 't'}
	switch table {
	case "transactions":
		text.name = "reference"
	case "balances":
		text.name = "currency"
	case "identity":
		text.name = "city"
	}
	for i, r := range w.rows {
		r.val[text.name] = vf.Str("text "+string(rune('0'+i)), 1, 1, "a-z")
		for j := 0; j < i; j++ {
			vf.Assume(vf.Not(vf.StrEq(r.val[text.name].(string), w.rows[j].val[text.name].(string))))
		}
	}
	w.write()
	opts := &filter.QueryOptions{SortBy: text.name, IncludeCount: vf.Choose("counted", 2) == 1}
	asc := vf.Choose("ascending", 2) == 1
	if asc {
		opts.SortOrder = filter.SortAsc
	}
	size := 1 + vf.Choose("page", 3)
	var set *filter.QueryFilterSet
	if vf.Choose("filtered", 2) == 1 {
		set = &filter.QueryFilterSet{Filters: []filter.QueryFilter{{Field: text.name, Operator: filter.OpIsNotNull}, {Field: w.key, Operator: filter.OpIn, Values: []interface{}{"rec_a", "rec_b", "rec_c", "rec_d"}}}, LogicalOperator: filter.LogicalAnd}
	}
	var all []string
	for off := 0; off < 3; off += size {
		ids, n, err := w.ask(set, opts, size, off)
		vf.Assert(err == nil, "a page is answered")
		vf.Assert(len(ids) <= size, "a page is no longer than asked")
		vf.Assert(!opts.IncludeCount || len(ids) == 0 || n != nil && *n == 3, "the count is of all selected records")
		all = append(all, ids...)
	}
	vf.Assert(len(all) == 3, "the pages list every record once")
	at := func(id string) string {
		for _, r := range w.rows {
			if r.id == id {
				return r.val[text.name].(string)
			}
		}
		vf.Assert(false, "a listed record exists")
		return ""
	}
	for i := 1; i < len(all); i++ {
		a, b := at(all[i-1]), at(all[i])
		if !asc {
			a, b = b, a
		}
		vf.Assert(a < b, "the pages are in the order asked for")
	}
	vf.Reach("pages")
}

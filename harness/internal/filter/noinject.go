package filter

import (
	"strconv"
	"strings"

	"github.com/blnkfinance/blnk/internal/vf"
)

var vTables = []string{"transactions", "balances", "ledgers", "identity", "accounts", "reconciliations", "matching_rules", "external_transactions"}

var vOps = []Operator{OpEqual, OpNotEqual, OpGreaterThan, OpGreaterThanOrEqual, OpLessThan, OpLessThanOrEqual, OpLike, OpILike, OpIn, OpBetween, OpIsNull, OpIsNotNull}

// vFields are the columns of a table that may be named.
var vFields = map[string]string{
	"transactions":          "transaction_id parent_transaction amount currency source destination balance_id reference status created_at effective_date indicator description precision meta_data",
	"balances":              "balance_id ledger_id identity_id indicator currency balance credit_balance debit_balance inflight_balance inflight_credit_balance inflight_debit_balance created_at meta_data",
	"ledgers":               "ledger_id name created_at meta_data",
	"identity":              "identity_id first_name last_name other_names gender dob email_address phone_number nationality street country state organization_name category identity_type post_code city created_at meta_data",
	"reconciliations":       "reconciliation_id upload_id status matched_transactions unmatched_transactions started_at completed_at",
	"matching_rules":        "rule_id name description created_at updated_at",
	"external_transactions": "id amount reference currency description date source upload_id",
	"accounts":              "account_id name number bank_name currency ledger_id identity_id balance_id created_at meta_data",
}

func vKnown(table, field string) bool {
	for _, f := range strings.Fields(vFields[table]) {
		if f == field {
			return true
		}
	}
	return false
}

// vValue is a value of some type with arbitrary contents, and another one of its type.
func vValue(name string, typ int) (interface{}, interface{}) {
	switch typ {
	case 0:
		n := len(name) // longer for a value of a list
		return vf.Str(name, n, n, " -~"), vf.Str(name+"'", n, n, " -~")
	case 1:
		return vf.Int64(name, -5, 1<<40), vf.Int64(name+"'", -5, 1<<40)
	case 2:
		return true, false
	}
	return 1.5, 2.5
}

// vCond is a condition twice: with some values and with others.
func vCond(name, table string, field string, op Operator) (QueryFilter, QueryFilter, []interface{}) {
	f, g := QueryFilter{Field: field, Operator: op}, QueryFilter{Field: field, Operator: op}
	typ := vf.Choose(name+" type", 4)
	switch op {
	case OpLike, OpILike, OpIsNull, OpIsNotNull:
		vf.Assume(typ == 0)
	}
	switch op {
	case OpIn, OpBetween:
		n := 2
		if op == OpIn {
			n = 1 + vf.Choose(name+" count", 3)
		}
		var in []interface{}
		for i := 0; i < n; i++ {
			a, b := vValue(name+" "+string(rune('0'+i)), typ)
			f.Values = append(f.Values, a)
			g.Values = append(g.Values, b)
			in = append(in, a)
		}
		return f, g, in
	case OpIsNull, OpIsNotNull:
		return f, g, nil
	}
	f.Value, g.Value = vValue(name, typ)
	return f, g, []interface{}{f.Value}
}

// vPlaceholders lists the numbers after the dollar signs.
func vPlaceholders(q string) []int {
	var out []int
	for i := 0; i < len(q); i++ {
		if q[i] == '$' {
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			n, err := strconv.Atoi(q[i+1 : j])
			vf.Assert(err == nil, "a dollar sign begins a placeholder")
			out = append(out, n)
		}
	}
	return out
}

func vText(r *BuildResult) string {
	return strings.Join(r.CTEs, ", ") + " ; " + strings.Join(r.Conditions, " ; ") + " ; " + r.OrderBy
}

// VNoInject: the text of a query does not depend on the values, and placeholders and arguments match.
func VNoInject() {
	table := vTables[vf.Choose("table", len(vTables))]
	n := 1
	if vf.Choose("two", 2) == 1 {
		n = 2
	}
	var a, b QueryFilterSet
	a.LogicalOperator = LogicalAnd
	var want []interface{}
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		fields := strings.Fields(vFields[table])
		if n == 2 {
			// of the kinds of columns one each
			fields = []string{fields[0], fields[len(fields)-1]}
			if table == "transactions" {
				fields = []string{"currency", "balance_id", "indicator"}
			}
		}
		if strings.Contains(vFields[table], "meta_data") {
			fields = append(fields, "meta_data.key_1")
		}
		field := fields[vf.Choose(name+" field", len(fields))]
		ops := vOps
		if n == 2 {
			ops = []Operator{OpEqual, OpIn, OpBetween, OpIsNull}
		}
		op := ops[vf.Choose(name+" operator", len(ops))]
		if table == "transactions" && field == "balance_id" && op != OpEqual && op != OpNotEqual && op != OpIn && op != OpIsNull && op != OpIsNotNull {
			vf.Stop()
		}
		f, g, w := vCond(name, table, field, op)
		a.Filters, b.Filters = append(a.Filters, f), append(b.Filters, g)
		_ = w
		want = append(want, w...)
	}
	start := 1 + vf.Choose("start", 2)*2
	ra, ea := BuildWithOptions(&a, table, "", start, nil)
	rb, eb := BuildWithOptions(&b, table, "", start, nil)
	vf.Assert(ea == nil && eb == nil, "a filter of known fields and operators is accepted")
	q := vText(ra)
	vf.Assert(vf.StrEq(q, vText(rb)), "the text of the query depends on a value")
	vf.Assert(len(ra.Conditions) == n, "every condition is in the query")
	// every placeholder has an argument, every argument a placeholder
	vf.Assert(ra.NextArgPos == start+len(ra.Args), "the arguments are counted")
	used := map[int]bool{}
	next := start
	for _, p := range vPlaceholders(strings.Join(ra.CTEs, " ")) {
		used[p] = true
	}
	for _, p := range vPlaceholders(strings.Join(ra.Conditions, " ")) {
		used[p] = true
	}
	for p := range used {
		vf.Assert(p >= start && p < ra.NextArgPos, "a placeholder has an argument")
	}
	for ; next < ra.NextArgPos; next++ {
		vf.Assert(used[next], "an argument has a placeholder")
	}
	vf.Reach("built")
}

// VRefuse: fields, operators and paths that are not known are refused.
func VRefuse() {
	table := vTables[vf.Choose("table", len(vTables))]
	f := QueryFilter{Operator: OpEqual, Value: "x"}
	ok := false
	switch vf.Choose("what", 4) {
	case 0: // a metadata path
		k := vf.Choose("length", 4)
		key := vf.Str("key", k, k, "\x00-\x7f")
		f.Field = "meta_data." + key
		good := strings.Contains(vFields[table], "meta_data") && k > 0
		for i := 0; i < k; i++ {
			c := key[i]
			l := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			good = good && (l || i > 0 && (c >= '0' && c <= '9' || c == '_'))
		}
		ok = good
	case 1: // a name with something about it
		fields := strings.Fields(vFields[table])
		name := fields[vf.Choose("field", len(fields))]
		x := vf.Str("extra", 0, 2, "\x00-\x7f")
		if vf.Choose("before", 2) == 1 {
			f.Field = x + name
		} else {
			f.Field = name + x
		}
		if table == "transactions" {
			vf.Assume(name != "balance_id" && name != "indicator")
		}
		ok = vKnown(table, f.Field)
		if strings.HasPrefix(f.Field, "meta_data.") && len(f.Field) > 10 {
			ok = f.Field[10] >= 'a' && f.Field[10] <= 'z' || f.Field[10] >= 'A' && f.Field[10] <= 'Z'
		}
	case 2: // any short text
		f.Field = vf.Str("field", 0, 3, "\x00-\x7f")
		ok = vKnown(table, f.Field)
	case 3: // an operator
		f.Field = strings.Fields(vFields[table])[0]
		f.Operator = Operator(vf.Str("operator", 0, 5, "\x00-\x7f"))
		f.Values = []interface{}{"x", "y"}
		for _, o := range vOps {
			ok = ok || o == f.Operator
		}
	}
	// the refusal may not depend on the place of the filter
	set := &QueryFilterSet{Filters: []QueryFilter{f}, LogicalOperator: LogicalOr}
	if vf.Choose("second", 2) == 1 {
		set.Filters = []QueryFilter{{Field: strings.Fields(vFields[table])[0], Operator: OpIsNotNull}, f}
	}
	r, err := BuildWithOptions(set, table, "", 1, nil)
	if ok {
		vf.Assert(err == nil && len(r.Conditions) == len(set.Filters), "a known field and operator are accepted")
		for _, c := range r.Conditions {
			vf.Assert(!strings.ContainsAny(c, ";\\\"-/\x00"), "a condition has no other text")
		}
		vf.Reach("accepted")
		return
	}
	vf.Assert(err != nil, "an unknown field, operator or path is refused")
	vf.Reach("refused")
}

// VSort: a column to sort by is a known one.
func VSort() {
	table := vTables[vf.Choose("table", len(vTables))]
	by := ""
	switch vf.Choose("what", 2) {
	case 0:
		by = vf.Str("field", 0, 2, "a-z ;")
	case 1:
		fields := strings.Fields(vFields[table])
		by = fields[vf.Choose("field", len(fields))] + []string{"", " ", "x", ";", " desc", "--"}[vf.Choose("extra", 6)]
	}
	opts := &QueryOptions{SortBy: by, SortOrder: SortOrder([]string{"", "asc", "desc", "ASC", "asc; x"}[vf.Choose("order", 5)])}
	if ValidateSortByForTable(opts, table) != nil {
		vf.Assert(!vKnown(table, by) && by != "", "a known column is accepted")
		vf.Reach("refused")
		return
	}
	r, err := BuildWithOptions(nil, table, "", 1, opts)
	vf.Assert(err == nil, "an accepted column is sorted by")
	want := "created_at"
	if opts.SortBy != "" {
		vf.Assert(vKnown(table, opts.SortBy), "an unknown column is refused")
		want = opts.SortBy
	}
	dir := " DESC"
	if opts.SortOrder == SortAsc {
		dir = " ASC"
	}
	vf.Assert(vf.StrEq(r.OrderBy, want+dir), "the order is by the named column")
	vf.Reach("sorted")
}

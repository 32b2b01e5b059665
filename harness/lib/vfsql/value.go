package vfsql

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/lib/pq"
	"github.com/shopspring/decimal"
)

// Val is a column or expression value: nil, bool, int64, float64, string, *big.Int (numeric), Dec (numeric as text),
// time.Time, JSON, Dur or []string.
type Val = interface{}

type Dec string
type JSON string
type Dur time.Duration

func pgErr(code, msg string) error { return &pq.Error{Code: pq.ErrorCode(code), Message: msg, Severity: "ERROR"} }

func wall(t time.Time) time.Time {
	_, off := t.Zone()
	if off != 0 {
		t = t.Add(time.Duration(off) * time.Second)
	}
	return t.UTC().Round(time.Microsecond)
}

// toVal takes a statement argument as the driver would.
func toVal(a interface{}) (Val, error) {
	switch x := a.(type) {
	case nil:
		return nil, nil
	case string:
		return x, nil
	case []byte:
		if x == nil {
			return nil, nil
		}
		return string(x), nil
	case json.RawMessage:
		return string(x), nil
	case int:
		return int64(x), nil
	case int64:
		return x, nil
	case int32:
		return int64(x), nil
	case bool:
		return x, nil
	case float64:
		return x, nil
	case time.Time:
		return x, nil
	case *time.Time:
		if x == nil {
			return nil, nil
		}
		return *x, nil
	case *string:
		if x == nil {
			return nil, nil
		}
		return *x, nil
	case *int64:
		if x == nil {
			return nil, nil
		}
		return *x, nil
	case pq.StringArray:
		if x == nil {
			return nil, nil
		}
		return append([]string{}, x...), nil
	case *pq.StringArray:
		if x == nil || *x == nil {
			return nil, nil
		}
		return append([]string{}, (*x)...), nil
	case []string:
		return append([]string{}, x...), nil
	case time.Duration:
		return int64(x), nil
	case *big.Int:
		return nil, errors.New("sql: converting argument: unsupported type *big.Int")
	case sql.NullString:
		if !x.Valid {
			return nil, nil
		}
		return x.String, nil
	case sql.NullTime:
		if !x.Valid {
			return nil, nil
		}
		return x.Time, nil
	case sql.NullInt64:
		if !x.Valid {
			return nil, nil
		}
		return x.Int64, nil
	case sql.NullFloat64:
		if !x.Valid {
			return nil, nil
		}
		return x.Float64, nil
	case sql.NullBool:
		if !x.Valid {
			return nil, nil
		}
		return x.Bool, nil
	case driver.Valuer:
		v, err := x.Value()
		if err != nil {
			return nil, err
		}
		return toVal(v)
	}
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.String:
		return v.String(), nil
	case reflect.Int, reflect.Int64, reflect.Int32:
		return v.Int(), nil
	case reflect.Bool:
		return v.Bool(), nil
	case reflect.Float64:
		return v.Float(), nil
	case reflect.Ptr:
		if v.IsNil() {
			return nil, nil
		}
		return toVal(v.Elem().Interface())
	}
	return nil, fmt.Errorf("sql: converting argument: unsupported type %T", a)
}

const tsLayout = "2006-01-02 15:04:05.999999"

// text is how the value reads as text.
func text(v Val) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case *big.Int:
		return x.String()
	case Dec:
		return string(x)
	case JSON:
		return string(x)
	case bool:
		if x {
			return "true"
		}
		return "false"
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case time.Time:
		return x.Format(tsLayout)
	case []string:
		var b strings.Builder
		b.WriteByte('{')
		for i, s := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(`"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`)
		}
		b.WriteByte('}')
		return b.String()
	}
	return ""
}

// outVal is the value as the driver hands it over.
func outVal(v Val) driver.Value {
	switch x := v.(type) {
	case *big.Int, Dec, JSON, []string:
		return []byte(text(x))
	}
	return v
}

// num gives the integer value of a numeric; ok is false for values with decimals.
func num(v Val) (*big.Int, bool) {
	switch x := v.(type) {
	case *big.Int:
		return x, true
	case int64:
		return big.NewInt(x), true
	case Dec:
		return new(big.Int).SetString(string(x), 10)
	case string:
		return new(big.Int).SetString(x, 10)
	}
	return nil, false
}

func dec(v Val) (decimal.Decimal, error) {
	switch x := v.(type) {
	case *big.Int:
		return decimal.NewFromBigInt(x, 0), nil
	case int64:
		return decimal.NewFromInt(x), nil
	case float64:
		return decimal.NewFromFloat(x), nil
	case Dec:
		return decimal.NewFromString(string(x))
	case string:
		return decimal.NewFromString(x)
	}
	return decimal.Zero, errors.New("not a number")
}

func isNum(v Val) bool {
	switch v.(type) {
	case *big.Int, int64, Dec, float64:
		return true
	}
	return false
}

var tsForms = []string{"2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999", "2006-01-02"}

func parseTime(s string) (time.Time, bool) {
	if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
		// the zone of a literal is ignored by a timestamp without time zone
		return wall(t), true
	}
	for _, f := range tsForms {
		if t, err := time.Parse(f, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

// pair brings two values to a common type: 'n' integers, 'd' decimals, 's' text, 't' times, 'b' booleans.
func pair(a, b Val) (byte, error) {
	switch a.(type) {
	case bool:
		return 'b', nil
	case time.Time:
		return 't', nil
	}
	switch b.(type) {
	case bool:
		return 'b', nil
	case time.Time:
		return 't', nil
	}
	if isNum(a) || isNum(b) {
		if _, ok := a.(int64); ok {
			if _, ok := b.(int64); ok {
				return 'i', nil
			}
		}
		return 'n', nil
	}
	return 's', nil
}

func eqVal(a, b Val) (bool, error) {
	k, _ := pair(a, b)
	switch k {
	case 'i':
		return a.(int64) == b.(int64), nil
	case 's':
		return text(a) == text(b), nil
	case 'b':
		x, ok1 := toBool(a)
		y, ok2 := toBool(b)
		if !ok1 || !ok2 {
			return false, pgErr("22P02", "invalid input syntax for type boolean")
		}
		return x == y, nil
	}
	c, err := cmpVal(a, b)
	return c == 0, err
}

func toBool(v Val) (bool, bool) {
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		switch strings.ToLower(x) {
		case "true", "t", "1", "yes", "on":
			return true, true
		case "false", "f", "0", "no", "off":
			return false, true
		}
	}
	return false, false
}

func cmpVal(a, b Val) (int, error) {
	k, _ := pair(a, b)
	switch k {
	case 'i':
		x, y := a.(int64), b.(int64)
		if x < y {
			return -1, nil
		}
		if x > y {
			return 1, nil
		}
		return 0, nil
	case 'n':
		x, ok1 := num(a)
		y, ok2 := num(b)
		if ok1 && ok2 {
			return x.Cmp(y), nil
		}
		p, e1 := dec(a)
		q, e2 := dec(b)
		if e1 != nil || e2 != nil {
			return 0, pgErr("22P02", "invalid input syntax for type numeric")
		}
		return p.Cmp(q), nil
	case 't':
		x, ok := a.(time.Time)
		if !ok {
			x, ok = parseTime(text(a))
		}
		y, ok2 := b.(time.Time)
		if !ok2 {
			y, ok2 = parseTime(text(b))
		}
		if !ok || !ok2 {
			return 0, pgErr("22007", "invalid input syntax for type timestamp")
		}
		if x.Before(y) {
			return -1, nil
		}
		if y.Before(x) {
			return 1, nil
		}
		return 0, nil
	case 'b':
		x, ok1 := toBool(a)
		y, ok2 := toBool(b)
		if !ok1 || !ok2 {
			return 0, pgErr("22P02", "invalid input syntax for type boolean")
		}
		if x == y {
			return 0, nil
		}
		if x {
			return 1, nil
		}
		return -1, nil
	}
	x, y := text(a), text(b)
	if x == y {
		return 0, nil
	}
	if x < y {
		return -1, nil
	}
	return 1, nil
}

func eqNull(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ok, err := eqVal(a, b)
	return err == nil && ok
}

// coerce converts a value to a column type.
func coerce(v Val, ty string) (Val, error) {
	if v == nil {
		return nil, nil
	}
	switch ty {
	case "text", "varchar", "char", "uuid":
		if s, ok := v.(string); ok {
			return s, nil
		}
		return text(v), nil
	case "int", "integer", "bigint", "smallint", "serial":
		switch x := v.(type) {
		case int64:
			return x, nil
		case float64:
			n := int64(x)
			if float64(n) != x {
				return nil, pgErr("22P02", "invalid input syntax for type bigint: \""+text(v)+"\"")
			}
			return n, nil
		case *big.Int:
			if !x.IsInt64() {
				return nil, pgErr("22003", "bigint out of range")
			}
			return x.Int64(), nil
		}
		b, ok := num(v)
		if !ok {
			return nil, pgErr("22P02", "invalid input syntax for type bigint: \""+text(v)+"\"")
		}
		if !b.IsInt64() {
			return nil, pgErr("22003", "value out of range for type bigint")
		}
		return b.Int64(), nil
	case "num", "numeric", "decimal":
		switch x := v.(type) {
		case Dec:
			return x, nil
		case *big.Int:
			return x, nil
		case int64:
			return big.NewInt(x), nil
		case string:
			if x == "" {
				return nil, pgErr("22P02", "invalid input syntax for type numeric: \"\"")
			}
			if n, ok := new(big.Int).SetString(x, 10); ok {
				return n, nil
			}
			if _, err := decimal.NewFromString(x); err != nil {
				return nil, pgErr("22P02", "invalid input syntax for type numeric: \""+x+"\"")
			}
			return Dec(x), nil
		case float64:
			return x, nil
		}
		return nil, pgErr("42804", "column is of type numeric")
	case "num12_2":
		d, err := dec(v)
		if err != nil {
			return nil, pgErr("22P02", "invalid input syntax for type numeric: \""+text(v)+"\"")
		}
		d = d.Round(2)
		if d.Abs().Cmp(decimal.New(1, 10)) >= 0 {
			return nil, pgErr("22003", "numeric field overflow")
		}
		return Dec(d.StringFixed(2)), nil
	case "float", "float8", "real":
		switch x := v.(type) {
		case float64:
			return x, nil
		case int64:
			return float64(x), nil
		}
		f, err := strconv.ParseFloat(text(v), 64)
		if err != nil {
			return nil, pgErr("22P02", "invalid input syntax for type double precision: \""+text(v)+"\"")
		}
		return f, nil
	case "ts", "timestamp", "timestamptz", "date":
		if ty == "timestamptz" {
			if t, ok := v.(time.Time); ok {
				return t.UTC().Round(time.Microsecond), nil
			}
		}
		if t, ok := v.(time.Time); ok {
			t = wall(t)
			if ty == "date" {
				return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC), nil
			}
			return t, nil
		}
		t, ok := parseTime(text(v))
		if !ok {
			return nil, pgErr("22007", "invalid input syntax for type timestamp: \""+text(v)+"\"")
		}
		return t, nil
	case "json", "jsonb":
		if j, ok := v.(JSON); ok {
			return j, nil
		}
		return JSON(text(v)), nil
	case "bool", "boolean":
		b, ok := toBool(v)
		if !ok {
			return nil, pgErr("22P02", "invalid input syntax for type boolean: \""+text(v)+"\"")
		}
		return b, nil
	case "texts", "text[]":
		if a, ok := v.([]string); ok {
			return a, nil
		}
		var a pq.StringArray
		if err := a.Scan(text(v)); err != nil {
			return nil, pgErr("22P02", "malformed array literal")
		}
		return []string(a), nil
	case "interval":
		if d, ok := v.(Dur); ok {
			return d, nil
		}
		d, ok := parseInterval(text(v))
		if !ok {
			return nil, pgErr("22007", "invalid input syntax for type interval: \""+text(v)+"\"")
		}
		return d, nil
	}
	return nil, pgErr("XX000", "verif: type "+ty)
}

func parseInterval(s string) (Dur, bool) {
	if p := strings.Split(s, ":"); len(p) == 3 {
		h, e1 := strconv.Atoi(p[0])
		m, e2 := strconv.Atoi(p[1])
		sec, e3 := strconv.ParseFloat(p[2], 64)
		return Dur(time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(sec*float64(time.Second))), e1 == nil && e2 == nil && e3 == nil
	}
	f := strings.Fields(s)
	var d time.Duration
	if len(f)%2 != 0 {
		if x, err := time.ParseDuration(s); err == nil { // Postgres reads "300s" and "5m" alike
			return Dur(x), true
		}
		return 0, false
	}
	for i := 0; i < len(f); i += 2 {
		n, err := strconv.ParseFloat(f[i], 64)
		if err != nil {
			return 0, false
		}
		u := strings.TrimSuffix(strings.ToLower(f[i+1]), "s")
		var k time.Duration
		switch u {
		case "second", "sec":
			k = time.Second
		case "millisecond", "m":
			k = time.Millisecond
		case "minute", "min":
			k = time.Minute
		case "hour":
			k = time.Hour
		case "day":
			k = 24 * time.Hour
		default:
			return 0, false
		}
		d += time.Duration(n * float64(k))
	}
	return Dur(d), len(f) > 0
}

// jsonText is the ->> operator.
func jsonText(j Val, key Val) (Val, error) {
	if j == nil || key == nil {
		return nil, nil
	}
	m, ok := parseJSON(text(j)).(map[string]interface{})
	if !ok {
		return nil, nil
	}
	v, ok := m[text(key)]
	if !ok || v == nil {
		return nil, nil
	}
	switch x := v.(type) {
	case string:
		return x, nil
	case bool:
		return text(x), nil
	case json.Number:
		return x.String(), nil
	}
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return string(b), nil
}

func jsonGet(j Val, key Val) (Val, error) {
	if j == nil || key == nil {
		return nil, nil
	}
	m, ok := parseJSON(text(j)).(map[string]interface{})
	if !ok {
		return nil, nil
	}
	v, ok := m[text(key)]
	if !ok {
		return nil, nil
	}
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return JSON(string(b)), nil
}

func parseJSON(s string) interface{} {
	var v interface{}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

func jsonMerge(a, b Val) (Val, error) {
	x, ok1 := parseJSON(text(a)).(map[string]interface{})
	y, ok2 := parseJSON(text(b)).(map[string]interface{})
	if !ok1 || !ok2 {
		return nil, pgErr("XX000", "verif: jsonb concatenation of non-objects")
	}
	for k, v := range y {
		x[k] = v
	}
	r, err := json.Marshal(x)
	return JSON(string(r)), err
}

// jsonContains is the @> operator of jsonb.
func jsonContains(a, b interface{}) bool {
	switch y := b.(type) {
	case map[string]interface{}:
		x, ok := a.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range y {
			w, ok := x[k]
			if !ok || !jsonContains(w, v) {
				return false
			}
		}
		return true
	case []interface{}:
		x, ok := a.([]interface{})
		if !ok {
			return false
		}
		for _, v := range y {
			found := false
			for _, w := range x {
				found = found || jsonContains(w, v)
			}
			if !found {
				return false
			}
		}
		return true
	case json.Number:
		x, ok := a.(json.Number)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		p, e1 := decimal.NewFromString(x.String())
		q, e2 := decimal.NewFromString(y.String())
		return e1 == nil && e2 == nil && p.Equal(q)
	case string:
		x, ok := a.(string)
		return ok && x == y
	case bool:
		x, ok := a.(bool)
		return ok && x == y
	}
	return a == nil && b == nil
}

func jsonType(v Val) Val {
	if v == nil {
		return nil
	}
	switch parseJSON(text(v)).(type) {
	case map[string]interface{}:
		return "object"
	case []interface{}:
		return "array"
	case string:
		return "string"
	case bool:
		return "boolean"
	case json.Number:
		return "number"
	}
	return "null"
}

// likeMatch is LIKE with % and _.
func likeMatch(s, p string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if likeMatch(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && likeMatch(s[1:], p[1:])
	case '\\':
		if len(p) > 1 {
			p = p[1:]
		}
	}
	return s != "" && s[0] == p[0] && likeMatch(s[1:], p[1:])
}

// Same says whether two stored values are the same.
func Same(a, b Val) bool { return eqNull(a, b) }

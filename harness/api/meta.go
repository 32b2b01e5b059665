package api

import (
	"bytes"
	"encoding/json"
	"math/big"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfsql"
)

// vThing is an entity that has metadata.
type vThing struct {
	table, key, id string
	at             int // its row
}

// vThings seeds two of everything, the first of each with the given metadata.
func (s *vServer) vThings(meta interface{}) []vThing {
	zero := new(big.Int)
	ts := []vThing{{"ledgers", "ledger_id", "ldg_1", 0}, {"ledgers", "ledger_id", "ldg_2", 0}, {"balances", "balance_id", "bln_1", 0}, {"balances", "balance_id", "bln_2", 0},
		{"identity", "identity_id", "idt_1", 0}, {"identity", "identity_id", "idt_2", 0}}
	for _, x := range ts {
		switch x.table {
		case "ledgers":
			s.DB().Seed("ledgers", "ledger_id", x.id, "name", x.id, "meta_data", meta)
		case "balances":
			s.Seed(x.id, zero)
			s.DB().Put("balances", "balance_id", x.id, "meta_data", meta)
		case "identity":
			s.Person(x.id, "{}")
			s.DB().Put("identity", "identity_id", x.id, "meta_data", meta)
		}
	}
	for _, x := range [][2]string{{"txn_1", ""}, {"txn_2", "txn_1"}, {"txn_3", "bulk_1"}, {"txn_4", "bulk_2"}} {
		s.DB().Seed("transactions", "transaction_id", x[0], "parent_transaction", x[1], "source", "bln_1", "destination", "bln_2", "reference", x[0], "currency", "USD", "description", "d", "status", "APPLIED", "hash", "h", "amount", "1", "precise_amount", "100", "precision", 100, "meta_data", meta)
		ts = append(ts, vThing{"transactions", "transaction_id", x[0], 0})
	}
	for i, x := range ts {
		for j, r := range s.DB().Rows(x.table) {
			if r[s.DB().Tables[x.table].Find(x.key)] == x.id {
				ts[i].at = j
			}
		}
	}
	return ts
}

type vKV struct{ k, v string }

// vRead reads the keys of a JSON object, each with its value as written.
func vRead(t string) []vKV {
	var m map[string]json.RawMessage
	vf.Assert(json.Unmarshal([]byte(t), &m) == nil && m != nil, "metadata is an object")
	var r []vKV
	for k, v := range m {
		var b bytes.Buffer
		json.Compact(&b, v)
		r = append(r, vKV{k, b.String()})
	}
	return r
}

// vWith is an object after an update of one key.
func vWith(m []vKV, k, v string) []vKV {
	var r []vKV
	for _, x := range m {
		if x.k != k {
			r = append(r, x)
		}
	}
	return append(r, vKV{k, v})
}

func vSameKeys(a, b []vKV) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			ok = vf.Or(ok, x.k == y.k && vf.StrEq(x.v, y.v))
		}
		if !ok {
			return false
		}
	}
	return true
}

// vMetaUpdate is one request.
type vMetaUpdate struct{ id, k, v string }

func vUpdate(n string) vMetaUpdate {
	u := vMetaUpdate{id: vMetaIDs[vf.Choose(n+" names", len(vMetaIDs))], k: []string{"a", "b", "c"}[vf.Choose(n+" key", 3)]}
	switch vf.Choose(n+" value", 4) {
	case 0:
		b, _ := json.Marshal(vf.Str(n+" text", 0, 2, "a-z \"\\"))
		u.v = string(b)
	case 1:
		u.v = "null"
	case 2:
		u.v = "7"
	case 3:
		u.v = `{"x":[1,true]}`
	}
	return u
}

var vMetaIDs = []string{"ldg_1", "bln_1", "idt_1", "txn_1", "bulk_1", "ldg_9", "bln_9", "idt_9", "txn_9", "bulk_9", "acc_1", "x"}

// vTouches says whether an update is about an entity: the one named, and the transactions under it.
func (s *vServer) vTouches(u vMetaUpdate, x vThing) bool {
	return x.id == u.id || x.table == "transactions" && s.Field(x.table, x.key, x.id, "parent_transaction") == u.id
}

func (s *vServer) vMeta(x vThing) string { return s.Field(x.table, x.key, x.id, "meta_data") }

// vMetaSeed is metadata there before, and its keys.
func vMetaSeed() (interface{}, []vKV) {
	switch vf.Choose("before", 3) {
	case 0:
		q, _ := json.Marshal(vf.Str("held", 0, 2, "a-z \"\\"))
		return `{"a":` + string(q) + `,"n":123456789012345678901234567890,"o":{"p":[]}}`, []vKV{{"a", string(q)}, {"n", "123456789012345678901234567890"}, {"o", `{"p":[]}`}}
	case 1:
		return "{}", nil
	}
	return "null", nil
}

// vRest is everything of a row but the metadata.
func (s *vServer) vRest(x vThing) []vfsql.Val {
	r := append([]vfsql.Val{}, s.DB().Rows(x.table)[x.at]...)
	r[s.DB().Tables[x.table].Find("meta_data")] = nil
	return r
}

func (s *vServer) metaPost(u vMetaUpdate) *vReply {
	return s.send("POST", "/"+u.id+"/metadata", "", `{"meta_data":{"`+u.k+`":`+u.v+`}}`)
}

// vMetaCheck compares every entity with what is expected of it.
func (s *vServer) vMetaCheck(ts []vThing, rest [][]vfsql.Val, meta interface{}, was []vKV, orders ...[]vMetaUpdate) {
	for i, x := range ts {
		now := s.vRest(x)
		for j := range now {
			vf.Assert(vSameVal(now[j], rest[i][j]), "no other field of an entity changes")
		}
		touched := false
		fits := false
		for _, us := range orders {
			want := was
			for _, u := range us {
				if s.vTouches(u, x) {
					touched = true
					want = vWith(want, u.k, u.v)
				}
			}
			if touched && vSameKeys(vRead(s.vMeta(x)), want) {
				fits = true
			}
		}
		if touched {
			vf.Assert(fits, "the given keys are set and the others kept")
		} else {
			b, _ := meta.(string)
			vf.Assert(vf.StrEq(s.vMeta(x), b), "no other entity changes")
		}
	}
}

func vSameVal(a, b vfsql.Val) bool {
	if x, ok := a.(*big.Int); ok {
		y, ok := b.(*big.Int)
		return ok && vf.BigEq(x, y)
	}
	return vfsql.Same(a, b)
}

// VMeta: updates of metadata one after the other.
func VMeta() {
	s := vServe()
	meta, was := vMetaSeed()
	ts := s.vThings(meta)
	var rest [][]vfsql.Val
	for _, x := range ts {
		rest = append(rest, s.vRest(x))
	}
	n := 1
	if vf.Thorough() {
		n = 2
	}
	var us []vMetaUpdate
	for i := 0; i < n; i++ {
		u := vUpdate("request " + vItoa(i))
		known := false
		for _, x := range ts {
			known = known || s.vTouches(u, x)
		}
		r := s.metaPost(u)
		vf.WaitAll()
		vf.Assert((r.code == 200) == known, "the update of an entity that is there is accepted, of another refused")
		if known {
			us = append(us, u)
			vf.Reach("updated")
		}
	}
	s.vMetaCheck(ts, rest, meta, was, us)
}

// VMetaRace: two updates at once.
func VMetaRace() {
	s := vServe()
	meta, was := vMetaSeed()
	ts := s.vThings(meta)
	var rest [][]vfsql.Val
	for _, x := range ts {
		rest = append(rest, s.vRest(x))
	}
	id := vMetaIDs[vf.Choose("entity", 4)]
	a := vMetaUpdate{id, "a", "1"}
	b := vMetaUpdate{id, []string{"a", "b"}[vf.Choose("second key", 2)], "2"}
	if id == "txn_1" && vf.Bool("parent and child") {
		b.id = "txn_2"
	}
	var ra, rb *vReply
	vf.Par(1, func() { ra = s.metaPost(a) }, func() { rb = s.metaPost(b) })
	vf.WaitAll()
	vf.Assert(ra.code == 200 && rb.code == 200, "both updates are accepted")
	s.vMetaCheck(ts, rest, meta, was, []vMetaUpdate{a, b}, []vMetaUpdate{b, a})
	vf.Reach("both")
}

package api

import (
	"encoding/json"
	"math/big"
	"strings"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// vCaller is who makes the requests: nobody in particular, the master, or a key.
func (s *vServer) vCaller() (key, id string) {
	switch vf.Choose("caller", 3) {
	case 1:
		s.Conf().Server.Secure, s.Conf().Server.SecretKey = true, vMaster
		return vMaster, ""
	case 2:
		k, err := s.Svc().CreateAPIKey(s.Ctx(), "k", "owner", []string{"*:*"}, time.Now().Add(time.Hour))
		if err != nil {
			vf.Stop()
		}
		s.Conf().Server.Secure, s.Conf().Server.SecretKey = true, vMaster
		return k.Key, k.APIKeyID
	}
	return "", ""
}

// vAmount writes an amount of a precision of 100 and says how many minor units it is.
func vAmount(n, more string) (string, *big.Int) {
	if vf.Bool(n + " precise") {
		p := vf.Big(n, "1", "1000000000000000000000000000000")
		return `"precise_amount":` + p.String() + more, p
	}
	f, m := vf.DecimalM(n, 1, 999999999999999, 2)
	b, _ := json.Marshal(f)
	return `"amount":` + string(b) + more, m
}

const vBig = "1000000000000000000000000000000000"

// vMoney is a server whose balances can pay.
func vMoney() *vServer {
	s := vServe()
	s.VShared()
	fund, _ := new(big.Int).SetString(vBig, 10)
	s.Seed("alice", fund)
	s.Seed("bob", new(big.Int))
	s.Seed("carol", new(big.Int))
	s.Person("i", "{}")
	s.DB().Put("balances", "balance_id", "bob", "identity_id", "i")
	return s
}

// vKept says that metadata has what was given and the key of the caller.
func vKept(meta, given, id string) {
	var m map[string]interface{}
	vf.Assert(json.Unmarshal([]byte(meta), &m) == nil, "the metadata can be read")
	if strings.Contains(given, "note") {
		vf.Assert(m["note"] == "n", "the metadata is as stated")
	}
	if id == "" {
		vf.Assert(m["BLNK_GENERATED_BY"] == nil, "no key is recorded without one")
	} else {
		vf.Assert(m["BLNK_GENERATED_BY"] == id, "the caller's key is recorded")
	}
}

var vMetas = []string{"", `,"meta_data":{"note":"n"}`, `,"meta_data":null`}

// VPosted: what a posted transaction says is what the ledger or the queue gets.
func VPosted() {
	s := vMoney()
	key, id := s.vCaller()
	amt, want := vAmount("amount", `,"precision":100`)
	meta := vMetas[vf.Choose("metadata", 3)]
	infl := vf.Bool("inflight")
	rest, held := `,"source":"alice","destination":"bob","currency":"USD","description":"d","reference":"r"`, ""
	if infl {
		held = `,"inflight":true`
		rest += held
	}
	rest += meta
	route := vf.Choose("route", 3)
	var r *vReply
	switch route {
	case 0:
		r = s.send("POST", "/transactions", key, `{`+amt+rest+`,"skip_queue":true}`)
	case 1:
		r = s.send("POST", "/transactions", key, `{`+amt+rest+`}`)
	case 2:
		r = s.send("POST", "/transactions/bulk", key, `{"transactions":[{`+amt+rest+`}],"skip_queue":true`+held+`}`)
	}
	vf.WaitAll()
	vf.Assert(r.code == 201, "a request in order is accepted")
	rows := s.Txns()
	vf.Assert(len(rows) == 1, "one transaction is recorded")
	x := rows[0]
	vf.Assert(vf.BigEq(x.Amount(), want), "the ledger has the stated amount")
	vf.Assert(x.Src() == "alice" && x.Dst() == "bob" && s.Cell(x, "currency") == "USD" && s.Cell(x, "description") == "d" && (x.Ref() == "r" || route == 1), "every other field is as stated")
	if route != 2 {
		vKept(s.Cell(x, "meta_data"), meta, id)
	}
	vf.Reach("recorded")
	if route == 1 {
		// as the queue has it
		var t model.Transaction
		task := s.LastTask(0)
		vf.Assert(json.Unmarshal(task.Payload, &t) == nil, "the queued transaction can be read")
		vf.Assert(t.PreciseAmount != nil && vf.BigEq(t.PreciseAmount, want), "the queue has the stated amount")
		vf.Assert(t.Inflight == infl, "the queue has it held or not")
		vf.Reach("queued")
		return
	}
	col := "credit_balance"
	if infl {
		col = "inflight_credit_balance"
	}
	vf.Assert(vf.BigEq(s.Fig("bob", col), want), "the funds moved are the stated amount")
}

// VParted: the parts of a posted split are the stated ones.
func VParted() {
	s := vMoney()
	key, id := s.vCaller()
	amt, whole := vAmount("amount", `,"precision":100`)
	part := vf.Big("part", "1", "9223372036854775807")
	if !vf.BigLt(part, whole) {
		vf.Stop()
	}
	meta := vMetas[vf.Choose("metadata", 3)]
	r := s.send("POST", "/transactions", key, `{`+amt+`,"source":"alice","destinations":[{"identifier":"bob","precise_distribution":"`+part.String()+`"},{"identifier":"carol","distribution":"left"}],"currency":"USD","description":"d","reference":"r"`+meta+`,"skip_queue":true}`)
	vf.WaitAll()
	vf.Assert(r.code == 201, "a request in order is accepted")
	for _, x := range s.Txns() {
		if x.Dst() == "carol" {
			vf.Assert(vf.BigEq(vf.Sum(x.Amount(), part), whole), "the rest is what remains of the stated amount")
		} else {
			vf.Assert(x.Dst() == "bob" && vf.BigEq(x.Amount(), part), "the ledger has the stated part")
		}
		vKept(s.Cell(x, "meta_data"), meta, id)
	}
	vf.Assert(vf.BigEq(s.Fig("bob", "credit_balance"), part), "the funds moved are the stated part")
	vf.Assert(vf.BigEq(vf.Sum(s.Fig("carol", "credit_balance"), part), whole), "the funds moved are the rest")
	vf.Reach("recorded")
}

// VCommitted: a commit takes the stated part of the hold.
func VCommitted() {
	s := vMoney()
	key, _ := s.vCaller()
	held := vf.Big("held", "1", "1000000000000000000000000000000")
	t, err := s.Record("alice", "bob", "h", held, func(t *model.Transaction) { t.Inflight, t.Precision = true, 100 })
	vf.Assert(err == nil, "a hold is recorded")
	amt, want := vAmount("part", "")
	if !vf.BigLe(want, held) {
		vf.Stop()
	}
	var r *vReply
	if vf.Bool("bulk") {
		r = s.send("POST", "/transactions/inflight/bulk/commit", key, `{"transactions":[{"transaction_id":"`+t.TransactionID+`",`+amt+`}],"skip_queue":true}`)
	} else {
		r = s.send("PUT", "/transactions/inflight/"+t.TransactionID, key, `{"status":"commit",`+amt+`,"skip_queue":true}`)
	}
	vf.WaitAll()
	vf.Assert(r.code == 200, "a commit in order is accepted")
	vf.Assert(vf.BigEq(s.Fig("bob", "credit_balance"), want), "the stated part is committed")
	vf.Assert(vf.BigEq(vf.Sum(s.Fig("bob", "inflight_credit_balance"), want), held), "the rest stays held")
	vf.Reach("committed")
}

// VCreated: what is created is as stated and has the caller's key.
func VCreated() {
	s := vMoney()
	key, id := s.vCaller()
	meta := vMetas[vf.Choose("metadata", 3)]
	name := vf.Str("name", 1, 3, "a-z \"\\<")
	q, _ := json.Marshal(name)
	send := func(path, body string) map[string]interface{} {
		r := s.send("POST", path, key, body)
		vf.Assert(r.code == 201, "a request in order is accepted")
		var m map[string]interface{}
		vf.Assert(json.Unmarshal(r.body, &m) == nil, "the reply can be read")
		return m
	}
	str := func(v interface{}) string { t, _ := v.(string); return t }
	switch vf.Choose("what", 4) {
	case 0:
		m := send("/ledgers", `{"name":`+string(q)+meta+`}`)
		n := str(m["ledger_id"])
		vf.Assert(vf.StrEq(s.Field("ledgers", "ledger_id", n, "name"), name), "the ledger is as stated")
		vKept(s.Field("ledgers", "ledger_id", n, "meta_data"), meta, id)
	case 1:
		m := send("/balances", `{"ledger_id":"general_ledger_id","currency":`+string(q)+`,"identity_id":"i","track_fund_lineage":true,"allocation_strategy":"LIFO"`+meta+`}`)
		n := str(m["balance_id"])
		f := func(c string) string { return s.Field("balances", "balance_id", n, c) }
		vf.Assert(f("ledger_id") == "general_ledger_id" && vf.StrEq(f("currency"), name) && f("identity_id") == "i" && f("allocation_strategy") == "LIFO", "the balance is as stated")
		vKept(f("meta_data"), meta, id)
	case 2:
		m := send("/identities", `{"identity_type":"individual","first_name":`+string(q)+`,"last_name":"l","category":"c"`+meta+`}`)
		n := str(m["identity_id"])
		f := func(c string) string { return s.Field("identity", "identity_id", n, c) }
		vf.Assert(f("identity_type") == "individual" && vf.StrEq(f("first_name"), name) && f("last_name") == "l" && f("category") == "c", "the identity is as stated")
		vKept(f("meta_data"), meta, id)
	case 3:
		m := send("/accounts", `{"balance_id":"bob","bank_name":`+string(q)+`,"number":"7"`+meta+`}`)
		n := str(m["account_id"])
		f := func(c string) string { return s.Field("accounts", "account_id", n, c) }
		vf.Assert(f("balance_id") == "bob" && f("ledger_id") == "general_ledger_id" && f("identity_id") == "i" && f("currency") == "USD" && vf.StrEq(f("bank_name"), name) && f("number") == "7", "the account is as stated")
		vKept(f("meta_data"), meta, id)
	}
	vf.Reach("created")
}

var _ blnk.VRow

package api

import (
	"encoding/json"
	"math/big"
	"strings"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

var vMonFields = []string{"debit_balance", "credit_balance", "balance", "inflight_debit_balance", "inflight_credit_balance", "inflight_balance"}
var vMonOps = []string{">", "<", ">=", "<=", "=", "!="}

// vCond is a monitor's condition; the threshold is in minor units.
type vCond struct {
	id, bal, field, op string
	prec               int64
	limit              *big.Int
}

func (s *vServer) holds(c vCond) bool {
	x := s.Fig(c.bal, c.field)
	switch c.op {
	case ">":
		return vf.BigLt(c.limit, x)
	case "<":
		return vf.BigLt(x, c.limit)
	case ">=":
		return vf.BigLe(c.limit, x)
	case "<=":
		return vf.BigLe(x, c.limit)
	case "=":
		return vf.BigEq(x, c.limit)
	}
	return vf.Not(vf.BigEq(x, c.limit))
}

// vThreshold gives a condition a threshold and writes it down.
func vThreshold(n string, c *vCond) string {
	f, m := vf.DecimalM(n, -999999999999, 999999999999, 0)
	if f == 0 {
		vf.Stop()
	}
	c.limit = new(big.Int).Mul(m, big.NewInt(c.prec))
	b, _ := json.Marshal(f)
	return `"value":` + string(b)
}

func (c vCond) text(value string, prec bool) string {
	t := `{"balance_id":"` + c.bal + `","call_back_url":"http://c","condition":{` + value + `,"field":"` + c.field + `","operator":"` + c.op + `"`
	if prec {
		t += `,"precision":` + map[int64]string{1: "1", 100: "100"}[c.prec]
	}
	return t + `}}`
}

func (s *vServer) monitor(c *vCond, value string) {
	r := s.send("POST", "/balance-monitors", "", c.text(value, true))
	var m model.BalanceMonitor
	vf.Assert(r.code == 201 && json.Unmarshal(r.body, &m) == nil && m.MonitorID != "", "a monitor is created")
	c.id = m.MonitorID
}

// vHook is what a notification says.
type vHook struct {
	Event string
	Data  struct {
		MonitorID string `json:"monitor_id"`
		Field     string
	}
}

// fires counts the notifications of each monitor since.
func (s *vServer) fires(was int) map[string]int {
	n := map[string]int{}
	for _, k := range s.Store().Tasks[was:] {
		if k.Type == "new:webhook" && strings.Contains(string(k.Payload[:32]), "balance.monitor") {
			var h vHook
			vf.Assert(json.Unmarshal(k.Payload, &h) == nil && h.Event == "balance.monitor", "the notification can be read")
			n[h.Data.MonitorID]++
		}
	}
	return n
}

func (s *vServer) moved(ref string, amt *big.Int, held bool) map[string]int {
	was := len(s.Store().Tasks)
	_, err := s.Record("alice", "bob", ref, amt, func(t *model.Transaction) { t.Inflight, t.Precision = held, 1 })
	vf.Assert(err == nil, "the balances change")
	vf.WaitAll()
	return s.fires(was)
}

func (s *vServer) settled(amt *big.Int, how string) map[string]int {
	t, err := s.Record("alice", "bob", "h", amt, func(t *model.Transaction) { t.Inflight, t.Precision = true, 1 })
	vf.Assert(err == nil, "funds are held")
	vf.WaitAll()
	was := len(s.Store().Tasks)
	r := s.send("PUT", "/transactions/inflight/"+t.TransactionID, "", `{"status":"`+how+`","skip_queue":true}`)
	vf.Assert(r.code == 200, "the hold is settled")
	vf.WaitAll()
	return s.fires(was)
}

// VMonitor: a monitor fires when its condition holds after a change, whichever it is.
func VMonitor() {
	s := vMoney()
	s.Conf().Notification.Webhook.Url = "http://hook"
	c := vCond{bal: []string{"alice", "bob"}[vf.Choose("balance", 2)], field: vMonFields[vf.Choose("field", 6)], op: vMonOps[vf.Choose("operator", 6)], prec: []int64{1, 100}[vf.Choose("precision", 2)]}
	s.monitor(&c, vThreshold("threshold", &c))
	o := vCond{bal: "carol", field: "balance", op: "=", prec: 1}
	s.monitor(&o, `"value":5`)
	amt := vf.Big("amount", "1", "1000000000000000000000000000000")
	n := map[string]int{}
	switch vf.Choose("change", 4) {
	case 0:
		n = s.moved("r", amt, false)
	case 1:
		n = s.moved("r", amt, true)
	case 2:
		n = s.settled(amt, "commit")
	case 3:
		n = s.settled(amt, "void")
	}
	want := s.holds(c)
	vf.Assert(vf.Iff(n[c.id] == 1, want) && n[c.id] <= 1, "a monitor fires exactly when its condition holds")
	vf.Assert(len(n) == n[c.id], "no other monitor fires")
	if n[c.id] > 0 {
		vf.Reach("fired")
	} else {
		vf.Reach("silent")
	}
}

// VMonitorChanged: after a monitor is added, changed or deleted, the new condition counts.
func VMonitorChanged() {
	s := vMoney()
	s.Conf().Notification.Webhook.Url = "http://hook"
	c := vCond{bal: "bob", field: "credit_balance", op: ">=", prec: 100}
	s.monitor(&c, vThreshold("threshold", &c))
	all := []*vCond{&c}
	if vf.Bool("changes before") {
		s.moved("w", big.NewInt(1), false)
	}
	d := vCond{bal: "alice", field: "debit_balance", op: ">", prec: 1}
	switch vf.Choose("change", 6) {
	case 0: // another one
		d.bal = []string{"alice", "bob"}[vf.Choose("of", 2)]
		s.monitor(&d, vThreshold("second", &d))
		all = append(all, &d)
	case 1: // other threshold
		r := s.send("PUT", "/balance-monitors/"+c.id, "", c.text(vThreshold("second", &c), vf.Bool("precision given")))
		vf.Assert(r.code == 200, "a monitor is changed")
	case 2: // other relation, figure and precision
		c.field, c.op, c.prec = "inflight_balance", "<", 1
		r := s.send("PUT", "/balance-monitors/"+c.id, "", c.text(vThreshold("second", &c), true))
		vf.Assert(r.code == 200, "a monitor is changed")
	case 3: // other balance
		c.bal, c.field = "alice", "debit_balance"
		r := s.send("PUT", "/balance-monitors/"+c.id, "", c.text(vThreshold("second", &c), true))
		vf.Assert(r.code == 200, "a monitor is changed")
	case 4: // gone
		r := s.send("DELETE", "/balance-monitors/"+c.id, "", "")
		vf.Assert(r.code == 200, "a monitor is deleted")
		all = nil
	case 5: // unknown
		r := s.send("PUT", "/balance-monitors/mon_none", "", c.text(`"value":1`, true))
		vf.Assert(r.code == 404, "a monitor that is not there is not changed")
	}
	n := s.moved("r", vf.Big("amount", "1", "1000000000000000000000000000000"), vf.Bool("inflight"))
	k := 0
	for _, m := range all {
		vf.Assert(vf.Iff(n[m.id] == 1, s.holds(*m)) && n[m.id] <= 1, "a monitor fires exactly when its new condition holds")
		k += n[m.id]
	}
	total := 0
	for _, v := range n {
		total += v
	}
	vf.Assert(total == k, "no other monitor fires")
	if k > 0 {
		vf.Reach("fired")
	}
}

// VMonitorRace: a monitor changed while another request has the monitors looked up.
func VMonitorRace() {
	s := vMoney()
	s.Conf().Notification.Webhook.Url = "http://hook"
	c := vCond{bal: "bob", field: "credit_balance", op: ">=", prec: 1, limit: big.NewInt(5)}
	s.monitor(&c, `"value":5`)
	up := vf.Bool("raised")
	d := c
	if up {
		d.limit = big.NewInt(50)
	}
	vf.Par(1, func() {
		s.Record("alice", "bob", "w", big.NewInt(10), func(t *model.Transaction) { t.Precision = 1 })
	}, func() {
		if up {
			s.send("PUT", "/balance-monitors/"+c.id, "", c.text(`"value":50`, true))
		} else {
			s.send("DELETE", "/balance-monitors/"+c.id, "", "")
		}
	})
	vf.WaitAll()
	n := s.moved("r", big.NewInt(10), false)
	vf.Assert(len(n) == 0, "the old condition no longer counts")
	vf.Reach("changed")
}

package blnk

import (
	"math/big"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfsql"
	"github.com/blnkfinance/blnk/model"
)

// vRow is a stored transaction.
type vRow struct {
	id, parent, src, dst, ref, status string
	amt                               *big.Int
	r                                 []vfsql.Val
}

func (w *vWorld) txns() []vRow {
	t := w.db.Tables["transactions"]
	id, par, src, dst := t.Find("transaction_id"), t.Find("parent_transaction"), t.Find("source"), t.Find("destination")
	ref, st, amt := t.Find("reference"), t.Find("status"), t.Find("precise_amount")
	var out []vRow
	for _, r := range w.db.Rows("transactions") {
		v := vRow{id: vTxt(r[id]), parent: vTxt(r[par]), src: vTxt(r[src]), dst: vTxt(r[dst]), ref: vTxt(r[ref]), status: vTxt(r[st]), r: r}
		if a, ok := r[amt].(*big.Int); ok {
			v.amt = a
		} else {
			v.amt = vZero()
		}
		out = append(out, v)
	}
	return out
}

func vTxt(v vfsql.Val) string {
	if s, ok := v.(string); ok {
		return s
	}
	return ""
}

// vBooks is what the balances were given before the first transaction.
type vBooks struct {
	ids           []string
	credit, debit map[string]*big.Int
}

func (w *vWorld) open(b *vBooks, id, cur string, credit, debit *big.Int) {
	w.seedBalance(id, cur, credit, debit)
	if b.credit == nil {
		b.credit, b.debit = map[string]*big.Int{}, map[string]*big.Int{}
	}
	b.ids = append(b.ids, id)
	b.credit[id], b.debit[id] = new(big.Int).Set(credit), new(big.Int).Set(debit)
}

// replay is what the balances must be after the stored transactions: credits, debits, held credits and held debits.
func (w *vWorld) replay(b *vBooks) map[string][4]*big.Int {
	out := map[string][4]*big.Int{}
	for _, id := range b.ids {
		out[id] = [4]*big.Int{new(big.Int).Set(b.credit[id]), new(big.Int).Set(b.debit[id]), vZero(), vZero()}
	}
	add := func(id string, f int, a *big.Int, sign int) {
		x, ok := out[id]
		if !ok {
			return
		}
		if sign > 0 {
			x[f] = new(big.Int).Add(x[f], a)
		} else {
			x[f] = new(big.Int).Sub(x[f], a)
		}
		out[id] = x
	}
	rows := w.txns()
	held := map[string]bool{}
	for _, r := range rows {
		if r.status == StatusInflight {
			held[r.id] = true
		}
	}
	for _, r := range rows {
		switch r.status {
		case StatusApplied:
			add(r.dst, 0, r.amt, 1)
			add(r.src, 1, r.amt, 1)
			if held[r.parent] {
				add(r.dst, 2, r.amt, -1)
				add(r.src, 3, r.amt, -1)
			}
		case StatusInflight:
			add(r.dst, 2, r.amt, 1)
			add(r.src, 3, r.amt, 1)
		case StatusVoid:
			add(r.dst, 2, r.amt, -1)
			add(r.src, 3, r.amt, -1)
		}
	}
	return out
}

// agrees says whether every stored figure is what the replay gives.
func (w *vWorld) agrees(b *vBooks) bool {
	ok := true
	rep := w.replay(b)
	for _, id := range b.ids {
		x := rep[id]
		ok = vf.And(ok, vf.And(vf.BigEq(w.fig(id, "credit_balance"), x[0]), vf.BigEq(w.fig(id, "debit_balance"), x[1])))
		ok = vf.And(ok, vf.And(vf.BigEq(w.fig(id, "inflight_credit_balance"), x[2]), vf.BigEq(w.fig(id, "inflight_debit_balance"), x[3])))
		ok = vf.And(ok, vf.BigEq(w.fig(id, "balance"), new(big.Int).Sub(x[0], x[1])))
		ok = vf.And(ok, vf.BigEq(w.fig(id, "inflight_balance"), new(big.Int).Sub(x[2], x[3])))
	}
	return ok
}

// figures is a copy of every figure of every balance.
func (w *vWorld) figures(b *vBooks) map[string]*big.Int {
	out := map[string]*big.Int{}
	for _, id := range b.ids {
		for _, c := range vFigs {
			out[id+"/"+c] = new(big.Int).Set(w.fig(id, c))
		}
	}
	return out
}

func vSame(b *vBooks, x, y map[string]*big.Int) bool {
	ok := true
	for _, id := range b.ids {
		for _, c := range vFigs {
			ok = vf.And(ok, vf.BigEq(x[id+"/"+c], y[id+"/"+c]))
		}
	}
	return ok
}

// record asks for a transaction to be carried out at once, as the API does.
func (w *vWorld) record(src, dst, ref string, amt *big.Int, set func(t *model.Transaction)) (*model.Transaction, error) {
	t := &model.Transaction{Source: src, Destination: dst, Reference: ref, Currency: "USD", PreciseAmount: amt, Precision: 100, SkipQueue: true}
	if set != nil {
		set(t)
	}
	return w.l.QueueTransaction(w.ctx, t)
}

// status counts the stored transactions with a status.
func vCount(rows []vRow, f func(vRow) bool) int {
	n := 0
	for _, r := range rows {
		if f(r) {
			n++
		}
	}
	return n
}

// VHistory: any short history of requests leaves balances that are the replay of the stored transactions, at every commit.
func VHistory() {
	n := 3
	if vf.Thorough() {
		n = 4
	}
	w := vNew()
	b := &vBooks{}
	fund := vf.Big("fund", "0", vHuge)
	w.open(b, "alice", "USD", fund, vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	commits := 0
	w.db.OnCommit = func() {
		commits++
		vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
	}
	var made []string
	for i := 0; i < n; i++ {
		name := "op" + vItoa(i)
		before := w.figures(b)
		was := len(w.txns())
		amt := vf.Big("amount"+vItoa(i), "1", vHuge)
		var got *model.Transaction
		var err error
		op := 0
		if len(made) > 0 {
			op = vf.Choose(name, 5)
		}
		switch op {
		case 0:
			kind := vf.Choose("kind"+vItoa(i), 4)
			got, err = w.record("alice", "bob", "ref"+vItoa(i), amt, func(t *model.Transaction) {
				t.Inflight = kind == 1 || kind == 3
				t.AllowOverdraft = kind >= 2
			})
		case 1:
			if vf.Bool("all" + vItoa(i)) {
				amt = vZero()
			}
			got, err = w.l.CommitInflightTransaction(w.ctx, made[vf.Choose("which"+vItoa(i), len(made))], amt)
		case 2:
			got, err = w.l.VoidInflightTransaction(w.ctx, made[vf.Choose("which"+vItoa(i), len(made))])
		case 3:
			got, err = w.l.RefundTransaction(w.ctx, made[vf.Choose("which"+vItoa(i), len(made))], true)
		case 4:
			t := &model.Transaction{TransactionID: "rej" + vItoa(i), Source: "alice", Destination: "bob", Reference: "ref" + vItoa(i), Currency: "USD", PreciseAmount: amt, Precision: 100}
			model.ApplyPrecision(t)
			got, err = w.l.RejectTransaction(w.ctx, t, "no")
		}
		now := w.txns()
		if err != nil {
			vf.Reach("refused")
			vf.Assert(vSame(b, before, w.figures(b)), "a refused request moves nothing")
			vf.Assert(len(now) == was, "a refused request leaves no record")
			continue
		}
		vf.Reach([]string{"recorded", "committed", "voided", "refunded", "rejected"}[op])
		vf.Assert(len(now) == was+1, "one record per request")
		last := now[len(now)-1]
		vf.Assert(last.id == got.TransactionID, "the reported transaction is the stored one")
		vf.Assert(last.status == got.Status, "the reported status is the stored one")
		made = append(made, got.TransactionID)
	}
	vf.WaitAll()
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
	_ = commits
}

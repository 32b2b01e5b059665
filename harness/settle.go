package blnk

import (
	"math/big"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// vHold is what has been done with a held transaction.
type vHold struct {
	id   string
	amt  *big.Int
	rows []vRow
}

// settled gives the committed amount of a hold, the voided amount and the number of voids, from the stored rows.
func (w *vWorld) settled(id string) (committed, voided *big.Int, voids int) {
	committed, voided = vZero(), vZero()
	for _, r := range w.txns() {
		if r.parent != id {
			continue
		}
		switch r.status {
		case StatusApplied:
			committed = vf.Sum(committed, r.amt)
		case StatusVoid:
			voided = vf.Sum(voided, r.amt)
			voids++
		}
	}
	return
}

// within: no hold was settled beyond its amount, a void took what was left, and only holds were settled.
func (w *vWorld) within(refund bool) {
	rows := w.txns()
	for _, h := range rows {
		if h.status != StatusInflight {
			continue
		}
		c, v, n := w.settled(h.id)
		vf.Assert(n <= 1, "a hold is voided at most once")
		vf.Assert(vf.BigLe(vf.Sum(c, v), h.amt), "a hold is never settled beyond its amount")
		if n == 1 {
			vf.Assert(vf.BigEq(vf.Sum(c, v), h.amt), "a void releases exactly what is left")
			vf.Reach("voided")
		}
	}
	for _, r := range rows {
		if r.status != StatusVoid && (r.status != StatusApplied || r.parent == "" || refund) {
			continue
		}
		ok := false
		for _, h := range rows {
			ok = ok || (h.id == r.parent && (h.status == StatusInflight || h.status == StatusQueued && r.status == StatusApplied))
		}
		vf.Assert(ok, "only holds are settled")
	}
}

// VSettle: any sequence of commits and voids of holds.
func VSettle() {
	w := vNew()
	w.conf.Transaction.EnableCoalescing = false
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	var ids []string
	n := 1 + vf.Choose("holds", 2)
	for i := 0; i < n; i++ {
		amt := vf.Big("hold"+vItoa(i), "1", vHuge)
		kind := 0
		if i == 0 {
			kind = vf.Choose("kind", 4)
		}
		switch kind {
		case 0: // held at once
			t, err := w.record("alice", "bob", "h"+vItoa(i), amt, func(t *model.Transaction) { t.Inflight = true })
			if err != nil {
				return
			}
			ids = append(ids, t.TransactionID)
		case 1, 2: // queued, processed or not yet
			t, task := w.queue("alice", "bob", "h"+vItoa(i), amt, func(t *model.Transaction) { t.Inflight = true })
			ids = append(ids, t.TransactionID)
			if kind == 1 {
				if _, err := w.l.ProcessQueuedTransaction(w.ctx, vTask(task), false); err != nil {
					return
				}
				rows := w.txns()
				ids = append(ids, rows[len(rows)-1].id)
			}
		case 3: // applied
			t, err := w.record("alice", "bob", "h"+vItoa(i), amt, nil)
			if err != nil {
				return
			}
			ids = append(ids, t.TransactionID)
		}
	}
	vf.WaitAll()
	steps := 2
	if vf.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		id := ids[vf.Choose("which"+vItoa(i), len(ids))]
		amt := vf.Big("amount"+vItoa(i), "0", vHuge)
		before, was := w.figures(b), len(w.txns())
		hold, left, held := w.leftOf(id)
		var got *model.Transaction
		var err error
		full := false
		op := vf.Choose("op"+vItoa(i), 4)
		switch op {
		case 0:
			got, err = w.l.CommitInflightTransaction(w.ctx, id, amt)
		case 1:
			got, err = w.l.VoidInflightTransaction(w.ctx, id)
		case 2:
			_, err = w.l.RunInflightActionByParent(w.ctx, id, InflightActionCommit, amt, "act"+vItoa(vf.Choose("action", 2)))
		case 3:
			_, err = w.l.RunInflightActionByParent(w.ctx, id, InflightActionVoid, vZero(), "act"+vItoa(vf.Choose("action", 2)))
		}
		_ = full
		vf.WaitAll()
		w.within(false)
		now := w.txns()
		vf.Assert(len(now) <= was+1, "one record per request")
		if len(now) == was {
			vf.Assert(vSame(b, before, w.figures(b)), "a refused request moves nothing")
			if op < 2 {
				vf.Assert(err != nil, "a request without effect is refused")
				if held && op == 0 {
					vf.Assert(vf.Not(vf.And(vf.BigLe(amt, left), vf.BigLt(vZero(), left))), "a commit within what is left is carried out")
				}
				if held && op == 1 {
					vf.Assert(vf.Not(vf.BigLt(vZero(), left)), "what is left can be voided")
				}
			}
			continue
		}
		r := now[len(now)-1]
		vf.Assert(held, "only a hold can be settled")
		vf.Assert(r.parent == hold, "the settlement belongs to the hold")
		vf.Assert(vf.BigLt(vZero(), left), "nothing is settled once nothing is left")
		if op == 0 || op == 2 {
			vf.Assert(vf.Or(vf.BigEq(r.amt, amt), vf.And(vf.BigEq(amt, vZero()), vf.BigEq(r.amt, left))), "a commit takes what was asked")
			vf.Assert(r.status == StatusApplied, "a commit is applied")
		} else {
			vf.Assert(vf.BigEq(r.amt, left), "a void takes what is left")
			vf.Assert(r.status == StatusVoid, "a void is a void")
		}
		if op < 2 {
			vf.Assert(err == nil && got.TransactionID == r.id, "the reported transaction is the stored one")
		}
	}
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
}

// leftOf resolves a transaction id to the hold it stands for, and gives what is left of it.
func (w *vWorld) leftOf(id string) (hold string, left *big.Int, ok bool) {
	rows := w.txns()
	for _, r := range rows {
		if r.id == id && r.status == StatusQueued {
			for _, h := range rows {
				if h.parent == id && h.status == StatusInflight {
					id = h.id
				}
			}
		}
	}
	for _, r := range rows {
		if r.id == id && r.status == StatusInflight {
			c, v, n := w.settled(id)
			if n > 0 {
				return id, vZero(), true
			}
			return id, new(big.Int).Sub(r.amt, vf.Sum(c, v)), true
		}
	}
	return id, vZero(), false
}

// VSettleTogether: two commits or voids of one hold that overlap.
func VSettleTogether() {
	w := vNew()
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	h, err := w.record("alice", "bob", "h", vf.Big("hold", "1", vHuge), func(t *model.Transaction) { t.Inflight = true })
	if err != nil {
		return
	}
	// another hold on the same pair, so that a hold settled twice would still find funds
	if _, err := w.record("alice", "bob", "h2", vf.Big("hold2", "1", vHuge), func(t *model.Transaction) { t.Inflight = true; t.AllowOverdraft = true }); err != nil {
		return
	}
	vf.WaitAll()
	act := func(i int) func() {
		void := vf.Bool("void" + vItoa(i))
		amt := vf.Big("amount"+vItoa(i), "0", vHuge)
		parent := vf.Bool("parent" + vItoa(i))
		return func() {
			switch {
			case parent && void:
				w.l.RunInflightActionByParent(w.ctx, h.TransactionID, InflightActionVoid, vZero(), "a"+vItoa(i))
			case parent:
				w.l.RunInflightActionByParent(w.ctx, h.TransactionID, InflightActionCommit, amt, "a"+vItoa(i))
			case void:
				w.l.VoidInflightTransaction(w.ctx, h.TransactionID)
			default:
				w.l.CommitInflightTransaction(w.ctx, h.TransactionID, amt)
			}
		}
	}
	budget := 1
	if vf.Thorough() {
		budget = 2
	}
	vf.Par(budget, act(0), act(1))
	vf.WaitAll()
	w.within(false)
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
}

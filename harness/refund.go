package blnk

import (
	"math/big"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// refunds lists the records that reverse a transaction.
func (w *vWorld) refunds(id string) []vRow {
	var out []vRow
	for _, r := range w.txns() {
		if r.parent == id && r.ref == id+"_refund" {
			out = append(out, r)
		}
	}
	return out
}

// reversed: every refund is the exact reversal of an applied transaction, and the only one.
func (w *vWorld) reversed() {
	rows := w.txns()
	for _, o := range rows {
		n := 0
		for _, r := range rows {
			if r.parent != o.id || r.src != o.dst || r.dst != o.src {
				continue
			}
			n++
			vf.Assert(o.status == StatusApplied || o.status == StatusVoid, "only applied transactions are refunded")
			vf.Assert(vf.BigEq(r.amt, o.amt), "a refund moves the original amount")
			if o.status == StatusApplied {
				vf.Assert(r.status == StatusApplied, "a refund takes effect")
			}
		}
		vf.Assert(n <= 1, "a transaction is refunded at most once")
	}
}

// VRefund: refunds of transactions in every state, repeated and overlapping.
func VRefund() {
	w := vNew()
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vf.Big("bobs", "0", vHuge), vZero())
	amt := vf.Big("amount", "1", vHuge)
	state := vf.Choose("state", 6)
	var id string
	var err error
	var t *model.Transaction
	switch state {
	case 0, 5:
		t, err = w.record("alice", "bob", "r", amt, nil)
	case 1:
		t, err = w.record("alice", "bob", "r", amt, func(t *model.Transaction) { t.Inflight = true })
	case 2:
		t, err = w.record("alice", "bob", "r", amt, func(t *model.Transaction) { t.Inflight = true })
		if err == nil {
			vf.WaitAll()
			t, err = w.l.CommitInflightTransaction(w.ctx, t.TransactionID, vf.Big("part", "0", vHuge))
		}
	case 3:
		x := &model.Transaction{TransactionID: "rej", Source: "alice", Destination: "bob", Reference: "r", Currency: "USD", PreciseAmount: amt, Precision: 100}
		model.ApplyPrecision(x)
		t, err = w.l.RejectTransaction(w.ctx, x, "no")
	case 4:
		t, _ = w.queue("alice", "bob", "r", amt, nil)
	}
	vf.WaitAll()
	if err != nil {
		return
	}
	id = t.TransactionID
	if state == 5 {
		// the funds are spent before the refund
		if _, err := w.record("bob", "alice", "spend", vf.Big("spent", "1", vHuge), nil); err != nil {
			return
		}
		vf.WaitAll()
	}
	was := len(w.txns())
	before := w.figures(b)
	var errs [2]error
	skip := vf.Bool("skip queue")
	refund := func(i int) func() {
		return func() { _, errs[i] = w.l.RefundTransaction(w.ctx, id, skip) }
	}
	if vf.Bool("together") {
		budget := 1
		if vf.Thorough() {
			budget = 2
		}
		vf.Par(budget, refund(0), refund(1))
	} else {
		refund(0)()
		vf.WaitAll()
		refund(1)()
	}
	vf.WaitAll()
	// what went to the queue is carried out
	for i := 0; i < len(w.st.Tasks); i++ {
		q := w.st.Tasks[i].Queue
		if len(q) > 15 && q[:15] == "new:transaction" && state != 4 {
			w.l.ProcessQueuedTransaction(w.ctx, vTask(w.st.Tasks[i]), false)
			vf.WaitAll()
		}
	}
	now := w.txns()
	applied := state == 0 || state == 2 || state == 5
	if !applied {
		vf.Assert(errs[0] != nil && errs[1] != nil, "what has not been applied cannot be refunded")
		vf.Assert(len(now) == was, "a refused refund leaves no record")
		vf.Assert(vSame(b, before, w.figures(b)), "a refused refund moves nothing")
		return
	}
	vf.Reach("refunded")
	vf.Assert(errs[0] == nil || errs[1] == nil, "an applied transaction can be refunded")
	if skip {
		vf.Assert(errs[0] != nil || errs[1] != nil, "the second refund is refused")
	}
	orig := t.PreciseAmount
	for _, r := range now {
		if r.id == id {
			orig = r.amt
		}
	}
	vf.Assert(vf.BigEq(w.fig("bob", "debit_balance"), vf.Sum(before["bob/debit_balance"], orig)), "the destination gives the amount back once")
	vf.Assert(vf.BigEq(w.fig("alice", "credit_balance"), vf.Sum(before["alice/credit_balance"], orig)), "the source gets the amount back once")
	vf.Assert(vf.BigEq(w.fig("bob", "credit_balance"), before["bob/credit_balance"]), "nothing else moves")
	vf.Assert(vf.BigEq(w.fig("alice", "debit_balance"), before["alice/debit_balance"]), "nothing else moves")
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
}

// VRefundGroup: refunding the transactions under one parent refunds each of them once, whatever the page size.
func VRefundGroup() {
	w := vNew()
	w.conf.Transaction.BatchSize = 1 + vf.Choose("page", 3)
	w.conf.Transaction.MaxWorkers = 1
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	n := 1 + vf.Choose("count", 3)
	var ids []string
	orig := map[string]*big.Int{}
	for i := 0; i < n; i++ {
		amt := vf.Big("amount"+vItoa(i), "1", vHuge)
		t, err := w.record("alice", "bob", "r"+vItoa(i), amt, func(t *model.Transaction) { t.ParentTransaction = "group" })
		vf.WaitAll()
		if err != nil {
			return
		}
		ids = append(ids, t.TransactionID)
		orig[t.TransactionID] = amt
	}
	other, err := w.record("alice", "bob", "other", vf.Big("otherAmount", "1", vHuge), nil)
	if err != nil {
		return
	}
	vf.WaitAll()
	for k := 0; k < 2; k++ {
		_, err = w.l.ProcessTransactionInBatches(w.ctx, "group", vZero(), 1, false, w.l.GetRefundableTransactionsByParentID, w.l.RefundWorkerWithOptions(true))
		vf.WaitAll()
		if k == 0 {
			vf.Assert(err == nil, "a group of applied transactions can be refunded")
		}
		for _, id := range ids {
			vf.Assert(len(w.refunds(id)) == 1, "each transaction of the group is refunded once")
		}
		vf.Assert(len(w.refunds(other.TransactionID)) == 0, "no other transaction is refunded")
	}
	vf.Reach("group")
	w.reversed()
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
}

// VRefundAgain: the refund request of the API, given again and again, for the id of an applied transaction, of a
// committed hold, or of the request that was queued; the paging and the workers overlap.
func VRefundAgain() {
	w := vNew()
	w.conf.Transaction.EnableCoalescing = false
	w.conf.Transaction.BatchSize = 1 + vf.Choose("page", 2)
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	amt := vf.Big("amount", "1", vHuge)
	var id string
	switch vf.Choose("how", 3) {
	case 0:
		t, err := w.record("alice", "bob", "r", amt, nil)
		if err != nil {
			return
		}
		id = t.TransactionID
	case 1:
		t, task := w.queue("alice", "bob", "r", amt, nil)
		if _, err := w.l.ProcessQueuedTransaction(w.ctx, vTask(task), false); err != nil {
			return
		}
		id = t.TransactionID
	case 2:
		t, err := w.record("alice", "bob", "r", amt, func(t *model.Transaction) { t.Inflight = true })
		if err != nil {
			return
		}
		vf.WaitAll()
		if _, err := w.l.CommitInflightTransaction(w.ctx, t.TransactionID, vZero()); err != nil {
			return
		}
		id = t.TransactionID
	}
	vf.WaitAll()
	before := w.figures(b)
	skip := vf.Bool("skip queue")
	together := vf.Bool("overlap")
	n := 2
	if vf.Thorough() {
		n = 3
	}
	if together {
		n = 1
	}
	was := len(w.txns())
	for k := 0; k < n; k++ {
		var err error
		var out []*model.Transaction
		run := func() {
			out, err = w.l.ProcessTransactionInBatches(w.ctx, id, vZero(), 1, false, w.l.GetRefundableTransactionsByParentID, w.l.RefundWorkerWithOptions(skip))
		}
		if together {
			// later pages are read only once the first refund is stored, or can no longer be
			asked := 0
			w.db.Before = func(op, q string) error {
				if op == "query" && strings.Contains(q, "Case 3: Transaction is APPLIED") {
					if asked++; asked > 1 {
						for i := 0; i < 20 && len(w.txns()) == was; i++ {
							time.Sleep(5 * time.Millisecond)
						}
					}
				}
				return nil
			}
		}
		run()
		w.db.Before = nil
		vf.WaitAll()
		for i := 0; i < len(w.st.Tasks); i++ {
			q := w.st.Tasks[i].Queue
			if len(q) > 15 && q[:15] == "new:transaction" {
				w.l.ProcessQueuedTransaction(w.ctx, vTask(w.st.Tasks[i]), false)
				vf.WaitAll()
			}
		}
		vf.Assert(vf.BigEq(w.fig("bob", "debit_balance"), vf.Sum(before["bob/debit_balance"], amt)), "the destination gives the amount back once")
		vf.Assert(vf.BigEq(w.fig("alice", "credit_balance"), vf.Sum(before["alice/credit_balance"], amt)), "the source gets the amount back once")
		vf.Assert(vf.BigEq(w.fig("bob", "credit_balance"), before["bob/credit_balance"]), "nothing else moves")
		vf.Assert(vf.BigEq(w.fig("alice", "debit_balance"), before["alice/debit_balance"]), "nothing else moves")
		if k == 0 {
			vf.Assert(err == nil, "the first refund succeeds")
			vf.Assert(len(out) == 1, "the first refund reports one reversal")
		}
	}
	vf.Reach("again")
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
}

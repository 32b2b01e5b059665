package blnk

import (
	"math/big"
	"strings"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// vPick is the amount of a member; that of the first one is arbitrary.
func vPick(name string, i int) *big.Int {
	if name == "b" && i == 0 {
		return vf.Big("amount", "1", "1000000000000")
	}
	return big.NewInt(int64(100 * (i + 1)))
}

// vGroup records n transactions under one id, as the legs of a split or the members of a bulk request, and returns the id.
func (w *vWorld) vGroup(name string, n int, split, inflight bool) (string, []string) {
	was := len(w.txns())
	id := ""
	if split {
		t := &model.Transaction{Reference: name, Currency: "USD", Precision: 100, SkipQueue: true, Inflight: inflight, AllowOverdraft: true, Source: "alice"}
		sum := vZero()
		for i := 0; i < n; i++ {
			a := vPick(name, i)
			sum = vf.Sum(sum, a)
			t.Destinations = append(t.Destinations, model.Distribution{Identifier: []string{"bob", "carol", "dora", "eric", "fred"}[i], PreciseDistribution: a.String()})
		}
		t.PreciseAmount = sum
		_, err := w.l.QueueTransaction(w.ctx, t)
		vf.Assert(err == nil, "the legs are recorded")
		id = t.TransactionID
	} else {
		var txns []*model.Transaction
		for i := 0; i < n; i++ {
			txns = append(txns, &model.Transaction{Reference: name + vItoa(i), Currency: "USD", Precision: 100, AllowOverdraft: true, Source: "alice", Destination: "bob", PreciseAmount: vPick(name, i)})
		}
		res, err := w.l.CreateBulkTransactions(w.ctx, &model.BulkTransactionRequest{Transactions: txns, Inflight: inflight, SkipQueue: true})
		vf.Assert(err == nil, "the members are recorded")
		id = res.BatchID
	}
	vf.WaitAll()
	var ids []string
	for _, r := range w.txns()[was:] {
		ids = append(ids, r.id)
		vf.Assert(r.parent == id, "a member is recorded under the id of the group")
	}
	vf.Assert(len(ids) == n, "one record per member")
	return id, ids
}

// visits counts what an action did to a transaction.
func (w *vWorld) visits(id string, act int) int {
	n := 0
	for _, r := range w.txns() {
		if r.parent == id {
			n++
		}
	}
	return n
}

func (w *vWorld) act(id string, act int) (int, error) {
	var got []*model.Transaction
	var err error
	switch act {
	case 0:
		got, err = w.l.ProcessTransactionInBatches(w.ctx, id, vZero(), 1, false, w.l.GetRefundableTransactionsByParentID, w.l.RefundWorkerWithOptions(true))
	case 1:
		got, err = w.l.ProcessTransactionInBatches(w.ctx, id, vZero(), 1, false, w.l.GetInflightTransactionsByParentID, w.l.CommitWorker)
	case 2:
		got, err = w.l.ProcessTransactionInBatches(w.ctx, id, vZero(), 1, false, w.l.GetInflightTransactionsByParentID, w.l.VoidWorker)
	case 3:
		_, err = w.l.RunInflightActionByParent(w.ctx, id, InflightActionCommit, vZero(), "act")
	case 4:
		_, err = w.l.RunInflightActionByParent(w.ctx, id, InflightActionVoid, vZero(), "act")
	}
	vf.WaitAll()
	return len(got), err
}

func (w *vWorld) vCrowd(max int) (act, n int, id string, members, others []string) {
	w.conf.Transaction.EnableCoalescing = false
	w.conf.Transaction.MaxWorkers = 1
	b := &vBooks{}
	for i, o := range []string{"alice", "bob", "carol", "dora", "eric", "fred"} {
		if i < 3 || i <= max {
			w.open(b, o, "USD", vZero(), vZero())
		}
	}
	act = vf.Choose("action", 5)
	n = 1 + vf.Choose("members", max)
	w.conf.Transaction.BatchSize = 1 + vf.Choose("page", n+1)
	w.conf.Transaction.MaxQueueSize = []int{1, 10}[vf.Choose("buffer", 2)]
	split := vf.Choose("split", 2) == 1
	_, before := w.vGroup("a", 1, false, act != 0)
	id, members = w.vGroup("b", n, split, act != 0)
	_, after := w.vGroup("c", 1, !split, act != 0)
	w.db.Ties = true
	return act, n, id, members, append(before, after...)
}

// VVisits: refunding, committing and voiding the transactions under one id, in pages of any size.
func VVisits() {
	w := vNew()
	max := 3
	if vf.Thorough() {
		max = 5
	}
	act, n, id, members, others := w.vCrowd(max)
	done := 0
	if vf.Choose("one of them by itself first", 2) == 1 {
		done = 1
		var err error
		switch m := members[vf.Choose("which", n)]; act {
		case 0:
			_, err = w.l.RefundTransaction(w.ctx, m, true)
		case 1, 3:
			_, err = w.l.CommitInflightTransaction(w.ctx, m, vZero())
		default:
			_, err = w.l.VoidInflightTransaction(w.ctx, m)
		}
		vf.WaitAll()
		vf.Assert(err == nil, "a member can be processed by itself")
	}
	got, err := w.act(id, act)
	for _, m := range members {
		vf.Assert(w.visits(m, act) == 1, "every member is processed once")
	}
	for _, o := range others {
		vf.Assert(w.visits(o, act) == 0, "no other transaction is processed")
	}
	if done == 0 {
		vf.Assert(err == nil, "a group that can be processed is processed without failure")
		if act < 3 {
			vf.Assert(got == n, "every member is reported")
		}
		vf.Reach("all")
		return
	}
	if act < 3 {
		vf.Assert(err != nil, "the failure for one member is reported")
		vf.Assert(got == n-1, "the other members are reported")
	}
	vf.Reach("failure")
}

// VVisitFault: the same with one failing database step.
func VVisitFault() {
	w := vNew()
	max := 2
	if vf.Thorough() {
		max = 3
	}
	act, n, id, members, others := w.vCrowd(max)
	left, listing := true, false
	w.db.Before = func(op, q string) error {
		if !left || op == "rollback" {
			return nil
		}
		if vf.Choose("fault", 2) == 0 {
			return nil
		}
		left = false
		listing = strings.Contains(q, "Case 3: Transaction is APPLIED") || strings.Contains(q, "inflight_transactions")
		return errFault
	}
	got, err := w.act(id, act)
	w.db.Before = nil
	count := 0
	for _, m := range members {
		k := w.visits(m, act)
		vf.Assert(k <= 1, "no member is processed twice")
		count += k
	}
	for _, o := range others {
		vf.Assert(w.visits(o, act) == 0, "no other transaction is processed")
	}
	if err == nil {
		vf.Reach("whole")
		vf.Assert(count == n, "an operation reported as done has processed every member")
		vf.Assert(!listing, "a failure to list the group is reported")
		if act < 3 {
			vf.Assert(got == n, "every member is reported")
		}
		return
	}
	vf.Reach("fault")
	vf.Assert(!left, "an operation without a fault does not fail")
}

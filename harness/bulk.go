package blnk

import (
	"math/big"
	"strings"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// drain carries out every transaction task that waits in the queue.
func (w *vWorld) drain() {
	for i := 0; i < len(w.st.Tasks); i++ {
		q := w.st.Tasks[i].Queue
		if len(q) > 15 && q[:15] == "new:transaction" {
			w.l.ProcessQueuedTransaction(w.ctx, vTask(w.st.Tasks[i]), false)
			vf.WaitAll()
		}
	}
}

// unchanged says whether every balance has the funds it had: what is settled nets to the same and the same is held.
func (w *vWorld) unchanged(b *vBooks, was map[string]*big.Int) bool {
	ok := true
	now := w.figures(b)
	for _, id := range b.ids {
		for _, c := range []string{"balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"} {
			ok = vf.And(ok, vf.BigEq(now[id+"/"+c], was[id+"/"+c]))
		}
	}
	return ok
}

type vLeg struct {
	src, dst string
	amt      *big.Int
}

// vBulk is a bulk request and the movements it asks for.
func vBulk(n int, inflight, friendly bool) ([]*model.Transaction, []vLeg) {
	var out []*model.Transaction
	var legs []vLeg
	for i := 0; i < n; i++ {
		amt := vf.Big("amount"+vItoa(i), "1", vHuge)
		t := &model.Transaction{Reference: "r" + vItoa(i), Currency: "USD", PreciseAmount: amt, Precision: 100, AllowOverdraft: friendly || vf.Bool("overdraft"+vItoa(i))}
		switch vf.Choose("shape"+vItoa(i), 3) {
		case 0:
			t.Source, t.Destination = "alice", "bob"
			legs = append(legs, vLeg{"alice", "bob", amt})
		case 1:
			t.Source, t.Destination = "bob", "carol"
			legs = append(legs, vLeg{"bob", "carol", amt})
		case 2:
			// part of it to one and the rest to the other
			part := vf.Big("part"+vItoa(i), "1", vHuge)
			vf.Assume(vf.BigLt(part, amt))
			t.Source = "alice"
			t.Destinations = []model.Distribution{{Identifier: "bob", PreciseDistribution: part.String()}, {Identifier: "carol", Distribution: "left"}}
			legs = append(legs, vLeg{"alice", "bob", part}, vLeg{"alice", "carol", new(big.Int).Sub(amt, part)})
		}
		out = append(out, t)
	}
	if n > 1 && !friendly && vf.Bool("same reference") {
		out[n-1].Reference = out[0].Reference
	}
	return out, legs
}

func (w *vWorld) trio() *vBooks {
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vf.Big("bobs", "0", vHuge), vZero())
	w.open(b, "carol", "USD", vZero(), vZero())
	return b
}

// moved says whether exactly these movements happened since.
func (w *vWorld) moved(b *vBooks, was map[string]*big.Int, legs []vLeg, inflight bool) bool {
	cr, dr := "credit_balance", "debit_balance"
	if inflight {
		cr, dr = "inflight_credit_balance", "inflight_debit_balance"
	}
	want := map[string]*big.Int{}
	for k, v := range was {
		want[k] = v
	}
	for _, g := range legs {
		want[g.dst+"/"+cr] = vf.Sum(want[g.dst+"/"+cr], g.amt)
		want[g.src+"/"+dr] = vf.Sum(want[g.src+"/"+dr], g.amt)
	}
	ok := true
	for _, id := range b.ids {
		for _, c := range []string{"credit_balance", "debit_balance", "inflight_credit_balance", "inflight_debit_balance"} {
			ok = vf.And(ok, vf.BigEq(w.fig(id, c), want[id+"/"+c]))
		}
	}
	return ok
}

func (w *vWorld) bulk(fault bool) {
	w.conf.Transaction.BatchSize = 1 + vf.Choose("page", 2)
	b := w.trio()
	infl, atomic := vf.Bool("inflight"), vf.Bool("atomic")
	n := 2
	if vf.Thorough() {
		n = 3
	}
	if fault {
		vf.Assume(atomic)
	}
	txns, legs := vBulk(n, infl, fault)
	async := !fault && vf.Bool("async")
	before := w.figures(b)
	var f *vFaults
	if fault {
		f = w.faults(1, true)
		on := f.before
		w.db.Before = func(op, q string) error {
			if strings.Contains(q, "Case 3: Transaction is APPLIED") || strings.Contains(q, "inflight_transactions") {
				f.left = 0
			}
			return on(op, q)
		}
	}
	res, err := w.l.CreateBulkTransactions(w.ctx, &model.BulkTransactionRequest{Transactions: txns, Inflight: infl, Atomic: atomic, SkipQueue: true, RunAsync: async})
	vf.WaitAll()
	if f != nil {
		if f.crashed {
			vf.Stop()
		}
		f.stop()
	}
	w.drain()
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
	all := w.moved(b, before, legs, infl)
	if async {
		vf.Assert(err == nil && res.Status == "processing", "a background request is accepted")
		if atomic {
			vf.Assert(vf.Or(all, w.unchanged(b, before)), "an atomic request has all of its effects or none")
		}
		vf.Reach("async")
		return
	}
	if err == nil {
		vf.Reach("all")
		vf.Assert(all, "every transaction of a successful request has taken effect")
		vf.Assert(len(w.txns()) == len(legs), "one record per movement")
		vf.Assert(res.TransactionCount == n, "the result counts the transactions")
		return
	}
	vf.Assert(res.Status == "failed", "the failure is reported")
	if atomic {
		vf.Reach("undone")
		vf.Assert(w.unchanged(b, before), "a failed atomic request leaves every balance with the funds it had")
		return
	}
	vf.Reach("stopped")
	// some of the movements, from the first on, are in place and nothing else
	some := false
	for k := 0; k < len(legs); k++ {
		some = vf.Or(some, w.moved(b, before, legs[:k], infl))
	}
	vf.Assert(some, "the earlier transactions stay in place")
}

// VBulk: bulk requests with any mix of amounts, shapes and failing members.
func VBulk() { vNew().bulk(false) }

// VBulkFault: atomic bulk requests with a failing database step in one member.
func VBulkFault() { vNew().bulk(true) }

// VSplitAtomic: a split marked atomic is carried out in whole or undone.
func VSplitAtomic() {
	w := vNew()
	w.conf.Transaction.BatchSize = 1 + vf.Choose("page", 2)
	b := w.trio()
	infl := vf.Bool("inflight")
	total := vf.Big("amount", "1", vHuge)
	var ds []model.Distribution
	var legs []vLeg
	p0 := vf.Big("part0", "1", vHuge)
	vf.Assume(vf.BigLt(p0, total))
	rest := new(big.Int).Sub(total, p0)
	ds = []model.Distribution{{Identifier: "alice", PreciseDistribution: p0.String()}, {Identifier: "bob", Distribution: "left"}}
	legs = []vLeg{{"alice", "carol", p0}, {"bob", "carol", rest}}
	t := &model.Transaction{Reference: "r", Currency: "USD", PreciseAmount: total, Precision: 100, SkipQueue: true, Atomic: true, Inflight: infl, Sources: ds, Destination: "carol"}
	before := w.figures(b)
	_, err := w.l.QueueTransaction(w.ctx, t)
	vf.WaitAll()
	w.drain()
	vf.Assert(w.agrees(b), "the balances are the replay of the stored transactions")
	if err == nil {
		vf.Reach("all")
		vf.Assert(w.moved(b, before, legs, infl), "every leg has taken effect")
		return
	}
	vf.Reach("undone")
	vf.Assert(w.unchanged(b, before), "a failed split leaves every balance with the funds it had")
}

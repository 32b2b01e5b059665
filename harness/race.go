package blnk

import (
	"math/big"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// withRef lists the final records that carry a reference, or the reference the queue gives it.
func (w *vWorld) withRef(ref string) []vRow {
	var out []vRow
	for _, r := range w.txns() {
		if (r.ref == ref || r.ref == ref+"_q") && r.status != StatusQueued {
			out = append(out, r)
		}
	}
	return out
}

// enter gives the request of one way to record a transaction under a reference.
func (w *vWorld) enter(way int, i int, ref string, amt *big.Int) func() error {
	n := vItoa(i)
	switch way {
	case 0, 1:
		return func() error {
			_, err := w.record("alice", "bob", ref, amt, func(t *model.Transaction) { t.Inflight = way == 1 })
			return err
		}
	case 2:
		return func() error {
			t := &model.Transaction{TransactionID: "rej" + n, Source: "alice", Destination: "bob", Reference: ref, Currency: "USD", PreciseAmount: amt, Precision: 100}
			model.ApplyPrecision(t)
			_, err := w.l.RejectTransaction(w.ctx, t, "no")
			return err
		}
	default:
		// a task as the queue delivers it
		_, task := w.queue("alice", "bob", ref, amt, nil)
		if task.Payload == nil {
			return nil
		}
		return func() error {
			_, err := w.l.ProcessQueuedTransaction(w.ctx, vTask(task), false)
			return err
		}
	}
}

// VSameRef: two recordings, one after the other or overlapping, with the same or with different references.
func VSameRef() {
	w := vNew()
	b := &vBooks{}
	fund := vf.Big("fund", "0", vHuge)
	w.open(b, "alice", "USD", fund, vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	same := vf.Bool("same")
	refs := []string{"r1", "r2"}
	if same {
		refs[1] = "r1"
	}
	together := vf.Bool("together")
	var errs [2]error
	var fs [2]func() error
	var amts [2]*big.Int
	for i := 0; i < 2; i++ {
		amts[i] = vf.Big("amount"+vItoa(i), "1", vHuge)
		way := vf.Choose("way"+vItoa(i), 4)
		if !together && i == 1 {
			errs[0] = fs[0]()
			vf.WaitAll()
		}
		fs[i] = w.enter(way, i, refs[i], amts[i])
		if fs[i] == nil {
			return
		}
	}
	if together {
		budget := 1
		if vf.Thorough() {
			budget = 2
		}
		vf.Par(budget, func() { errs[0] = fs[0]() }, func() { errs[1] = fs[1]() })
	} else {
		errs[1] = fs[1]()
	}
	vf.WaitAll()
	ok := 0
	for i := range errs {
		rows := w.withRef(refs[i])
		vf.Assert(len(rows) <= 1, "a reference is recorded at most once")
		if errs[i] == nil {
			ok++
			vf.Assert(len(rows) == 1, "a success is recorded")
		}
	}
	if same {
		vf.Assert(ok <= 1, "the second use of a reference is refused")
		if ok == 1 && (errs[0] != nil || errs[1] != nil) {
			vf.Reach("refused")
		}
	} else {
		vf.Reach("different")
		for i := range errs {
			vf.Assert(errs[i] == nil || !IsDuplicateReferenceError(errs[i]), "an unused reference is never refused as a duplicate")
		}
	}
	vf.Assert(w.agrees(b), "funds move once per recorded transaction")
}

// VLanes: the same reference given twice to the queue, and a batch that holds a reference twice.
func VRefQueued() {
	w := vNew()
	w.conf.Transaction.EnableCoalescing = vf.Bool("coalescing")
	w.conf.Transaction.DisableBatchReferenceCheck = vf.Bool("nocheck")
	b := &vBooks{}
	fund := vf.Big("fund", "0", vHuge)
	w.open(b, "alice", "USD", fund, vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	refs := []string{"r1", "r1", "r2"}
	for i, ref := range refs {
		w.queue("alice", "bob", ref, vf.Big("amount"+vItoa(i), "1", vHuge), nil)
	}
	if vf.Bool("direct") {
		w.record("alice", "bob", []string{"r1", "r2"}[vf.Choose("which", 2)], vf.Big("other", "1", vHuge), nil)
	}
	for i := 0; i < len(w.st.Tasks); i++ {
		if len(w.st.Tasks[i].Queue) < 15 || w.st.Tasks[i].Queue[:15] != "new:transaction" {
			continue
		}
		t := vTask(w.st.Tasks[i])
		handled, err := w.l.TryRecordQueuedTransactionBatch(w.ctx, t)
		if handled {
			vf.Reach("batch")
		} else {
			_, err = w.l.ProcessQueuedTransaction(w.ctx, t, false)
			if err == nil {
				vf.Reach("single")
			}
		}
		vf.WaitAll()
		_ = err
		for _, ref := range refs {
			vf.Assert(len(w.withRef(ref)) <= 1, "a reference is recorded at most once")
		}
	}
	vf.Assert(w.agrees(b), "funds move once per recorded transaction")
}

// VLostUpdate: writers that read the balances and write them back at any time.
func VLostUpdate() {
	w := vNew()
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	w.open(b, "carol", "USD", vZero(), vZero())
	start := vf.Int64("version", 1, 1<<62)
	for _, id := range b.ids {
		w.db.Put("balances", "balance_id", id, "version", start)
	}
	n := 2
	if vf.Thorough() {
		n = 2 + vf.Choose("writers", 2)
	}
	type job struct {
		src, dst string
		amt      *big.Int
		err      error
		kind     int
	}
	jobs := make([]job, n)
	var fs []func()
	for i := range jobs {
		j := &jobs[i]
		j.amt = vf.Big("amount"+vItoa(i), "1", vHuge)
		p := [][2]string{{"alice", "bob"}, {"bob", "alice"}, {"carol", "bob"}}[vf.Choose("pair"+vItoa(i), 3)]
		j.src, j.dst = p[0], p[1]
		j.kind = vf.Choose("kind"+vItoa(i), 3)
		t := &model.Transaction{TransactionID: "t" + vItoa(i), Source: j.src, Destination: j.dst, Reference: "r" + vItoa(i), Currency: "USD", PreciseAmount: j.amt, Precision: 100, AllowOverdraft: true, Status: StatusApplied}
		model.ApplyPrecision(t)
		fs = append(fs, func() {
			src, err := w.ds.GetBalanceByIDLite(j.src)
			if err != nil {
				j.err = err
				return
			}
			dst, err := w.ds.GetBalanceByIDLite(j.dst)
			if err != nil {
				j.err = err
				return
			}
			if j.err = model.UpdateBalances(t, src, dst); j.err != nil {
				return
			}
			switch j.kind {
			case 0:
				_, j.err = w.ds.RecordTransactionWithBalancesAndOutbox(w.ctx, t, src, dst, nil)
			case 1:
				_, j.err = w.ds.RecordTransactionsWithBalanceSetAndOutboxes(w.ctx, []*model.Transaction{t}, []*model.Balance{src, dst}, nil)
			case 2:
				if j.err = w.ds.UpdateBalances(w.ctx, src, dst); j.err == nil {
					// nothing else is recorded by this writer
					w.db.Seed("transactions", "transaction_id", t.TransactionID, "source", j.src, "destination", j.dst, "status", StatusApplied, "precise_amount", j.amt, "reference", t.Reference)
				}
			}
		})
	}
	budget := 2
	if n > 2 {
		budget = 1
	}
	vf.Par(budget, fs...)
	vf.WaitAll()
	wrote := map[string]int{}
	done := 0
	for i := range jobs {
		j := &jobs[i]
		if j.err == nil {
			done++
			wrote[j.src]++
			wrote[j.dst]++
		} else {
			vf.Reach("conflict")
		}
	}
	vf.Assert(done >= 1, "one writer always succeeds")
	for _, id := range b.ids {
		v := w.db.Get("balances", "balance_id", id, "version").(int64)
		vf.Assert(v == start+int64(wrote[id]), "the version counts the successful writes")
	}
	vf.Assert(len(w.txns()) == done, "a failed write records nothing")
	vf.Assert(w.agrees(b), "no update is lost and no failed write leaves a trace")
}

// VRace: whole requests that overlap while locks are lost at once.
func VRace() {
	w := vNew()
	b := &vBooks{}
	w.open(b, "alice", "USD", vf.Big("fund", "0", vHuge), vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	if vf.Bool("locks lost") {
		w.st.Tick = func() { w.st.Now += 3600 * 1000 }
	}
	var errs [2]error
	var fs []func()
	for i := 0; i < 2; i++ {
		i := i
		amt := vf.Big("amount"+vItoa(i), "1", vHuge)
		back := vf.Bool("back" + vItoa(i))
		infl := vf.Bool("inflight" + vItoa(i))
		over := back
		fs = append(fs, func() {
			src, dst := "alice", "bob"
			if back {
				src, dst = "bob", "alice"
			}
			_, errs[i] = w.record(src, dst, "r"+vItoa(i), amt, func(t *model.Transaction) { t.Inflight, t.AllowOverdraft = infl, over })
		})
	}
	w.db.OnCommit = func() {
		vf.Assert(w.agrees(b), "every commit leaves balances that are the replay of the transactions")
	}
	vf.Par(1, fs...)
	vf.WaitAll()
	done := 0
	for _, err := range errs {
		if err == nil {
			done++
		}
	}
	vf.Assert(len(w.txns()) == done, "as many records as successes")
	vf.Assert(w.agrees(b), "no update is lost")
	rep := w.replay(b)
	x := rep["alice"]
	_ = x
}

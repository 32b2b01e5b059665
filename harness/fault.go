package blnk

import (
	"encoding/json"
	"errors"
	"math/big"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfredis"
	"github.com/blnkfinance/blnk/model"
)

var errFault = errors.New("the server closed the connection")

// vFaults is one fault at one database step: a step that fails, a step whose outcome is lost, or the death of the process
// before or after a step.
type vFaults struct {
	w       *vWorld
	fired   bool
	crashed bool
	vague   bool // the outcome of a commit was lost
	pending int
	left    int
	reads   bool
}

// faults lets at most n faults happen from here on; reads says whether reads fail too.
func (w *vWorld) faults(n int, reads bool) *vFaults {
	f := &vFaults{w: w, left: n, reads: reads}
	w.db.Before = f.before
	w.db.After = f.after
	return f
}

func (f *vFaults) stop() {
	f.w.db.Before, f.w.db.After = nil, nil
	f.pending = 0
}

func (f *vFaults) before(op, q string) error {
	f.pending = 0
	if f.left == 0 {
		return nil
	}
	m := 0
	switch op {
	case "query":
		if !f.reads {
			return nil
		}
		m = []int{0, 1, 3}[vf.Choose("fault", 3)]
	case "begin", "rollback", "prepare", "ping":
		m = []int{0, 1, 3}[vf.Choose("fault", 3)]
	default:
		m = vf.Choose("fault", 5)
	}
	switch m {
	case 1:
		f.hit()
		return errFault
	case 3:
		f.crash()
		return errFault
	}
	f.pending = m
	return nil
}

func (f *vFaults) after(op, q string) error {
	m := f.pending
	f.pending = 0
	if m == 0 {
		return nil
	}
	if op == "commit" || f.w.db.Idle() {
		f.vague = true
	}
	if m == 4 {
		f.crash()
	} else {
		f.hit()
	}
	return errFault
}

func (f *vFaults) hit() {
	f.left--
	f.fired = true
	vf.Reach("fault")
}

func (f *vFaults) crash() {
	f.hit()
	f.left = 0
	f.crashed = true
	vf.Reach("crash")
	f.w.db.Crash()
	f.w.db.Dead, f.w.st.Dead = true, true
}

// recover starts a new process on what is durable; locks of the dead one have expired.
func (f *vFaults) recover() {
	vf.WaitAll()
	f.stop()
	f.w.db.Crash()
	f.w.db.Dead, f.w.st.Dead = false, false
	if f.crashed {
		f.w.st.Now += 3600 * 1000
	}
	f.w.restart()
}

// track makes a balance follow where its funds come from.
func (w *vWorld) track(id, strategy string) {
	w.db.Put("balances", "balance_id", id, "track_fund_lineage", true)
	w.db.Put("balances", "balance_id", id, "allocation_strategy", strategy)
}

// outbox counts the follow-up work items of a transaction.
func (w *vWorld) outbox(txn string) int {
	t := w.db.Tables["lineage_outbox"]
	id, ty := t.Find("transaction_id"), t.Find("lineage_type")
	n := 0
	for _, r := range w.db.Rows("lineage_outbox") {
		k := vTxt(r[ty])
		if vTxt(r[id]) == txn && (k == "credit" || k == "debit" || k == "both") {
			n++
		}
	}
	return n
}

// queue asks for a transaction to be queued, as the API does, and gives the task made for it.
func (w *vWorld) queue(src, dst, ref string, amt *big.Int, set func(t *model.Transaction)) (*model.Transaction, vfredis.Task) {
	t := &model.Transaction{Source: src, Destination: dst, Reference: ref, Currency: "USD", PreciseAmount: amt, Precision: 100}
	if set != nil {
		set(t)
	}
	was := len(w.st.Tasks)
	out, err := w.l.QueueTransaction(w.ctx, t)
	vf.WaitAll()
	if err != nil {
		vf.Debug("queue", err)
		vf.Stop()
	}
	var task vfredis.Task
	for _, k := range w.st.Tasks[was:] {
		if k.Type == k.Queue && len(k.Type) > 4 && k.Type[:15] == "new:transaction" {
			task = k
		}
	}
	return out, task
}

func vTask(t vfredis.Task) *model.Transaction {
	var x model.Transaction
	if err := json.Unmarshal(t.Payload, &x); err != nil {
		panic(err)
	}
	return &x
}

// VFault: with one fault at any database step, a request has all of its effects or none.
func VFault() {
	w := vNew()
	b := &vBooks{}
	fund := vf.Big("fund", "0", vHuge)
	w.open(b, "alice", "USD", fund, vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	w.track("alice", "FIFO")
	op := vf.Choose("op", 6)
	amt := vf.Big("amount", "1", vHuge)
	part := vf.Big("part", "1", vHuge)
	var first *model.Transaction
	if op >= 2 && op <= 4 {
		var err error
		first, err = w.record("alice", "bob", "first", amt, func(t *model.Transaction) { t.Inflight = op != 4 })
		vf.WaitAll()
		if err != nil {
			return
		}
	}
	before := w.figures(b)
	was := len(w.txns())
	f := w.faults(1, true)
	var err error
	switch op {
	case 0, 1:
		_, err = w.record("alice", "bob", "ref", amt, func(t *model.Transaction) { t.Inflight = op == 1 })
	case 2:
		_, err = w.l.CommitInflightTransaction(w.ctx, first.TransactionID, part)
	case 3:
		_, err = w.l.VoidInflightTransaction(w.ctx, first.TransactionID)
	case 4:
		_, err = w.l.RefundTransaction(w.ctx, first.TransactionID, true)
	case 5:
		t := &model.Transaction{TransactionID: "rej", Source: "alice", Destination: "bob", Reference: "ref", Currency: "USD", PreciseAmount: amt, Precision: 100}
		model.ApplyPrecision(t)
		_, err = w.l.RejectTransaction(w.ctx, t, "no")
	}
	f.recover()
	rows := w.txns()
	vf.Assert(w.agrees(b), "balances and transactions are written together")
	vf.Assert(len(rows) <= was+1, "one record at most")
	if len(rows) > was {
		vf.Reach("done")
		r := rows[len(rows)-1]
		want := 0
		if op <= 1 {
			want = 1
		}
		vf.Assert(w.outbox(r.id) == want, "the work item is written together with the transaction")
	} else {
		vf.Assert(vSame(b, before, w.figures(b)), "nothing moved")
		for _, r := range w.db.Rows("lineage_outbox") {
			id := vTxt(r[w.db.Tables["lineage_outbox"].Find("transaction_id")])
			vf.Assert(first != nil && id == first.TransactionID, "no work item without its transaction")
		}
	}
	if err == nil {
		vf.Assert(len(rows) == was+1, "a reported success is durable")
	} else if !f.vague {
		vf.Assert(len(rows) == was, "a reported failure leaves nothing behind")
	}
}

// VBatchFault: with one fault at any database step, a coalesced batch takes effect as a whole or not at all.
func VBatchFault() {
	w := vNew()
	w.conf.Transaction.EnableCoalescing = true
	b := &vBooks{}
	fund := vf.Big("fund", "0", vHuge)
	w.open(b, "alice", "USD", fund, vZero())
	w.open(b, "bob", "USD", vZero(), vZero())
	if vf.Bool("tracked") {
		w.track("alice", "FIFO")
	}
	infl := vf.Bool("inflight")
	n := 2
	if vf.Thorough() {
		n = 3
	}
	var lead *model.Transaction
	for i := 0; i < n; i++ {
		_, task := w.queue("alice", "bob", "ref"+vItoa(i), vf.Big("amount"+vItoa(i), "1", vHuge), func(t *model.Transaction) { t.Inflight = infl })
		if i == 0 {
			lead = vTask(task)
		}
	}
	was := len(w.txns())
	f := w.faults(1, true)
	handled, _ := w.l.TryRecordQueuedTransactionBatch(w.ctx, lead)
	f.recover()
	rows := w.txns()
	vf.Assert(w.agrees(b), "balances and transactions are written together")
	vf.Assert(len(rows) == was || len(rows) == was+n, "the batch is recorded as a whole")
	if handled {
		vf.Assert(len(rows) == was+n, "a batch reported as done is durable")
	}
	if len(rows) > was {
		vf.Reach("batch")
		tracked := w.db.Get("balances", "balance_id", "alice", "track_fund_lineage") == true
		for _, r := range rows[was:] {
			if tracked && !infl {
				vf.Assert(w.outbox(r.id) == 1, "every member has its work item")
			}
		}
	} else {
		vf.Assert(len(w.db.Rows("lineage_outbox")) == 0, "no work item without its transaction")
	}
}

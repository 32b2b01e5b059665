package blnk

import (
	"math/big"
	"strings"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// still runs a preview and checks that it wrote nothing anywhere.
func (w *vWorld) still(f func()) {
	vf.WaitAll()
	w.db.Log, w.db.LogOn = nil, true
	tasks, keys := len(w.st.Tasks), len(w.st.KV)
	f()
	vf.WaitAll()
	w.db.LogOn = false
	for _, q := range w.db.Log {
		i := strings.Index(q, " ")
		op, text := q[:i], strings.ToUpper(strings.TrimSpace(q[i:]))
		vf.Assert(op != "exec" && op != "copy", "a preview writes nothing to the database")
		if op == "query" {
			vf.Assert(strings.HasPrefix(text, "SELECT") || strings.HasPrefix(text, "WITH") && !strings.Contains(text, "INSERT ") && !strings.Contains(text, "UPDATE ") && !strings.Contains(text, "DELETE "), "a preview only reads")
		}
	}
	w.db.Log = nil
	vf.Assert(len(w.st.Tasks) == tasks, "a preview queues nothing")
	vf.Assert(len(w.st.KV) == keys, "a preview leaves nothing behind")
}

func vParse(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		vf.Assert(false, "figures are numbers")
		return vZero()
	}
	return x
}

// stored gives the id of the stored balance a projection speaks of.
func (w *vWorld) stored(p model.BalanceProjection) string {
	if !strings.HasPrefix(p.BalanceID, "@") {
		return p.BalanceID
	}
	t := w.db.Tables["balances"]
	for _, r := range w.db.Rows("balances") {
		if vTxt(r[t.Find("indicator")]) == p.BalanceID && vTxt(r[t.Find("currency")]) == p.Currency {
			return vTxt(r[t.Find("balance_id")])
		}
	}
	return ""
}

// foretold says whether the stored balances are the projected ones.
func (w *vWorld) foretold(ps []model.BalanceProjection) bool {
	ok := true
	for _, p := range ps {
		id := w.stored(p)
		if id == "" {
			return false
		}
		ok = vf.And(ok, vf.And(vf.BigEq(vParse(p.ResultingBalance), w.fig(id, "balance")), vf.And(
			vf.BigEq(vParse(p.ResultingCreditBalance), w.fig(id, "credit_balance")),
			vf.BigEq(vParse(p.ResultingDebitBalance), w.fig(id, "debit_balance")))))
		ok = vf.And(ok, vf.And(
			vf.BigEq(vParse(p.ResultingInflightCreditBalance), w.fig(id, "inflight_credit_balance")),
			vf.BigEq(vParse(p.ResultingInflightDebitBalance), w.fig(id, "inflight_debit_balance"))))
	}
	return ok
}

// now says whether the present balances are reported as they are.
func (w *vWorld) present(ps []model.BalanceProjection) bool {
	ok := true
	for _, p := range ps {
		id := w.stored(p)
		if id == "" {
			ok = ok && p.Virtual && p.CurrentBalance == "0" && p.CurrentCreditBalance == "0" && p.CurrentDebitBalance == "0"
			continue
		}
		ok = vf.And(ok, vf.And(vf.BigEq(vParse(p.CurrentBalance), w.fig(id, "balance")), vf.And(
			vf.BigEq(vParse(p.CurrentCreditBalance), w.fig(id, "credit_balance")),
			vf.BigEq(vParse(p.CurrentDebitBalance), w.fig(id, "debit_balance")))))
	}
	return ok
}

// vForetell previews a request, carries it out, and compares.
func (w *vWorld) vForetell(see func() (bool, []model.BalanceProjection, error), do func() error) {
	var would bool
	var ps []model.BalanceProjection
	var perr error
	w.still(func() { would, ps, perr = see() })
	if perr != nil {
		would = false
		vf.Debug("preview", perr)
	} else {
		vf.Assert(w.present(ps), "the preview reports the balances as they are")
	}
	err := do()
	vf.WaitAll()
	vf.Debug("real", err)
	if err != nil {
		vf.Reach("refused")
		vf.Assert(!would, "what is refused was previewed as refused")
		return
	}
	vf.Reach("done")
	vf.Assert(would, "what succeeds was previewed as succeeding")
	vf.Assert(w.foretold(ps), "the balances are the ones previewed")
}

// stage has an account with funds, another with its own, one known by an indicator, and something waiting in the queue.
func (w *vWorld) stage(waiting bool) *vBooks {
	b := w.trio()
	w.db.Put("balances", "balance_id", "carol", "indicator", "@carol")
	if waiting {
		w.queue("alice", "bob", "waiting", vf.Big("waiting", "1", vHuge), nil)
	}
	return b
}

// VPreview: one transaction, of any kind, previewed and then carried out at once or through the queue.
func VPreview() {
	w := vNew()
	w.conf.Transaction.EnableCoalescing = false
	queued := vf.Bool("queued checks")
	w.conf.Transaction.EnableQueuedChecks = queued
	w.stage(queued && vf.Bool("another waits"))
	name := []string{"alice", "@carol", "@new", "nobody"}
	t := model.Transaction{Reference: "r", Currency: "USD", PreciseAmount: vf.Big("amount", "1", vHuge), Precision: 100}
	src := vf.Choose("source", 4)
	t.Source = name[src]
	t.Destination = []string{"bob", "@carol", "@other", "alice", "nobody"}[vf.Choose("destination", 5)]
	switch vf.Choose("overdraft", 3) {
	case 1:
		t.AllowOverdraft = true
	case 2:
		t.AllowOverdraft, t.OverdraftLimit = true, 5
	}
	t.Inflight = vf.Bool("inflight")
	if vf.Bool("used reference") {
		if _, err := w.record("bob", "alice", "r", big.NewInt(7), func(t *model.Transaction) { t.AllowOverdraft = true }); err != nil {
			vf.Stop()
		}
	}
	t.SkipQueue = vf.Bool("at once")
	p, real := t, t
	w.vForetell(func() (bool, []model.BalanceProjection, error) {
		x, err := w.l.PreviewTransaction(w.ctx, &p)
		if err != nil {
			return false, nil, err
		}
		return x.WouldApply, x.Balances, nil
	}, func() error {
		if real.SkipQueue {
			_, err := w.l.QueueTransaction(w.ctx, &real)
			return err
		}
		was := len(w.st.Tasks)
		if _, err := w.l.QueueTransaction(w.ctx, &real); err != nil {
			return err
		}
		vf.WaitAll()
		for _, k := range w.st.Tasks[was:] {
			if len(k.Queue) > 15 && k.Queue[:15] == "new:transaction" {
				_, err := w.l.ProcessQueuedTransaction(w.ctx, vTask(k), false)
				return err
			}
		}
		return errFault
	})
}

// vShare is one distribution of a split: a part of its own, a percentage or the rest.
func vShare(i int, id string) model.Distribution {
	d := model.Distribution{Identifier: id}
	switch vf.Choose("share"+vItoa(i), 3) {
	case 0:
		d.Distribution = "left"
	case 1:
		d.PreciseDistribution = vf.Big("part"+vItoa(i), "1", vHuge).String()
	case 2:
		d.Distribution = "50%"
	}
	return d
}

// vSplitOf is a split of one balance to two or of two to one.
func (w *vWorld) vSplitOf(ref string, amt *big.Int, simple bool) model.Transaction {
	t := model.Transaction{Reference: ref, Currency: "USD", PreciseAmount: amt, Precision: 100, SkipQueue: true}
	other := []string{"bob", "@carol", "carol", "@new"}[vf.Choose("other", 4)]
	var a, b model.Distribution
	if simple {
		a = model.Distribution{Identifier: "alice", PreciseDistribution: vf.Big("part0", "1", vHuge).String()}
		b = model.Distribution{Identifier: other, Distribution: "left"}
	} else {
		a, b = vShare(0, "alice"), vShare(1, other)
	}
	if vf.Bool("many sources") {
		t.Sources, t.Destination = []model.Distribution{a, b}, "@carol"
	} else {
		t.Source = "bob"
		a.Identifier = "carol"
		t.Destinations = []model.Distribution{a, b}
	}
	t.AllowOverdraft = vf.Bool("overdraft")
	return t
}

// VPreviewSplit: a transaction over several balances.
func VPreviewSplit() {
	w := vNew()
	w.stage(false)
	t := w.vSplitOf("r", vf.Big("amount", "1", vHuge), false)
	t.Inflight = vf.Bool("inflight")
	if k := vf.Choose("used reference", 3); k > 0 {
		if _, err := w.record("bob", "alice", []string{"", "r", "r-2"}[k], big.NewInt(7), func(t *model.Transaction) { t.AllowOverdraft = true }); err != nil {
			vf.Stop()
		}
	}
	p, real := t, t
	w.vForetell(func() (bool, []model.BalanceProjection, error) {
		x, err := w.l.PreviewTransaction(w.ctx, &p)
		if err != nil {
			return false, nil, err
		}
		return x.WouldApply, x.Balances, nil
	}, func() error {
		_, err := w.l.QueueTransaction(w.ctx, &real)
		return err
	})
}

// VPreviewBulk: a bulk request carried out at once.
func VPreviewBulk() { vPreviewBulk(false) }

// VPreviewBulkSplit: one with a split in it.
func VPreviewBulkSplit() { vPreviewBulk(true) }

func vPreviewBulk(withSplit bool) {
	w := vNew()
	w.stage(false)
	req := func() *model.BulkTransactionRequest { return nil }
	amt0, amt1 := vf.Big("amount0", "1", vHuge), vf.Big("amount1", "1", vHuge)
	over := vf.Bool("overdraft0")
	shape := 3
	if !withSplit {
		shape = vf.Choose("shape", 3)
	}
	infl := vf.Bool("inflight")
	atomic := infl
	if !withSplit {
		atomic = vf.Bool("atomic")
	}
	ref, used := []string{"q", "r", "r-1"}[vf.Choose("reference", 3)], false
	if ref == "q" {
		used = vf.Bool("used reference")
	}
	var split model.Transaction
	if shape == 3 {
		split = w.vSplitOf("r", amt1, !vf.Thorough())
	}
	if used {
		if _, err := w.record("bob", "alice", "r", big.NewInt(7), func(t *model.Transaction) { t.AllowOverdraft = true }); err != nil {
			vf.Stop()
		}
	}
	req = func() *model.BulkTransactionRequest {
		one := &model.Transaction{Source: "alice", Destination: "bob", Reference: ref, Currency: "USD", PreciseAmount: new(big.Int).Set(amt0), Precision: 100, AllowOverdraft: over}
		two := &model.Transaction{Source: "bob", Destination: "@carol", Reference: "r", Currency: "USD", PreciseAmount: new(big.Int).Set(amt1), Precision: 100}
		switch shape {
		case 1:
			two.Source, two.Destination = "alice", "@new"
		case 2:
			one.Destination, two.Source = "@carol", "carol"
			two.Destination = "bob"
		case 3:
			s := split
			two = &s
		}
		return &model.BulkTransactionRequest{Transactions: []*model.Transaction{one, two}, Inflight: infl, Atomic: atomic, SkipQueue: true}
	}
	w.vForetell(func() (bool, []model.BalanceProjection, error) {
		x, err := w.l.PreviewBulkTransactions(w.ctx, req())
		if err != nil {
			return false, nil, err
		}
		return x.WouldApply, x.Balances, nil
	}, func() error {
		_, err := w.l.CreateBulkTransactions(w.ctx, req())
		return err
	})
}

// held makes a hold (or a group of two) and settles some of it.
func (w *vWorld) vHeld(group bool) string {
	amt := vf.Big("amount", "2", vHuge)
	t := &model.Transaction{Source: "alice", Destination: "bob", Reference: "h", Currency: "USD", PreciseAmount: amt, Precision: 100, SkipQueue: true, Inflight: vf.Bool("inflight")}
	if group {
		t.Destination = ""
		t.Destinations = []model.Distribution{{Identifier: "bob", PreciseDistribution: vf.Big("part", "1", vHuge).String()}, {Identifier: "@carol", Distribution: "left"}}
	}
	t, err := w.l.QueueTransaction(w.ctx, t)
	vf.WaitAll()
	if err != nil {
		vf.Stop()
	}
	return t.TransactionID
}

// VPreviewSettle: a commit or a void, of one hold or a group, of what was settled before or not, or of what is no hold.
func VPreviewSettle() {
	w := vNew()
	w.conf.Transaction.BatchSize = 10
	w.stage(false)
	var id string
	group := false
	switch vf.Choose("kind", 4) {
	case 0:
		id = w.vHeld(false)
	case 1:
		group = true
		id = w.vHeld(true)
	case 2, 3:
		t, task := w.queue("alice", "bob", "h", vf.Big("amount", "1", vHuge), func(t *model.Transaction) { t.Inflight = true })
		id = t.TransactionID
		if vf.Bool("taken") {
			w.l.ProcessQueuedTransaction(w.ctx, vTask(task), false)
			vf.WaitAll()
		}
	}
	rows := w.txns()
	target := id
	if group {
		target = rows[len(rows)-1].id
	}
	switch vf.Choose("before", 3) {
	case 1:
		w.l.CommitInflightTransaction(w.ctx, target, vf.Big("first", "0", vHuge))
	case 2:
		w.l.VoidInflightTransaction(w.ctx, target)
	}
	vf.WaitAll()
	amt := vf.Big("asked", "0", vHuge)
	act := InflightActionCommit
	if vf.Bool("void") {
		act = InflightActionVoid
	}
	if vf.Bool("unknown") {
		id = "nothing"
	}
	w.vForetell(func() (bool, []model.BalanceProjection, error) {
		x, err := w.l.PreviewInflightAction(w.ctx, id, act, new(big.Int).Set(amt))
		if err != nil {
			return false, nil, err
		}
		return x.WouldApply, x.Balances, nil
	}, func() error {
		worker := w.l.CommitWorker
		if act == InflightActionVoid {
			worker = w.l.VoidWorker
		}
		done, err := w.l.ProcessTransactionInBatches(w.ctx, id, amt, 1, false, w.l.GetInflightTransactionsByParentID, worker)
		if err == nil && len(done) == 0 {
			err = errFault
		}
		return err
	})
}

// VPreviewRefund: a refund, of one transaction or of a group, refunded before or not, or of what cannot be refunded.
func VPreviewRefund() {
	w := vNew()
	w.conf.Transaction.BatchSize = 10
	w.stage(false)
	var id string
	group := vf.Bool("group")
	id = w.vHeld(group)
	rows := w.txns()
	target := id
	if group {
		target = rows[len(rows)-1].id
	}
	switch vf.Choose("before", 4) {
	case 1:
		w.l.CommitInflightTransaction(w.ctx, target, vf.Big("first", "0", vHuge))
	case 2:
		w.l.VoidInflightTransaction(w.ctx, target)
	case 3:
		w.l.RefundTransaction(w.ctx, target, true)
	}
	vf.WaitAll()
	if vf.Bool("the part") {
		rows = w.txns()
		id = rows[len(rows)-1].id
	}
	w.vForetell(func() (bool, []model.BalanceProjection, error) {
		x, err := w.l.PreviewRefund(w.ctx, id)
		if err != nil {
			return false, nil, err
		}
		return x.WouldApply, x.Balances, nil
	}, func() error {
		done, err := w.l.ProcessTransactionInBatches(w.ctx, id, vZero(), 1, false, w.l.GetRefundableTransactionsByParentID, w.l.RefundWorkerWithRefundOptions(RefundOptions{SkipQueue: true}))
		if err == nil && len(done) == 0 {
			err = errFault
		}
		return err
	})
}

package main

import (
	"math/big"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// vTexts is every stored column of a transaction as text.
func vStored(w *blnk.VWorld) map[string]string {
	out := map[string]string{}
	for _, r := range w.Txns() {
		s := ""
		for _, v := range r.Vals() {
			switch x := v.(type) {
			case string:
				s += x
			case time.Time:
				s += x.UTC().Format(time.RFC3339Nano)
			case []byte:
				s += string(x)
			}
			s += "|"
		}
		out[r.ID()] = s
	}
	return out
}

func vAttempts(w *blnk.VWorld, id string) int {
	t, err := w.Svc().GetTransaction(w.Ctx(), id)
	if err != nil {
		return -1
	}
	switch n := t.MetaData["recovery_attempts"].(type) {
	case float64:
		return int(n)
	case int:
		return n
	}
	return 0
}

// vRecover lets n queued transactions be swept again and again.
func vRecover(n, sweeps int, fault bool) {
	w := blnk.VNew()
	conf := w.Conf()
	conf.Transaction.EnableCoalescing = n > 1
	conf.Transaction.BatchSize = 10
	conf.Queue.MaxRetryAttempts = 1
	b := &blnk.VBooks{}
	fund := vf.Big("fund", "0", vHuge)
	w.Open(b, "alice", fund, new(big.Int))
	w.Open(b, "bob", new(big.Int), new(big.Int))
	w.Open(b, "carol", vHugeInt(), new(big.Int))
	threshold := 2 * time.Minute
	if vf.Bool("one hour") {
		threshold = time.Hour
	}
	asked := threshold
	if threshold == 2*time.Minute && vf.Bool("asked for less") {
		asked = time.Second
	}
	// what must be left alone
	if _, err := w.Record("carol", "bob", "plain", big.NewInt(5), nil); err != nil {
		vf.Stop()
	}
	w.Queue("carol", "bob", "later", big.NewInt(5), func(t *model.Transaction) { t.ScheduledFor = time.Now().Add(1000 * time.Hour) })
	for _, r := range w.Txns() {
		w.DB().Put("transactions", "transaction_id", r.ID(), "created_at", time.Now().UTC().Add(-100*time.Hour))
	}
	inst := &blnkInstance{blnk: w.Svc(), cnf: conf}
	infl := vf.Bool("inflight")
	jobs := make([]*vJob, n)
	old := make([]bool, n)
	delivered := make([]bool, n)
	for i := range jobs {
		s := string(rune('0' + i))
		amt := vf.Big("amount"+s, "1", vHuge)
		t, task := w.Queue("alice", "bob", "r"+s, amt, func(t *model.Transaction) { t.Inflight = infl })
		jobs[i] = &vJob{id: t.TransactionID, amt: amt, task: task}
		if !fault && vf.Bool("delivered"+s) {
			delivered[i] = true
			if err := vDeliver(inst, jobs[i], task.Type, 1); err != nil {
				vf.Stop()
			}
			vf.WaitAll()
		}
		old[i] = fault || vf.Bool("stuck"+s)
	}
	for i, j := range jobs {
		age := threshold - time.Minute
		if old[i] {
			age = threshold + time.Minute
		}
		for _, r := range w.Txns() {
			if r.ID() == j.id || r.Parent() == j.id {
				w.DB().Put("transactions", "transaction_id", r.ID(), "created_at", time.Now().UTC().Add(-age+time.Duration(i)*time.Second))
			}
		}
	}
	var f *blnk.VFaulter
	if fault {
		f = w.Faults(1, true)
	}
	for k := 0; k < sweeps; k++ {
		before := w.Figures(b)
		rows := vStored(w)
		tried := make([]int, n)
		for i, j := range jobs {
			tried[i] = 0
			if !fault {
				tried[i] = vAttempts(w, j.id)
			}
		}
		was := make([]int, n)
		for i, j := range jobs {
			was[i] = len(vFinals(w, j.id))
		}
		_, err := w.Svc().RecoverQueuedTransactions(w.Ctx(), asked)
		vf.WaitAll()
		if f != nil && f.Crashed() && w.DB().Dead {
			f.Recover()
			inst.blnk = w.Svc()
		}
		if !fault {
			vf.Assert(err == nil, "the sweep ends well")
		}
		vf.Assert(w.Agrees(b), "the balances are the replay of the stored transactions")
		now := vStored(w)
		mine := map[string]bool{}
		for i, j := range jobs {
			got := vFinals(w, j.id)
			vf.Assert(len(got) <= 1, "one final record at most")
			for _, g := range got {
				mine[g.ID()] = was[i] == 0
			}
			if len(got) == 1 {
				vf.Assert(vf.BigEq(got[0].Amount(), j.amt), "the final record has the amount asked for")
				ok := blnk.StatusApplied
				if infl {
					ok = blnk.StatusInflight
				}
				vf.Assert(got[0].Status() == ok || got[0].Status() == blnk.StatusRejected, "the final record is applied, held or rejected")
			}
			stuck := was[i] == 0 && old[i]
			if !stuck {
				if was[i] == 1 {
					vf.Reach("decided before")
				} else if len(got) == 0 {
					vf.Reach("too young")
				}
				// a young sibling may be taken along with a stuck one, its own record stays as it is
				vf.Assert(now[j.id] == rows[j.id], "a transaction that is not stuck is left alone")
				if n == 1 {
					vf.Assert(len(got) == was[i], "a transaction that is not stuck is not carried out")
				}
				continue
			}
			if fault {
				continue
			}
			if n == 1 {
				free := vf.BigLe(j.amt, fund)
				if len(got) == 0 {
					vf.Reach("failed again")
					vf.Assert(vf.Not(free), "a stuck transaction is carried out when there are funds")
					vf.Assert(vAttempts(w, j.id) == tried[i]+1, "the attempt is counted")
					vf.Assert(tried[i] < 3, "no more than the allowed attempts")
				} else if got[0].Status() == blnk.StatusRejected {
					vf.Reach("given up")
					vf.Assert(vf.Not(free), "only what fails is given up")
					vf.Assert(tried[i] >= 3, "given up only after the allowed attempts")
				} else {
					vf.Reach("recovered")
					vf.Assert(free, "carried out only with funds")
				}
			}
		}
		for id, s := range rows {
			own := false
			for i, j := range jobs {
				own = own || (id == j.id && old[i] && was[i] == 0)
			}
			if !own {
				vf.Assert(now[id] == s, "every other record is left alone")
			}
		}
		for id := range now {
			_, had := rows[id]
			vf.Assert(had || mine[id], "only final records are added")
		}
		if n == 1 && (was[0] == 1 || !old[0]) {
			vf.Assert(w.Unchanged(b, before), "nothing moves a second time")
		}
	}
	// the task is delivered after all
	for i, j := range jobs {
		if delivered[i] {
			continue
		}
		was := vFinals(w, j.id)
		before := w.Figures(b)
		vDeliver(inst, j, j.task.Type, 1)
		vf.WaitAll()
		if f != nil && f.Crashed() && w.DB().Dead {
			f.Recover()
			inst.blnk = w.Svc()
		}
		got := vFinals(w, j.id)
		vf.Assert(w.Agrees(b), "the balances are the replay of the stored transactions")
		vf.Assert(len(got) <= 1, "one final record at most")
		if len(was) == 1 {
			vf.Reach("delivered after recovery")
			vf.Assert(len(got) == 1 && got[0].ID() == was[0].ID(), "a final record stays")
			if n == 1 {
				vf.Assert(w.Unchanged(b, before), "nothing moves a second time")
			}
		}
	}
}

func vHugeInt() *big.Int {
	x, _ := new(big.Int).SetString(vHuge, 10)
	return x
}

// VRecover: one queued transaction, swept until it is decided.
func VRecover() { vRecover(1, 5, false) }

// VRecoverMany: two queued transactions of the same balances, swept twice.
func VRecoverMany() { vRecover(2, 2, false) }

// VRecoverFault: one fault or stop at any database step of the sweeps.
func VRecoverFault() { vRecover(1, 2, true) }

// VRecoverManyFault: the same for two transactions taken together.
func VRecoverManyFault() { vRecover(2, 2, true) }

package main

import (
	"context"
	"math/big"
	"time"
	_ "unsafe"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfredis"
	"github.com/blnkfinance/blnk/model"
	"github.com/hibiken/asynq"
)

// vMessage has the fields of asynq's internal task message.
type vMessage struct {
	Type         string
	Payload      []byte
	ID           string
	Queue        string
	Retry        int
	Retried      int
	ErrorMsg     string
	LastFailedAt int64
	Timeout      int64
	Deadline     int64
	UniqueKey    string
	GroupKey     string
	Retention    int64
	CompletedAt  int64
}

//go:linkname vAsynqContext github.com/hibiken/asynq/internal/context.New
func vAsynqContext(base context.Context, msg *vMessage, deadline time.Time) (context.Context, context.CancelFunc)

const vHuge = "1000000000000000000000000000000"

// vJob is a queued transaction and its task.
type vJob struct {
	id      string
	amt     *big.Int
	task    vfredis.Task
	retried int
	gone    bool // the queue has archived it
	done    bool // a delivery succeeded
}

func vDeliver(b *blnkInstance, j *vJob, typ string, max int) error {
	ctx, cancel := vAsynqContext(context.Background(), &vMessage{Type: typ, ID: j.task.ID, Queue: typ, Retry: max, Retried: j.retried}, time.Now().Add(24*time.Hour))
	defer cancel()
	return b.processTransaction(ctx, asynq.NewTask(typ, j.task.Payload))
}

// finals lists the records that decide a queued transaction.
func vFinals(w *blnk.VWorld, id string) []blnk.VRow {
	var out []blnk.VRow
	for _, r := range w.Txns() {
		if r.Parent() == id && r.Status() != blnk.StatusQueued {
			out = append(out, r)
		}
	}
	return out
}

func vRun(n, deliveries int, fault bool) {
	w := blnk.VNew()
	conf := w.Conf()
	conf.Transaction.EnableCoalescing = n > 1
	conf.Transaction.BatchSize = 10
	conf.Transaction.LockWaitTimeout = 20 * time.Millisecond
	conf.Queue.MaxRetryAttempts = 1
	if n == 1 || vf.Thorough() {
		conf.Queue.MaxRetryAttempts = 1 + vf.Choose("retries", 2)
	}
	conf.Queue.InsufficientFundRetries = vf.Bool("retry without funds")
	conf.Queue.EnableHotLane = n > 1 && (!fault || vf.Thorough()) && vf.Bool("hot lane")
	max := conf.Queue.MaxRetryAttempts
	b := &blnk.VBooks{}
	fund := vf.Big("fund", "0", vHuge)
	w.Open(b, "alice", fund, new(big.Int))
	w.Open(b, "bob", new(big.Int), new(big.Int))
	infl := vf.Bool("inflight")
	jobs := make([]*vJob, n)
	for i := range jobs {
		amt := vf.Big("amount"+string(rune('0'+i)), "1", vHuge)
		t, task := w.Queue("alice", "bob", "r"+string(rune('0'+i)), amt, func(t *model.Transaction) { t.Inflight = infl })
		jobs[i] = &vJob{id: t.TransactionID, amt: amt, task: task}
	}
	inst := &blnkInstance{blnk: w.Svc(), cnf: conf}
	busy := false
	if n == 1 && !fault && vf.Bool("busy lock") {
		busy = true
		conf.Queue.RejectLockContentionImmediately = vf.Bool("refuse at once")
		w.Store().KV["alice"] = &vfredis.Entry{Val: "someone", Has: true, Exp: w.Store().Now + 1000*1000}
	}
	var f *blnk.VFaulter
	if fault {
		f = w.Faults(1, true)
	}
	for k := 0; k < deliveries; k++ {
		j := jobs[0]
		if n > 1 {
			j = jobs[vf.Choose("which", n)]
		}
		if j.gone {
			continue
		}
		typ := j.task.Type
		if conf.Queue.EnableHotLane {
			typ = conf.Queue.HotQueueName
		}
		before := w.Figures(b)
		was := vFinals(w, j.id)
		err := vDeliver(inst, j, typ, max)
		vf.WaitAll()
		crashed := f != nil && f.Crashed() && w.DB().Dead
		if crashed {
			f.Recover()
			inst.blnk = w.Svc()
		}
		vf.Assert(w.Agrees(b), "the balances are the replay of the stored transactions")
		for _, x := range jobs {
			vf.Assert(len(vFinals(w, x.id)) <= 1, "one final record at most")
		}
		got := vFinals(w, j.id)
		if len(was) > 0 {
			vf.Reach("delivered again")
			vf.Assert(len(got) == 1 && got[0].ID() == was[0].ID(), "a final record stays")
			if n == 1 {
				vf.Assert(w.Unchanged(b, before), "a further delivery moves nothing")
			}
		}
		if err == nil && !crashed {
			j.done = true
			vf.Assert(len(got) == 1, "a successful delivery leaves the final record")
			vf.Reach("delivered")
		}
		if len(got) == 1 {
			vf.Assert(vf.BigEq(got[0].Amount(), j.amt), "the final record has the amount asked for")
			ok := blnk.StatusApplied
			if infl {
				ok = blnk.StatusInflight
			}
			vf.Assert(got[0].Status() == ok || got[0].Status() == blnk.StatusRejected, "the final record is applied, held or rejected")
			if len(was) == 0 && n == 1 && !fault && !busy {
				free := vf.BigLe(j.amt, fund)
				vf.Assert(vf.Iff(free, got[0].Status() == ok), "refused exactly for lack of funds")
				if got[0].Status() == blnk.StatusRejected {
					vf.Reach("rejected")
					vf.Assert(!conf.Queue.InsufficientFundRetries || j.retried >= max, "rejected only after the retries")
				}
			}
		} else if n == 1 && !fault && !busy {
			vf.Reach("waiting")
			vf.Assert(conf.Queue.InsufficientFundRetries && j.retried < max, "no transaction waits without a retry")
		}
		if busy && len(was) == 0 && len(got) == 1 {
			vf.Reach("busy")
			vf.Assert(got[0].Status() == blnk.StatusRejected, "nothing moves under someone else's lock")
			vf.Assert(conf.Queue.RejectLockContentionImmediately || j.retried >= max, "rejected only after the retries")
			vf.Assert(w.Unchanged(b, before), "a rejection moves nothing")
		}
		if err != nil || crashed {
			if j.retried >= max {
				j.gone = true
			}
			j.retried++
		}
	}
}

// VDeliver: one queued transaction delivered again and again.
func VDeliver() { vRun(1, 3, false) }

// VDeliverFault: one queued transaction delivered again and again, with one fault or stop at any database step.
func VDeliverFault() {
	n := 2
	if vf.Thorough() {
		n = 3
	}
	vRun(1, n, true)
}

// VDeliverMany: two queued transactions of the same balances, coalesced, delivered in any order with repeats.
func VDeliverMany() { vRun(2, 3, false) }

// VDeliverManyFault: the same with one fault or stop at any database step.
func VDeliverManyFault() { vRun(2, 2, true) }

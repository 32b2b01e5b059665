package main

import (
	"math/big"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

// vMember is one transaction put on the queue.
type vMember struct {
	src, dst  string
	amt       *big.Int
	infl      bool
	overdraft bool
	limit     float64
	back      bool // dated back
	refund    bool // the refund of a committed hold
}

// vSide is the service with the same requests, taken together or one by one.
type vSide struct {
	w    *blnk.VWorld
	b    *blnk.VBooks
	inst *blnkInstance
	jobs []*vJob
	refs []string
}

func vSideOf(together bool, fund, other *big.Int, queued bool, ms []vMember, held *big.Int) *vSide {
	w := blnk.VNew()
	c := w.Conf()
	c.Transaction.EnableCoalescing = together
	c.Transaction.BatchSize = 10
	c.Transaction.EnableQueuedChecks = queued
	c.Queue.MaxRetryAttempts = 1
	s := &vSide{w: w, b: &blnk.VBooks{}, inst: &blnkInstance{blnk: w.Svc(), cnf: c}}
	w.Open(s.b, "alice", fund, new(big.Int))
	w.Open(s.b, "bob", new(big.Int), new(big.Int))
	w.Open(s.b, "carol", other, new(big.Int))
	var done string
	for _, m := range ms {
		if m.refund {
			h, err := w.Record("bob", "alice", "held", held, func(t *model.Transaction) { t.Inflight, t.AllowOverdraft = true, true })
			if err != nil {
				vf.Stop()
			}
			vf.WaitAll()
			d, err := w.Svc().CommitInflightTransaction(w.Ctx(), h.TransactionID, new(big.Int))
			if err != nil {
				vf.Stop()
			}
			vf.WaitAll()
			done = d.TransactionID
			break
		}
	}
	day := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	for i, m := range ms {
		if m.refund {
			was := len(w.Store().Tasks)
			t, err := w.Svc().RefundTransaction(w.Ctx(), done, false)
			vf.WaitAll()
			if err != nil || len(w.Store().Tasks) == was {
				vf.Stop()
			}
			s.jobs = append(s.jobs, &vJob{id: t.TransactionID, amt: held, task: w.LastTask(was)})
			s.refs = append(s.refs, "")
			continue
		}
		ref := "r" + string(rune('0'+i))
		t, task := w.Queue(m.src, m.dst, ref, m.amt, func(t *model.Transaction) {
			t.Inflight, t.AllowOverdraft, t.OverdraftLimit = m.infl, m.overdraft, m.limit
			if m.back {
				t.EffectiveDate = &day
			}
		})
		s.jobs = append(s.jobs, &vJob{id: t.TransactionID, amt: m.amt, task: task})
		s.refs = append(s.refs, ref)
	}
	return s
}

func (s *vSide) settle(k int) {
	j := s.jobs[k]
	for n := 0; n < 3 && !j.gone && !j.done; n++ {
		err := vDeliver(s.inst, j, j.task.Type, 1)
		vf.WaitAll()
		if err == nil {
			j.done = true
		} else if j.retried >= 1 {
			j.gone = true
		}
		j.retried++
	}
}

// order gives the order in which the members were decided.
func (s *vSide) order() []int {
	var out []int
	for _, r := range s.w.Txns() {
		if r.Status() == blnk.StatusQueued {
			continue
		}
		for i, j := range s.jobs {
			if r.Parent() == j.id {
				out = append(out, i)
			}
		}
	}
	return out
}

func vCompare(n int) {
	fund := vf.Big("fund", "0", vHuge)
	other := vf.Big("other fund", "0", vHuge)
	held := vf.Big("held", "1", vHuge)
	last := vf.Bool("last first")
	queued := last
	if vf.Thorough() {
		queued = vf.Bool("queued checks")
	}
	ms := make([]vMember, n)
	for i := range ms {
		s := string(rune('0' + i))
		m := &ms[i]
		m.amt = vf.Big("amount"+s, "1", vHuge)
		k := 4
		if i > 0 && ms[0].refund {
			k = 3
		}
		switch vf.Choose("shape"+s, k) {
		case 0:
			m.src, m.dst = "alice", "bob"
		case 1:
			m.src, m.dst = "alice", "carol"
		case 2:
			m.src, m.dst = "carol", "bob"
		case 3:
			m.src, m.dst, m.refund = "alice", "bob", true
			if i > 0 {
				m.amt = held
			}
			for _, o := range ms[:i] {
				if o.refund {
					vf.Stop()
				}
			}
			continue
		}
		m.infl = vf.Bool("inflight" + s)
		switch vf.Choose("overdraft"+s, 3) {
		case 1:
			m.overdraft = true
		case 2:
			m.overdraft, m.limit = true, 5
		}
		m.back = i == n-1 && vf.Bool("back-dated")
	}
	a := vSideOf(true, fund, other, queued, ms, held)
	if last {
		for i := n - 1; i >= 0; i-- {
			a.settle(i)
		}
	} else {
		for i := 0; i < n; i++ {
			a.settle(i)
		}
	}
	ord := a.order()
	vf.Assert(len(ord) == n, "every member is decided once")
	b := vSideOf(false, fund, other, queued, ms, held)
	for _, i := range ord {
		b.settle(i)
	}
	vf.Assert(a.w.Agrees(a.b), "the balances are the replay of the stored transactions")
	x, y := a.w.Figures(a.b), b.w.Figures(b.b)
	same := true
	for k, v := range x {
		same = vf.And(same, vf.BigEq(v, y[k]))
	}
	vf.Assert(same, "the same balances")
	for i := range ms {
		p, q := vFinals(a.w, a.jobs[i].id), vFinals(b.w, b.jobs[i].id)
		vf.Assert(len(p) == 1 && len(q) == 1, "one final record each")
		vf.Assert(p[0].Status() == q[0].Status(), "the same outcome")
		vf.Assert(vf.BigEq(p[0].Amount(), q[0].Amount()), "the same amount")
		vf.Assert(p[0].Src() == q[0].Src() && p[0].Dst() == q[0].Dst(), "the same balances take part")
		if !ms[i].refund {
			vf.Assert(p[0].Ref() == q[0].Ref(), "the same reference")
		}
		if ms[i].back {
			vf.Reach("back-dated")
			vf.Assert(vDated(a.w, p[0]).Equal(vDated(b.w, q[0])), "the same effective date")
		}
		vf.Reach(p[0].Status())
	}
}

func vDated(w *blnk.VWorld, r blnk.VRow) time.Time {
	t := w.DB().Tables["transactions"]
	if d, ok := r.Vals()[t.Find("effective_date")].(time.Time); ok {
		return d
	}
	return r.Vals()[t.Find("created_at")].(time.Time)
}

// VCoalesce: taken together, queued transactions end as they do one by one.
func VCoalesce() { vCompare(2) }

// VCoalesce3: the same for three.
func VCoalesce3() { vCompare(3) }

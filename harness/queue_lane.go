package blnk

import (
	"context"
	"fmt"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/hotpairs"
	redlock "github.com/blnkfinance/blnk/internal/lock"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfredis"
	"github.com/blnkfinance/blnk/model"
)

func vQueue(n int, hot bool) (*Queue, *vfredis.Store) {
	st := vfredis.New()
	conf := &config.Configuration{}
	conf.Queue.TransactionQueue = "new:transaction"
	conf.Queue.HotQueueName = "hot_transactions"
	conf.Queue.NumberOfQueues = n
	conf.Queue.EnableHotLane = hot
	conf.Queue.MaxRetryAttempts = 5
	conf.Queue.InflightCommitQueue = "new:inflight-commit"
	conf.Queue.InflightExpiryQueue = "new:inflight-expiry"
	return &Queue{Client: st.Client(), config: conf, redis: st}, st
}

// VQueueName: any two transactions out of one balance land on the same configured queue.
func VQueueName() {
	n := []int{1, 2, 3, 7, 20}[vf.Choose("number of queues", 5)]
	hot := vf.Bool("hot lane enabled")
	q, st := vQueue(n, hot)
	max := 4
	if vf.Thorough() {
		max = 10
	}
	src := vf.Str("source", 0, max, "")
	lane := func(name string) string { return []string{"", "normal", "hot"}[vf.Choose(name, 3)] }
	l1, l2 := lane("lane one"), lane("lane two")
	mk := func(id, dst, l string, later bool) *model.Transaction {
		t := &model.Transaction{TransactionID: id, Reference: "ref-" + id, Source: src, Destination: dst, Currency: "USD"}
		if l != "" {
			t.MetaData = map[string]interface{}{hotpairs.QueueLaneMetaKey: l}
		}
		if later {
			t.ScheduledFor = time.Now().Add(time.Hour)
		}
		return t
	}
	ta, tb := mk("a", "x", l1, false), mk("b", "y", l2, vf.Bool("second scheduled for later"))
	ka, kb := q.geTask(ta, []byte("p")), q.geTask(tb, []byte("p"))
	_, ea := q.Client.EnqueueContext(context.Background(), ka)
	_, eb := q.Client.EnqueueContext(context.Background(), kb)
	vf.Assert(ea == nil && eb == nil && len(st.Tasks) == 2, "queued transactions are handed to the queue")
	a, b := st.Tasks[0], st.Tasks[1]
	vf.Assert(a.ID == "a" && b.ID == "b", "a task carries its transaction's identifier")
	check := func(t vfredis.Task, l string) {
		if l == "hot" && hot {
			vf.Reach("hot lane")
			vf.Assert(t.Queue == "hot_transactions", "a hot transaction goes to the hot lane")
			return
		}
		ok := false
		for i := 1; i <= n; i++ {
			ok = vf.Or(ok, vf.StrEq(t.Queue, fmt.Sprintf("new:transaction_%d", i)))
		}
		vf.Assert(ok, "a transaction goes to one of the configured queues")
		vf.Assert(vf.StrEq(t.Type, t.Queue), "the task type names the queue's handler")
	}
	check(a, l1)
	check(b, l2)
	if l1 != "hot" && l2 != "hot" || !hot {
		vf.Reach("same balance")
		vf.Assert(vf.StrEq(a.Queue, b.Queue), "transactions out of one balance share one queue")
	}
	vf.Observe("queue", a.Queue)
}

type vLaneCount struct{ normal, hot int }

func (c *vLaneCount) CountQueuedTransactionsForPairLane(ctx context.Context, source, destination, currency, lane string) (int, error) {
	if source != "s" || destination != "d" {
		return 0, nil
	}
	if lane == hotpairs.LaneHot {
		return c.hot, nil
	}
	return c.normal, nil
}

// VHotLane: any sequence of submissions, completions, contention and cooling on one pair.
func VHotLane() {
	st := vfredis.New()
	ctx := context.Background()
	m := hotpairs.NewManager(st, hotpairs.Config{Enabled: true, HotQueueName: "hot", HotPairTTL: time.Minute, LockContentionThreshold: 2})
	c := &vLaneCount{}
	steps := 6
	if vf.Thorough() {
		steps = 8
	}
	contended := 0
	for i := 0; i < steps; i++ {
		switch vf.Choose("step", 5) {
		case 0: // submit
			t := &model.Transaction{TransactionID: "t", Source: "s", Destination: "d", Currency: "USD"}
			err := hotpairs.AssignQueueLane(ctx, m, c, t)
			vf.Assert(err == nil, "assigning a lane does not fail")
			if hotpairs.QueueLaneFromMetadata(t.MetaData) == hotpairs.LaneHot {
				c.hot++
				vf.Reach("hot")
				vf.Assert(contended >= 2, "a pair is hot only after contention")
			} else {
				c.normal++
				vf.Reach("normal")
			}
			vf.Assert(c.hot == 0 || c.normal == 0, "pending work of one pair is never spread over two lanes")
			o := &model.Transaction{TransactionID: "o", Source: "s2", Destination: "d2", Currency: "USD"}
			_ = hotpairs.AssignQueueLane(ctx, m, c, o)
			vf.Assert(hotpairs.QueueLaneFromMetadata(o.MetaData) == hotpairs.LaneNormal, "another pair is not hot")
		case 1: // one pending transaction completes
			if c.hot > 0 {
				c.hot--
			} else if c.normal > 0 {
				c.normal--
			} else {
				vf.Stop()
			}
		case 2:
			contended++
			hotpairs.RecordContention(ctx, m, "s", "d", "USD", redlock.ErrLockHeld)
		case 3: // no contention for a while: everything but the pair's state lapses
			st.Now += 70_000
		case 4:
			hotpairs.RecordContention(ctx, m, "s", "d", "USD", context.Canceled)
		}
	}
}

package main

import (
	"context"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/hotpairs"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfredis"
	"github.com/blnkfinance/blnk/model"
	"github.com/hibiken/asynq"
)

//verif:override github.com/hibiken/asynq.NewInspector
func vNewInspector(r asynq.RedisConnOpt) *asynq.Inspector { return nil }

// VListened: whatever queue a transaction is put on, the workers listen on it and have a handler for it.
func VListened() {
	st := vfredis.New()
	conf := &config.Configuration{}
	conf.Redis.Dns = "localhost:6379"
	conf.Queue.TransactionQueue = "new:transaction"
	conf.Queue.HotQueueName = "hot_transactions"
	conf.Queue.WebhookQueue = "new:webhook"
	conf.Queue.IndexQueue = "new:index"
	conf.Queue.InflightExpiryQueue = "new:inflight-expiry"
	conf.Queue.InflightCommitQueue = "new:inflight-commit"
	conf.Queue.NumberOfQueues = []int{1, 2, 3, 7, 20}[vf.Choose("number of queues", 5)]
	conf.Queue.EnableHotLane = vf.Bool("hot lane enabled")
	config.ConfigStore.Store(conf)
	q := blnk.NewQueue(conf, st.Client(), st)
	max := 3
	if vf.Thorough() {
		max = 6
	}
	t := &model.Transaction{TransactionID: "t", Reference: "r", Source: vf.Str("source", 0, max, "a-z@-"), Destination: "d", Currency: "USD"}
	if k := vf.Choose("lane", 3); k > 0 {
		t.MetaData = map[string]interface{}{hotpairs.QueueLaneMetaKey: []string{"", "normal", "hot"}[k]}
	}
	ctx := context.Background()
	kind := vf.Choose("kind of task", 4)
	var err error
	switch kind {
	case 0:
		err = q.Enqueue(ctx, t)
	case 1:
		t.InflightExpiryDate = time.Now().Add(time.Hour)
		err = q.QueueInflightExpiry(ctx, t)
	case 2:
		t.InflightCommitDate = time.Now().Add(time.Hour)
		err = q.QueueInflightCommit(ctx, t)
	case 3:
		err = q.EnqueueInflightAction(ctx, blnk.InflightActionPayload{TransactionID: "t", Action: blnk.InflightActionVoid, PreciseAmount: "0", ActionID: "a"})
	}
	vf.Assert(err == nil, "a task is handed to the queue")
	vf.Assert(len(st.Tasks) == 1, "one task is handed to the queue")
	task := st.Tasks[0]
	listened := false
	for _, m := range []map[string]int{initializeQueues(), initializeHotQueues(), initializeWebhookQueues()} {
		for name, prio := range m {
			if prio > 0 {
				listened = vf.Or(listened, vf.StrEq(name, task.Queue))
			}
		}
	}
	vf.Assert(listened, "the workers listen on the queue a task is put on")
	if !vf.Symbolic() {
		mux := asynq.NewServeMux()
		b := &blnkInstance{cnf: conf}
		initializeTaskHandlers(b, mux)
		_, pat := mux.Handler(asynq.NewTask(task.Type, nil))
		vf.Assert(pat != "", "the workers have a handler for the task")
	}
	vf.Reach("listened")
}

package blnk

import (
	"context"
	"math/big"
	"strconv"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/database"
	"github.com/blnkfinance/blnk/internal/hooks"
	"github.com/blnkfinance/blnk/internal/hotpairs"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfredis"
	"github.com/blnkfinance/blnk/internal/vfsql"
	"github.com/blnkfinance/blnk/model"
	"github.com/hibiken/asynq"
)

// vCache keeps what was stored, as Redis would: a copy, dropped after its time.
type vCache struct {
	mu sync.Mutex
	m  map[string]vCached
}

type vCached struct {
	v   interface{}
	end time.Time
}

func (c *vCache) Set(ctx context.Context, key string, v interface{}, ttl time.Duration) error {
	vf.Yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	switch x := v.(type) {
	case []model.BalanceMonitor:
		v = append([]model.BalanceMonitor{}, x...)
	case *model.APIKey:
		cp := *x
		v = &cp
	case []*model.Transaction:
		v = append([]*model.Transaction{}, x...)
	}
	c.m[key] = vCached{v, time.Now().Add(ttl)}
	return nil
}

func (c *vCache) Get(ctx context.Context, key string, data interface{}) error {
	vf.Yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	e, ok := c.m[key]
	if !ok || e.end.Before(time.Now()) {
		return nil
	}
	switch d := data.(type) {
	case *[]model.BalanceMonitor:
		*d = append([]model.BalanceMonitor{}, e.v.([]model.BalanceMonitor)...)
	case *model.APIKey:
		*d = *(e.v.(*model.APIKey))
	case *[]*model.Transaction:
		*d = append([]*model.Transaction{}, e.v.([]*model.Transaction)...)
	case *map[string][]*model.Transaction:
		*d = e.v.(map[string][]*model.Transaction)
	default:
		vf.Inconclusive("cache: unknown type")
	}
	return nil
}

func (c *vCache) Delete(ctx context.Context, key string) error {
	vf.Yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, key)
	return nil
}

// vHooks is a hook manager without hooks.
type vHooks struct{ pre, post int }

func (h *vHooks) RegisterHook(ctx context.Context, hook *hooks.Hook) error          { return nil }
func (h *vHooks) UpdateHook(ctx context.Context, id string, hook *hooks.Hook) error { return nil }
func (h *vHooks) DeleteHook(ctx context.Context, id string) error                   { return nil }
func (h *vHooks) GetHook(ctx context.Context, id string) (*hooks.Hook, error)       { return nil, nil }
func (h *vHooks) ListHooks(ctx context.Context, t hooks.HookType) ([]*hooks.Hook, error) {
	return nil, nil
}
func (h *vHooks) ExecuteHooks(ctx context.Context, hs []*hooks.Hook, t hooks.HookType, id string, d interface{}) error {
	return nil
}
func (h *vHooks) ExecutePreHooks(ctx context.Context, id string, d interface{}) error {
	h.pre++
	return nil
}
func (h *vHooks) ExecutePostHooks(ctx context.Context, id string, d interface{}) error {
	h.post++
	return nil
}
func (h *vHooks) ProcessHookTask(ctx context.Context, t *asynq.Task) error { return nil }

// vWorld is the whole service on an in-memory database and an in-memory Redis.
type vWorld struct {
	db    *vfsql.DB
	st    *vfredis.Store
	cache *vCache
	conf  *config.Configuration
	ds    *database.Datasource
	hooks *vHooks
	l     *Blnk
	ctx   context.Context
}

func vNew() *vWorld {
	w := &vWorld{db: vfsql.New(), st: vfredis.New(), cache: &vCache{m: map[string]vCached{}}, hooks: &vHooks{}, ctx: context.Background()}
	c := &config.Configuration{}
	c.Queue.TransactionQueue = "new:transaction"
	c.Queue.WebhookQueue = "new:webhook"
	c.Queue.IndexQueue = "new:index"
	c.Queue.InflightExpiryQueue = "new:inflight-expiry"
	c.Queue.InflightCommitQueue = "new:inflight-commit"
	c.Queue.HotQueueName = "hot_transactions"
	c.Queue.NumberOfQueues = 2
	c.Queue.MaxRetryAttempts = 2
	c.Transaction.BatchSize = 100
	c.Transaction.MaxQueueSize = 100
	c.Transaction.MaxWorkers = 1
	c.Transaction.LockDuration = 30 * time.Minute
	c.Transaction.LockWaitTimeout = 3 * time.Second
	c.Transaction.IndexQueuePrefix = "transactions"
	c.Reconciliation.MaxRetries = 1
	c.Reconciliation.ProgressInterval = 10
	w.conf = c
	config.ConfigStore.Store(c)
	w.ds = &database.Datasource{Conn: w.db.Conn(), Cache: w.cache}
	w.restart()
	return w
}

// restart is a fresh process on the same stores.
func (w *vWorld) restart() {
	w.l = &Blnk{
		datasource: w.ds, queue: &Queue{Client: w.st.Client(), config: w.conf, redis: w.st}, redis: w.st,
		asynqClient: w.st.Client(), bt: NewBalanceTracker(), Hooks: w.hooks, config: w.conf, cache: w.cache,
		hotPairs: hotpairs.NewManager(w.st, hotpairs.Config{Enabled: w.conf.Queue.EnableHotLane, HotQueueName: w.conf.Queue.HotQueueName, HotPairTTL: time.Minute, LockContentionThreshold: 3}),
	}
}

const vHuge = "1000000000000000000000000000000" // 10^30

// vSeedBalance adds a balance with the given settled credits and debits.
func (w *vWorld) seedBalance(id, cur string, credit, debit *big.Int) {
	w.db.Seed("balances", "balance_id", id, "currency", cur, "ledger_id", "general_ledger_id",
		"balance", new(big.Int).Sub(credit, debit).String(), "credit_balance", credit.String(), "debit_balance", debit.String(), "meta_data", "{}")
}

func vZero() *big.Int { return new(big.Int) }

// fig is a committed figure of a balance.
func (w *vWorld) fig(id, col string) *big.Int {
	v := w.db.Get("balances", "balance_id", id, col)
	if v == nil {
		return nil
	}
	return v.(*big.Int)
}

var vFigs = []string{"balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"}

func vItoa(n int) string { return strconv.Itoa(n) }

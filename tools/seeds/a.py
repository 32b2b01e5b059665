SEEDS=[
dict(id='p02-queuedhold',property='P02',pkg='model',
 needs='a held (inflight) transaction while queued debits are counted',
 breaks='a hold ignores the queued debits and may overspend the source',
 edits=[('model/model.go','if sourceBalance.QueuedDebitBalance != nil {','if sourceBalance.QueuedDebitBalance != nil && !transaction.Inflight {')],
 demo='''package model

import ("testing"; "math/big")

func TestZZDemo(t *testing.T) {
	b := &Balance{Balance: big.NewInt(100), CreditBalance: big.NewInt(100), QueuedDebitBalance: big.NewInt(60)}
	txn := &Transaction{PreciseAmount: big.NewInt(50), Precision: 1, Inflight: true}
	if err := UpdateBalances(txn, b, &Balance{}); err == nil {
		t.Fatal("a hold of 50 was accepted although only 40 are available")
	}
}
'''),
dict(id='p01-alias',property='P01',pkg='model',
 needs='two movements on the same in-memory balances, the first onto a balance without history (coalesced batches)',
 breaks='the two balances share one number: the second movement on either changes both',
 edits=[('model/model.go','''	if inflight {
		balance.InflightCreditBalance.Add(balance.InflightCreditBalance, amountBigInt)
	} else {
''','''	if inflight {
		if balance.InflightCreditBalance.Sign() == 0 {
			// Nothing held yet: the hold is the amount itself.
			balance.InflightCreditBalance = amountBigInt
			return
		}
		balance.InflightCreditBalance.Add(balance.InflightCreditBalance, amountBigInt)
	} else {
''')],
 demo='''package model

import ("testing"; "math/big")

func TestZZDemo(t *testing.T) {
	a, b := &Balance{Balance: big.NewInt(100), CreditBalance: big.NewInt(100)}, &Balance{}
	txn := &Transaction{PreciseAmount: big.NewInt(5), Precision: 1, Inflight: true}
	if err := UpdateBalances(txn, a, b); err != nil { t.Fatal(err) }
	txn2 := &Transaction{PreciseAmount: big.NewInt(7), Precision: 1, Inflight: true}
	if err := UpdateBalances(txn2, a, b); err != nil { t.Fatal(err) }
	if txn.PreciseAmount.Int64() != 5 { t.Fatalf("the first transaction now has amount %v", txn.PreciseAmount) }
}
'''),
dict(id='p16-rollback',property='P16',pkg='internal/lock',
 needs='the second of several locks fails for another reason than being held (connection error, cancelled caller)',
 breaks='the locks already taken are kept until they expire',
 edits=[('internal/lock/lock.go','''			m.rollback(ctx, acquiredCount)
			return fmt.Errorf("failed to acquire lock''','''			if errors.Is(err, ErrLockHeld) {
				m.rollback(ctx, acquiredCount)
			}
			return fmt.Errorf("failed to acquire lock''')],
 demo='''package redlock

import ("testing"; "context"; "errors"; "time"; "github.com/redis/go-redis/v9")

type zzFake struct { redis.UniversalClient; kv map[string]string; n int }
func (f *zzFake) SetNX(ctx context.Context, k string, v interface{}, d time.Duration) *redis.BoolCmd {
	c := redis.NewBoolCmd(ctx); f.n++
	if f.n == 2 { c.SetErr(errors.New("connection reset")); return c }
	if _, ok := f.kv[k]; ok { c.SetVal(false); return c }
	f.kv[k] = v.(string); c.SetVal(true); return c
}
func (f *zzFake) Eval(ctx context.Context, s string, keys []string, args ...interface{}) *redis.Cmd {
	c := redis.NewCmd(ctx); if f.kv[keys[0]] == args[0].(string) { delete(f.kv, keys[0]); c.SetVal(int64(1)) } else { c.SetVal(int64(0)) }; return c
}
func TestZZDemo(t *testing.T) {
	f := &zzFake{kv: map[string]string{}}
	m := NewMultiLocker(f, []string{"a", "b"}, "me")
	if m.Lock(context.Background(), time.Second) == nil { t.Fatal("locked") }
	if len(f.kv) != 0 { t.Fatalf("still locked: %v", f.kv) }
}
'''),
dict(id='p09-precision',property='P09',pkg='model',
 needs='a fixed share in major units at a precision beyond 2^31 (crypto precisions such as 10^18)',
 breaks='the share is scaled by a wrapped precision: wrong leg amounts',
 edits=[('model/transaction.go','precisionInt := int64(transaction.Precision)','precisionInt := int64(int32(int64(transaction.Precision)))')],
 demo='''package model

import ("testing"; "math/big"; "context")

func TestZZDemo(t *testing.T) {
	total, _ := new(big.Int).SetString("5000000000000", 10)
	txn := &Transaction{PreciseAmount: total, Precision: 1e12, Source: "s", Destinations: []Distribution{{Identifier: "a", Distribution: "2"}, {Identifier: "b", Distribution: "left"}}}
	r, err := txn.SplitTransactionPrecise(context.Background())
	if err != nil { t.Fatal(err) }
	for _, l := range r { if l.Destination == "a" && l.PreciseAmount.String() != "2000000000000" { t.Fatal(l.PreciseAmount) } }
}
'''),
dict(id='p20-lifo',property='P20',pkg='.',
 needs='three or more providers under last-in allocation, with the newest not covering the amount',
 breaks='funds are taken from an older provider before a newer one',
 edits=[('lineage_allocation.go','''		sort.Slice(sources, func(i, j int) bool {
			return sources[i].CreatedAt.After(sources[j].CreatedAt)
		})
''','''		for i := range sources {
			// Newest source to the front.
			if sources[i].CreatedAt.After(sources[0].CreatedAt) {
				sources[0], sources[i] = sources[i], sources[0]
			}
		}
''')],
 demo='''package blnk

import ("testing"; "math/big"; "time")

func TestZZDemo(t *testing.T) {
	t0 := time.Unix(1000, 0)
	s := []LineageSource{{BalanceID: "o", Balance: big.NewInt(5), CreatedAt: t0}, {BalanceID: "m", Balance: big.NewInt(5), CreatedAt: t0.Add(time.Hour)}, {BalanceID: "n", Balance: big.NewInt(5), CreatedAt: t0.Add(2 * time.Hour)}, {BalanceID: "p", Balance: big.NewInt(5), CreatedAt: t0.Add(90 * time.Minute)}}
	r := (&Blnk{}).calculateAllocation(s, big.NewInt(12), AllocationLIFO)
	if len(r) != 3 || r[0].BalanceID != "n" || r[1].BalanceID != "p" || r[2].BalanceID != "m" { t.Fatal(r) }
}
'''),
]

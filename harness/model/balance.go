package model

import (
	"math/big"

	"github.com/blnkfinance/blnk/internal/vf"
)

const vBig = "1000000000000000000000000000000" // 10^30, far beyond any machine word

// vBalance is a balance with arbitrary contents: any credits and debits, so any
// settled and inflight figures; nothing but "balance = credits - debits" is assumed.
func vBalance(p string) *Balance {
	c, d := vf.Big(p+".credit", "0", vBig), vf.Big(p+".debit", "0", vBig)
	ic, id := vf.Big(p+".inflight_credit", "0", vBig), vf.Big(p+".inflight_debit", "0", vBig)
	return &Balance{
		BalanceID: p, Currency: "USD", Version: 7,
		CreditBalance: c, DebitBalance: d, Balance: new(big.Int).Sub(c, d),
		InflightCreditBalance: ic, InflightDebitBalance: id, InflightBalance: new(big.Int).Sub(ic, id),
	}
}

type vSnap struct{ b, c, d, ib, ic, id *big.Int }

func vCopy(x *big.Int) *big.Int { return new(big.Int).Set(x) }

func vTake(b *Balance) vSnap {
	b.InitializeBalanceFields()
	return vSnap{vCopy(b.Balance), vCopy(b.CreditBalance), vCopy(b.DebitBalance),
		vCopy(b.InflightBalance), vCopy(b.InflightCreditBalance), vCopy(b.InflightDebitBalance)}
}

// vExpect asserts the figures of b after credit/debit deltas.
func vExpect(b *Balance, was vSnap, dc, dd, dic, did *big.Int, label string) {
	c := vf.Sum(was.c, dc)
	d := vf.Sum(was.d, dd)
	ic := vf.Sum(was.ic, dic)
	id := vf.Sum(was.id, did)
	vf.Assert(vf.BigEq(b.CreditBalance, c), label+": credit side")
	vf.Assert(vf.BigEq(b.DebitBalance, d), label+": debit side")
	vf.Assert(vf.BigEq(b.InflightCreditBalance, ic), label+": inflight credit side")
	vf.Assert(vf.BigEq(b.InflightDebitBalance, id), label+": inflight debit side")
	vf.Assert(vf.BigEq(b.Balance, new(big.Int).Sub(c, d)), label+": settled = credits - debits")
	vf.Assert(vf.BigEq(b.InflightBalance, new(big.Int).Sub(ic, id)), label+": inflight = inflight credits - inflight debits")
}

var vZero = big.NewInt(0)

// VApply: one transaction over two arbitrary balances.
func VApply() {
	src, dst := vBalance("src"), vBalance("dst")
	if vf.Bool("fresh destination") {
		// a balance as it comes from the store when nothing was ever moved
		dst = &Balance{BalanceID: "dst", Currency: "USD", Version: 1}
	}
	if vf.Bool("queued figure present") {
		src.QueuedDebitBalance = vf.Big("src.queued_debit", "0", vBig)
		src.QueuedCreditBalance = vf.Big("src.queued_credit", "0", vBig)
	}
	amt := vf.Big("amount", "1", vBig)
	prec := []float64{0, 1, 100, 1000000}[vf.Choose("precision", 4)]
	t := &Transaction{TransactionID: "txn_1", Reference: "r", Currency: "USD", Source: "src", Destination: "dst",
		PreciseAmount: amt, Precision: prec,
		Inflight:       vf.Bool("inflight"),
		AllowOverdraft: vf.Bool("allow_overdraft"),
	}
	if vf.Bool("limit set") {
		t.OverdraftLimit = vf.Decimal("overdraft_limit", 1, 1000000000000, 2)
	}
	s0, d0 := vTake(src), vTake(dst)
	want := vCopy(amt)
	err := UpdateBalances(t, src, dst)
	vf.Observe("refused", err != nil)
	if err != nil {
		vf.Reach("refused")
		vExpect(src, s0, vZero, vZero, vZero, vZero, "refused transaction, source")
		vExpect(dst, d0, vZero, vZero, vZero, vZero, "refused transaction, destination")
		return
	}
	vf.Assert(vf.BigEq(t.PreciseAmount, want), "precise amount unchanged")
	if t.Inflight {
		vf.Reach("held")
		vExpect(src, s0, vZero, vZero, vZero, want, "held transaction, source")
		vExpect(dst, d0, vZero, vZero, want, vZero, "held transaction, destination")
	} else {
		vf.Reach("applied")
		vExpect(src, s0, vZero, want, vZero, vZero, "applied transaction, source")
		vExpect(dst, d0, want, vZero, vZero, vZero, "applied transaction, destination")
	}
	vf.Observe("src balance", src.Balance.String())
	vf.Observe("dst balance", dst.Balance.String())
	vf.Assert(src.Version == 7 && src.BalanceID == "src" && dst.BalanceID == "dst", "identity and version untouched")
}

// VTwice: two transactions in a row over the same two balances in memory, as in a
// coalesced batch; the second may run the other way.
func VTwice() {
	a, b := vBalance("a"), vBalance("b")
	if vf.Bool("fresh balances") {
		a, b = &Balance{BalanceID: "a"}, &Balance{BalanceID: "b"}
	}
	a0, b0 := vTake(a), vTake(b)
	m1, m2 := vf.Big("amount 1", "1", vBig), vf.Big("amount 2", "1", vBig)
	w1, w2 := vCopy(m1), vCopy(m2)
	h1, h2, back := vf.Bool("hold 1"), vf.Bool("hold 2"), vf.Bool("second runs back")
	t1 := &Transaction{PreciseAmount: m1, Precision: 100, Inflight: h1, AllowOverdraft: true}
	t2 := &Transaction{PreciseAmount: m2, Precision: 100, Inflight: h2, AllowOverdraft: true}
	if UpdateBalances(t1, a, b) != nil {
		vf.Assert(false, "overdraft without a limit is never refused")
	}
	s, d := a, b
	if back {
		s, d = b, a
	}
	if UpdateBalances(t2, s, d) != nil {
		vf.Assert(false, "overdraft without a limit is never refused")
	}
	vf.Reach("both")
	vf.Assert(vf.BigEq(t1.PreciseAmount, w1) && vf.BigEq(t2.PreciseAmount, w2), "amounts of the transactions stay")
	// [credit, debit, inflight credit, inflight debit] of a and of b
	var da, db [4]*big.Int
	for i := range da {
		da[i], db[i] = new(big.Int), new(big.Int)
	}
	add := func(m *big.Int, hold, rev bool) {
		k := 0
		if hold {
			k = 2
		}
		if rev {
			da[k], db[k+1] = vf.Sum(da[k], m), vf.Sum(db[k+1], m)
		} else {
			da[k+1], db[k] = vf.Sum(da[k+1], m), vf.Sum(db[k], m)
		}
	}
	add(w1, h1, false)
	add(w2, h2, back)
	vExpect(a, a0, da[0], da[1], da[2], da[3], "two transactions, first balance")
	vExpect(b, b0, db[0], db[1], db[2], db[3], "two transactions, second balance")
}

// VSettle: committing or voiding (part of) a hold, on arbitrary balances.
func VSettle() {
	src, dst := vBalance("src"), vBalance("dst")
	amt := vf.Big("amount", "1", vBig)
	s0, d0 := vTake(src), vTake(dst)
	want := vCopy(amt)
	commit := vf.Bool("commit")
	var e1, e2 error
	if commit {
		t := &Transaction{PreciseAmount: amt, Precision: 100}
		e1 = src.CommitInflightDebit(t)
		e2 = dst.CommitInflightCredit(t)
	} else {
		e1 = src.RollbackInflightDebit(amt)
		e2 = dst.RollbackInflightCredit(amt)
	}
	vf.Assert(vf.Iff(e1 == nil, vf.BigLe(want, s0.id)), "a hold is settled exactly when the held debit covers it")
	vf.Assert(vf.Iff(e2 == nil, vf.BigLe(want, d0.ic)), "a hold is settled exactly when the held credit covers it")
	neg := new(big.Int).Neg(want)
	if e1 != nil {
		vf.Reach("source refused")
		vExpect(src, s0, vZero, vZero, vZero, vZero, "refused settlement, source")
	} else if commit {
		vf.Reach("source committed")
		vExpect(src, s0, vZero, want, vZero, neg, "commit, source")
	} else {
		vf.Reach("source voided")
		vExpect(src, s0, vZero, vZero, vZero, neg, "void, source")
	}
	if e2 != nil {
		vExpect(dst, d0, vZero, vZero, vZero, vZero, "refused settlement, destination")
	} else if commit {
		vf.Reach("destination committed")
		vExpect(dst, d0, want, vZero, neg, vZero, "commit, destination")
	} else {
		vExpect(dst, d0, vZero, vZero, neg, vZero, "void, destination")
	}
}

// VFunds: the refusal decision is exactly the funds rule.
func VFunds() {
	src, dst := vBalance("src"), vBalance("dst")
	avail := new(big.Int).Sub(src.Balance, src.InflightDebitBalance)
	if vf.Bool("queued figure present") {
		src.QueuedDebitBalance = vf.Big("src.queued_debit", "0", vBig)
		avail = new(big.Int).Sub(avail, src.QueuedDebitBalance)
	}
	pi := []int64{1, 100, 1000000, 1000000000000000000}[vf.Choose("precision", 4)]
	prec := float64(pi)
	amt := vf.Big("amount", "1", vBig)
	t := &Transaction{TransactionID: "txn_1", Currency: "USD", PreciseAmount: amt, Precision: prec,
		Inflight: vf.Bool("inflight"), AllowOverdraft: vf.Bool("allow_overdraft")}
	limit := new(big.Int)
	limited := vf.Bool("limit set")
	if limited {
		// limit = n/100 with n up to 9*10^12: exact in the stated number of decimals
		var m *big.Int
		t.OverdraftLimit, m = vf.DecimalM("overdraft_limit", 1, 9000000000000, 2)
		// round half away from zero of m*pi/100
		n := new(big.Int).Mul(m, big.NewInt(pi))
		n.Add(n, big.NewInt(50))
		limit = n.Div(n, big.NewInt(100))
	}
	err := UpdateBalances(t, src, dst)
	vf.Observe("refused", err != nil)
	after := new(big.Int).Sub(avail, amt)
	covered := vf.BigLe(amt, avail)
	within := vf.And(limited, vf.BigLe(new(big.Int).Neg(limit), after))
	unconditional := t.AllowOverdraft && !limited
	switch {
	case unconditional:
		vf.Reach("unconditional overdraft")
		vf.Assert(err == nil, "overdraft without a limit is never refused")
	case err == nil:
		vf.Reach("accepted")
		vf.Assert(vf.Or(covered, within), "accepted only when covered or within the overdraft limit")
	default:
		vf.Reach("refused")
		vf.Assert(vf.Not(covered), "a covered transaction is never refused for lack of funds")
		vf.Assert(vf.Not(within), "a transaction within its overdraft limit is never refused")
	}
}

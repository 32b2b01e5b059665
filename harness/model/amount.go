package model

import (
	"context"
	"math/big"
	"strconv"

	"github.com/blnkfinance/blnk/internal/vf"
)

func vPow10(k int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil) }

// vRoundDiv is a/b rounded half away from zero, for b > 0.
func vRoundDiv(a, b *big.Int) *big.Int {
	two := big.NewInt(2)
	abs := vf.IteBig(vf.BigLt(a, vZero), new(big.Int).Neg(a), a)
	n := vf.Sum(new(big.Int).Mul(abs, two), b)
	q := n.Div(n, new(big.Int).Mul(b, two))
	return vf.IteBig(vf.BigLt(a, vZero), new(big.Int).Neg(q), q)
}

// VToPrecise: a decimal amount becomes the exact number of minor units.
func VToPrecise() {
	k := vf.Choose("decimals", 7)
	if k == 6 {
		k = 9
	}
	amt, m := vf.DecimalM("amount", -999999999999999, 999999999999999, k)
	var p float64
	pi := new(big.Int)
	switch vf.Choose("precision", 6) {
	case 0:
		p, pi = 0, big.NewInt(1)
	case 1:
		p, pi = 1, big.NewInt(1)
	case 2:
		p, pi = 100, big.NewInt(100)
	case 3:
		p, pi = 1e18, vPow10(18)
	case 4:
		p, pi = 3, big.NewInt(3)
	default:
		// any whole number as precision, and an amount in cents
		vf.Assume(k == 2)
		p, pi = vf.DecimalM("any precision", 1, 1000000000, 0)
	}
	t := &Transaction{Amount: amt, Precision: p}
	got := ApplyPrecision(t)
	want := vRoundDiv(new(big.Int).Mul(m, pi), vPow10(k))
	vf.Reach("converted")
	vf.Observe("precise", got.String())
	vf.Assert(vf.BigEq(got, want), "precise amount = amount x precision, rounded half away from zero")
	vf.Assert(t.PreciseAmount == got, "the precise amount is recorded on the transaction")
	// the same input again
	u := &Transaction{Amount: amt, Precision: p}
	vf.Assert(vf.BigEq(ApplyPrecision(u), got), "same input, same precise amount")
	// negative and zero amounts never move funds
	src, dst := &Balance{BalanceID: "a"}, &Balance{BalanceID: "b"}
	n := &Transaction{Amount: amt, Precision: p, AllowOverdraft: true}
	err := UpdateBalances(n, src, dst)
	vf.Assert(vf.Iff(err == nil, vf.And(vf.BigLt(vZero, m), vf.BigLt(vZero, want))), "exactly the positive amounts are accepted")
}

// VFromPrecise: a stated precise amount is used as it is; the displayed amount follows from it.
func VFromPrecise() {
	k := []int{0, 1, 2, 6, 9, 16}[vf.Choose("precision digits", 6)]
	var p float64 = 1
	for i := 0; i < k; i++ {
		p *= 10
	}
	amt := vf.Big("precise", "1", vBig)
	was := vCopy(amt)
	t := &Transaction{PreciseAmount: amt, Precision: p, Amount: vf.Decimal("stated amount", 0, 1000000, 2)}
	small := vf.Bool("small")
	if small {
		vf.Assume(vf.BigLt(was, vPow10(15)))
	}
	got := ApplyPrecision(t)
	vf.Reach("derived")
	vf.Assert(vf.BigEq(got, was), "a stated precise amount is used unchanged")
	vf.Assert(vf.BigEq(t.PreciseAmount, was), "a stated precise amount stays on the transaction")
	// displayed amount: exact up to 15 digits
	if small {
		u := &Transaction{Amount: t.Amount, Precision: p}
		vf.Assert(vf.BigEq(ApplyPrecision(u), was), "the displayed amount converts back to the precise amount")
	}
}

type vLeg struct {
	kind int
	m    *big.Int // fixed: minor units; percentage: hundredths
}

// vSplit builds a transaction with n legs of every kind over an arbitrary total.
func vSplit(n int, negative, fine bool) (*Transaction, []vLeg, *big.Int) {
	total := vf.Big("total", "1", "1000000000000000000000000")
	lo := int64(0)
	if negative {
		lo = -100000
	}
	prec, unit := 100.0, big.NewInt(1) // unit: minor units per hundredth
	if fine && vf.Bool("fine precision") {
		prec, unit = 1e18, vPow10(16)
		total = vf.Sum(new(big.Int).Mul(total, unit), vf.Big("total, fine part", "0", "9999999999999999"))
	}
	var ds []Distribution
	var legs []vLeg
	for i := 0; i < n; i++ {
		id := "leg" + strconv.Itoa(i)
		d := Distribution{Identifier: id}
		l := vLeg{kind: vf.Choose("kind of "+id, 4)}
		switch l.kind {
		case 0: // fixed, major units
			var f float64
			f, l.m = vf.DecimalM("fixed of "+id, lo, 100000000000, 2)
			l.m = new(big.Int).Mul(l.m, unit)
			d.Distribution = strconv.FormatFloat(f, 'f', -1, 64)
		case 1: // fixed, minor units
			x := vf.Int64("minor of "+id, lo, 100000000000)
			l.m = big.NewInt(x)
			d.PreciseDistribution = strconv.FormatInt(x, 10)
		case 2:
			var f float64
			f, l.m = vf.DecimalM("percent of "+id, lo, 10000, 2)
			d.Distribution = strconv.FormatFloat(f, 'f', -1, 64) + "%"
		case 3:
			d.Distribution = "left"
		}
		legs = append(legs, l)
		ds = append(ds, d)
	}
	t := &Transaction{TransactionID: "txn_parent", Reference: "ref", Currency: "USD", PreciseAmount: total, Precision: prec}
	if vf.Bool("split the sources") {
		t.Sources, t.Destination = ds, "dst"
	} else {
		t.Destinations, t.Source = ds, "src"
	}
	return t, legs, vCopy(total)
}

func vLegKey(t *Transaction) (string, string) {
	if t.Destination == "dst" {
		return t.Source, t.Destination
	}
	return t.Destination, t.Source
}

// VSplit2, VSplit3: legs add up, are as asked, and do not depend on map order.
func VSplit2() { vCheckSplit(2) }
func VSplit3() { vCheckSplit(3) }

func vCheckSplit(n int) {
	t, legs, total := vSplit(n, false, n == 2)
	hundred := big.NewInt(100)
	lefts, pcts := 0, new(big.Int)
	fixed := new(big.Int)
	npct := 0
	for _, l := range legs {
		switch l.kind {
		case 0, 1: // in minor units
			fixed = vf.Sum(fixed, l.m)
		case 2:
			npct++
			pcts = vf.Sum(pcts, l.m)
		case 3:
			lefts++
		}
	}
	// total * pcts/10000 + fixed <= total
	ten4 := big.NewInt(10000)
	used := vf.Sum(new(big.Int).Mul(total, pcts), new(big.Int).Mul(fixed, ten4))
	whole := new(big.Int).Mul(total, ten4)
	exceeds := vf.BigLt(whole, used)
	_ = hundred
	bySource := len(t.Sources) > 0
	vf.MapOrder(n == 2)
	out, err := t.SplitTransactionPrecise(context.Background())
	vf.MapOrder(false)
	vf.Observe("refused", err != nil)
	if err != nil {
		vf.Reach("refused")
		short := vf.And(lefts == 0, vf.BigLt(used, whole))
		vf.Assert(vf.Or(vf.Or(exceeds, short), lefts > 1), "a distribution that makes up the whole is not refused")
		return
	}
	vf.Reach("split")
	vf.Assert(vf.Not(exceeds), "a distribution that exceeds the whole is refused")
	got := map[string]*big.Int{}
	sum := new(big.Int)
	ids := map[string]string{}
	for _, leg := range out {
		id, other := vLegKey(leg)
		if bySource {
			vf.Assert(other == "dst", "a leg keeps the side that is not split")
		} else {
			vf.Assert(other == "src", "a leg keeps the side that is not split")
		}
		vf.Assert(got[id] == nil, "one leg per party")
		got[id] = leg.PreciseAmount
		ids[id] = leg.TransactionID
		sum = vf.Sum(sum, leg.PreciseAmount)
		vf.Assert(leg.ParentTransaction == "txn_parent" && len(leg.Sources) == 0 && len(leg.Destinations) == 0, "a leg is a plain child of the split transaction")
		vf.Assert(vf.BigLe(vZero, leg.PreciseAmount), "no leg is negative")
	}
	vf.Assert(vf.BigEq(sum, total), "the legs add up to the whole")
	vf.Assert(vf.BigEq(t.PreciseAmount, total), "the whole stays what it was")
	// with a remainder leg, or when the legs make up the whole, each leg is as asked to
	// within one minor unit per percentage leg
	remainder := lefts == 1
	covered := vf.Or(remainder, vf.BigEq(used, whole))
	// a whole of one minor unit cannot be divided: it goes to the first leg
	covered = vf.And(covered, vf.BigLt(big.NewInt(1), total))
	tol := new(big.Int).Mul(ten4, big.NewInt(int64(npct)))
	ds := t.Sources
	if !bySource {
		ds = t.Destinations
	}
	for i, l := range legs {
		a := got["leg"+strconv.Itoa(i)]
		if a == nil {
			// a fixed leg of nothing has no transaction
			vf.Assert(l.kind < 2 && vf.BigEq(l.m, vZero) || l.kind == 3 && lefts > 1, "every leg is there")
			continue
		}
		vf.Assert(ds[i].TransactionID == ids[ds[i].Identifier], "each party is told the transaction of its own leg")
		var want *big.Int
		switch l.kind {
		case 0, 1:
			want = new(big.Int).Mul(l.m, ten4)
		case 2:
			want = new(big.Int).Mul(total, l.m)
		case 3:
			want = new(big.Int).Sub(whole, used)
		}
		d := new(big.Int).Sub(new(big.Int).Mul(a, ten4), want)
		vf.Assert(vf.Implies(covered, vf.And(vf.BigLe(d, tol), vf.BigLe(new(big.Int).Neg(tol), d))), "each leg is its share to within rounding")
	}
}

// VSplitStable: the same request gives the same legs whatever order maps are walked in.
func VSplitStable() {
	t, _, total := vSplit(2, false, false)
	u := *t
	u.PreciseAmount = vCopy(total)
	u.Sources = append([]Distribution(nil), t.Sources...)
	u.Destinations = append([]Distribution(nil), t.Destinations...)
	a, e1 := t.SplitTransactionPrecise(context.Background())
	vf.MapOrder(true)
	b, e2 := u.SplitTransactionPrecise(context.Background())
	vf.MapOrder(false)
	vf.Assert((e1 == nil) == (e2 == nil) && len(a) == len(b), "map order does not decide whether a split is accepted")
	if e1 != nil || len(a) != len(b) {
		return
	}
	vf.Reach("compared")
	for i := range a {
		vf.Assert(a[i].Source == b[i].Source && a[i].Destination == b[i].Destination && a[i].Reference == b[i].Reference, "map order does not decide which leg carries which reference")
		vf.Assert(vf.BigEq(a[i].PreciseAmount, b[i].PreciseAmount), "map order does not decide the amounts")
	}
}

// VSplitNegative: no leg ever takes a negative amount.
func VSplitNegative() {
	t, legs, total := vSplit(2, true, false)
	neg := false
	for _, l := range legs {
		if l.m != nil {
			neg = vf.Or(neg, vf.BigLt(l.m, vZero))
		}
	}
	out, err := t.SplitTransactionPrecise(context.Background())
	vf.Observe("refused", err != nil)
	if err != nil {
		vf.Reach("refused")
		return
	}
	vf.Reach("accepted")
	vf.Assert(vf.Not(neg), "a distribution with a negative share is refused")
	sum := new(big.Int)
	for _, leg := range out {
		vf.Assert(vf.BigLe(vZero, leg.PreciseAmount), "no leg is negative")
		sum = vf.Sum(sum, leg.PreciseAmount)
	}
	vf.Assert(vf.BigEq(sum, total), "the legs add up to the whole")
}

// VNoSplit: a plain transaction has no legs and is not refused.
func VNoSplit() {
	t := &Transaction{TransactionID: "t", Reference: "r", Source: "a", Destination: "b", Currency: "USD", Precision: float64(vf.Int("precision", 1, 1000000)), PreciseAmount: vf.Big("amount", "0", "1000000000000000000000000000000")}
	if vf.Bool("empty lists") {
		t.Sources, t.Destinations = []Distribution{}, []Distribution{}
	}
	out, err := t.SplitTransactionPrecise(context.Background())
	vf.Assert(err == nil && len(out) == 0, "a transaction without splits has no legs")
	vf.Reach("plain")
}

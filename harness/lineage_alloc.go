package blnk

import (
	"math/big"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
)

const vLim = "1000000000000000000000000000000"

func vSources(n int) ([]LineageSource, []*big.Int, []int64) {
	var out []LineageSource
	var was []*big.Int
	var at []int64
	for i := 0; i < n; i++ {
		b := vf.Big("available", "0", vLim)
		t := vf.Int64("received at", 0, 1000000)
		was = append(was, new(big.Int).Set(b))
		at = append(at, t)
		out = append(out, LineageSource{BalanceID: string(rune('a' + i)), Balance: b, CreatedAt: time.Unix(t, 0)})
	}
	return out, was, at
}

func vByID(n int, as []Allocation) []*big.Int {
	got := make([]*big.Int, n)
	for i := range got {
		got[i] = new(big.Int)
	}
	seen := map[string]bool{}
	for _, a := range as {
		i := int(a.BalanceID[0] - 'a')
		vf.Assert(!seen[a.BalanceID], "each provider appears once")
		vf.Assert(vf.BigLt(new(big.Int), a.Amount), "amounts taken are positive")
		seen[a.BalanceID] = true
		got[i] = new(big.Int).Set(a.Amount)
	}
	return got
}

func vConserve(was, got []*big.Int, amt *big.Int) {
	for i := range got {
		vf.Assert(vf.BigLe(got[i], was[i]), "a provider never gives more than it has")
	}
	total, taken := vf.Sum(was...), vf.Sum(got...)
	want := vf.IteBig(vf.BigLe(amt, total), amt, total)
	vf.Assert(vf.BigEq(taken, want), "what is taken adds up to the smaller of the amount and what is available")
}

func vCount() int {
	if vf.Thorough() {
		return 1 + vf.Choose("providers", 4)
	}
	return 1 + vf.Choose("providers", 3)
}

// VSequential: first-in and last-in allocation.
func VSequential() {
	n := vCount()
	src, was, at := vSources(n)
	amt := vf.Big("amount", "1", vLim)
	lifo := vf.Bool("last in first out")
	s := AllocationFIFO
	if lifo {
		s = AllocationLIFO
	}
	l := &Blnk{}
	got := vByID(n, l.calculateAllocation(src, new(big.Int).Set(amt), s))
	vConserve(was, got, amt)
	zero := new(big.Int)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			first := at[i] < at[j]
			if lifo {
				first = at[i] > at[j]
			}
			if first {
				vf.Reach("ordered pair")
				vf.Assert(vf.Or(vf.BigEq(got[i], was[i]), vf.BigEq(got[j], zero)), "funds are taken strictly in the stated order")
			}
		}
	}
	vf.Observe("taken", vf.Sum(got...))
}

// VProportional: proportional allocation.
func VProportional() {
	n := vCount()
	src, was, _ := vSources(n)
	amt := vf.Big("amount", "1", vLim)
	l := &Blnk{}
	got := vByID(n, l.calculateAllocation(src, new(big.Int).Set(amt), AllocationProp))
	vConserve(was, got, amt)
	total := vf.Sum(was...)
	vf.Assume(vf.BigLt(new(big.Int), total))
	eff := vf.IteBig(vf.BigLe(amt, total), amt, total)
	for i := range got {
		share := new(big.Int).Mul(eff, was[i])
		share.Div(share, total)
		vf.Assert(vf.BigLe(share, got[i]), "a provider gives at least its proportional share, rounded down")
		vf.Assert(vf.BigLe(got[i], vf.Sum(share, big.NewInt(int64(n)))), "a provider gives at most its proportional share plus rounding")
	}
	vf.Observe("taken", vf.Sum(got...))
}

package blnk

import (
	"encoding/hex"
	"math/big"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfsql"
)

// vSealed is a world with some transactions, of which the first old ones are old enough to be chained.
func vSealed(n, old, batch int) (*vWorld, []string) {
	w := vNew()
	w.conf.Transaction.HashChain.BatchSize = batch
	w.conf.Transaction.HashChain.TrailingDelay = 30 * time.Second
	now := time.Now().UTC().Truncate(time.Microsecond)
	ids := []string{}
	for i := 0; i < n; i++ {
		at := now.Add(-time.Hour + time.Duration(i)*time.Second)
		if i >= old {
			at = now.Add(-time.Second)
		}
		id := "txn_" + vItoa(i)
		amt := vf.Big("amount "+vItoa(i), "1", vHuge)
		kv := []interface{}{"transaction_id", id, "source", "s" + vItoa(i), "destination", "d" + vItoa(i), "reference", "r" + vItoa(i), "amount", "12.5", "precise_amount", amt.String(), "precision", "100", "currency", "USD", "status", []string{"APPLIED", "QUEUED", "INFLIGHT", "REJECTED"}[i%4], "created_at", at, "meta_data", "{}"}
		if i == 1 {
			kv = append(kv[:2:2], kv[4:]...) // one has no source
		}
		w.db.Seed("transactions", kv...)
		ids = append(ids, id)
	}
	return w, ids
}

func (w *vWorld) seal() {
	w.conf.Transaction.HashChain.TrailingDelay = 30 * time.Second
	NewChainProcessor(w.l).processTick(w.ctx)
}

type vLink struct {
	seq        int64
	prev, hash string
}

func (w *vWorld) links() map[string]*vLink {
	t := w.db.Tables["transactions"]
	q, p, h := t.Find("chain_seq"), t.Find("chain_prev_hash"), t.Find("chain_hash")
	m := map[string]*vLink{}
	for _, r := range w.db.Rows("transactions") {
		id := vTxt(r[t.Find("transaction_id")])
		if r[q] == nil {
			if r[p] != nil || r[h] != nil {
				m[id] = &vLink{-1, "", ""}
			}
			continue
		}
		m[id] = &vLink{vInt(r[q]), vTxt(r[p]), vTxt(r[h])}
	}
	return m
}

func vInt(v vfsql.Val) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *big.Int:
		return x.Int64()
	}
	return -1
}

// chained checks the chain: the old transactions in order, from number one on, each on the one before.
func (w *vWorld) chained(ids []string, old int, whole bool) {
	m := w.links()
	head := ""
	for i := 0; i < 64; i++ {
		head += "0"
	}
	k := 0
	for i, id := range ids {
		l := m[id]
		if i >= old {
			vf.Assert(l == nil, "a transaction that may still change is not chained")
			continue
		}
		if l == nil {
			vf.Assert(!whole, "every settled-down transaction is chained")
			old = i
			continue
		}
		k++
		vf.Assert(l.seq == int64(k), "numbers are consecutive")
		vf.Assert(vf.StrEq(l.prev, head), "a link follows the one before")
		vf.Assert(len(l.hash) == 64, "a link has a hash")
		head = l.hash
	}
	vf.Assert(len(m) == k, "no other transaction is chained")
	s := w.db.Rows("chain_state")
	t := w.db.Tables["chain_state"]
	vf.Assert(len(s) == 1 && vInt(s[0][t.Find("last_seq")]) == int64(k) && vf.StrEq(vTxt(s[0][t.Find("head_hash")]), head), "the bookmark names the last link")
	r, err := w.l.VerifyChain(w.ctx, nil)
	vf.Assert(err == nil && r.Verified && r.LastSeq == int64(k) && vf.StrEq(r.HeadHash, head), "the chain is accepted")
}

// VChain: chaining in runs, one of which may fail or stop anywhere.
func VChain() {
	n := 3
	if vf.Thorough() {
		n = 4
	}
	old := vf.Choose("settled", n+1)
	w, ids := vSealed(n, old, 1+vf.Choose("batch", 3))
	f := w.faults(1, true)
	w.seal()
	f.stop()
	if f.crashed {
		f.recover()
	}
	w.chained(ids, old, !f.fired)
	w.seal()
	w.chained(ids, old, true)
	// the others settle down too
	w.conf.Transaction.HashChain.TrailingDelay = time.Millisecond
	NewChainProcessor(w.l).processTick(w.ctx)
	w.chained(ids, n, true)
	w.seal()
	w.chained(ids, n, true)
	if !f.fired {
		vf.Reach("chained")
	}
}

// VChainRace: two runs at once, and a verification.
func VChainRace() {
	w, ids := vSealed(2, 2, 1+vf.Choose("batch", 2))
	ok := true
	other := w.seal
	if vf.Bool("verified meanwhile") {
		other = func() {
			r, err := w.l.VerifyChain(w.ctx, nil)
			ok = err == nil && r.Verified
		}
	}
	vf.Par(2, w.seal, other)
	vf.Assert(ok, "a chain being extended is accepted")
	w.chained(ids, 2, false)
	w.seal()
	w.chained(ids, 2, true)
	vf.Reach("chained")
}

// VTampered: an altered chain is refused.
func VTampered() {
	n := 3
	w, ids := vSealed(n, n, 10)
	src := vf.Str("source", 1, 2, "")
	w.db.Put("transactions", "transaction_id", "txn_0", "source", src)
	w.seal()
	put := func(id, col string, v interface{}) { w.db.Put("transactions", "transaction_id", id, col, v) }
	get := func(id, col string) string { return vTxt(w.db.Get("transactions", "transaction_id", id, col)) }
	i := vf.Choose("record", n)
	id := ids[i]
	was := w.links()
	switch vf.Choose("tampering", 12) {
	case 0:
		x := vf.Str("other source", 0, 2, "")
		if i != 0 || vf.StrEq(x, src) {
			vf.Stop()
		}
		put(id, "source", x)
	case 1:
		x := vf.Big("other amount", "0", vHuge)
		if vf.BigEq(x, w.db.Get("transactions", "transaction_id", id, "precise_amount").(*big.Int)) {
			vf.Stop()
		}
		put(id, "precise_amount", x.String())
	case 2:
		col := []string{"destination", "currency", "status", "reference", "source"}[vf.Choose("column", 5)]
		x := vf.Str("other", 0, 2, "")
		if x == get(id, col) || col == "source" && i == 0 {
			vf.Stop()
		}
		put(id, col, x)
	case 3:
		put(id, "amount", "12.51")
	case 4:
		put(id, "created_at", w.db.Get("transactions", "transaction_id", id, "created_at").(time.Time).Add(time.Microsecond))
	case 5:
		put(id, "transaction_id", vf.Str("other id", 0, 2, ""))
	case 6: // removed
		w.db.Remove("transactions", "transaction_id", id)
	case 7: // taken out of the chain
		put(id, "chain_seq", nil)
	case 8: // reordered
		o := ids[(i+1)%n]
		a, b := was[id], was[o]
		put(id, "chain_seq", int64(99))
		put(o, "chain_seq", a.seq)
		put(id, "chain_seq", b.seq)
		if vf.Bool("with links") {
			put(id, "chain_prev_hash", b.prev)
			put(o, "chain_prev_hash", a.prev)
		}
	case 9: // inserted at the end, well made
		last := was[ids[n-1]]
		w.db.Seed("transactions", "transaction_id", "txn_x", "source", "s", "destination", "d", "reference", "rx", "precise_amount", "1", "status", "APPLIED", "created_at", time.Now().UTC().Add(-time.Minute), "meta_data", "{}")
		s := w.db.Rows("chain_state")[0]
		t := w.db.Tables["chain_state"]
		head := s[t.Find("head_hash")]
		w.seal()
		w.db.Put("chain_state", "chain_key", "global", "last_seq", last.seq)
		w.db.Put("chain_state", "chain_key", "global", "head_hash", head)
		vf.Assert(w.links()["txn_x"] != nil, "the record is linked")
	case 10: // inserted in the middle
		for j := n - 1; j >= i; j-- {
			put(ids[j], "chain_seq", was[ids[j]].seq+1)
		}
		a := was[id]
		w.db.Seed("transactions", "transaction_id", "txn_x", "source", "s", "reference", "rx", "precise_amount", "1", "status", "APPLIED", "created_at", time.Now().UTC().Add(-time.Minute), "meta_data", "{}", "chain_seq", a.seq, "chain_prev_hash", a.prev, "chain_hash", a.hash)
	case 11:
		x := hex.EncodeToString([]byte("01234567890123456789012345678901"))
		if vf.Bool("link") {
			put(id, "chain_prev_hash", x)
		} else {
			put(id, "chain_hash", x)
		}
	}
	r, err := w.l.VerifyChain(w.ctx, nil)
	vf.Assert(err != nil || !r.Verified, "an altered chain is refused")
	vf.Reach("refused")
}

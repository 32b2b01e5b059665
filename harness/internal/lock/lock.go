package redlock

import (
	"context"
	"errors"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/internal/vfredis"
)

// vHold is what a holder may believe: it owns key until the expiry it asked for.
type vHold struct {
	on    bool
	until int64
}

func vTick(st *vfredis.Store, n string) {
	st.Now += vf.Int64("time passes "+n, 0, 100)
}

// VExclusion: two (three) holders lock, extend and release one key in every order, with any time passing before every
// command.
func VExclusion() {
	st := vfredis.New()
	ctx := context.Background()
	n := 2
	if vf.Thorough() {
		n = 3
	}
	holds := make([]vHold, n)
	st.Tick = func() { vTick(st, "") }
	budget := 3
	var fs []func()
	for i := 0; i < n; i++ {
		me := i
		l := NewLocker(st, "K", "owner-"+string(rune('a'+me)))
		fs = append(fs, func() {
			ttl := int64(50)
			err := l.Lock(ctx, time.Duration(ttl)*time.Millisecond)
			cur, held := st.Peek("K")
			if err != nil {
				vf.Assert(held && cur != l.value, "a free lock is never refused")
				return
			}
			vf.Reach("locked")
			vf.Assert(held && cur == l.value, "a lock that was granted is recorded for its holder")
			for j := range holds {
				if j != me && holds[j].on && holds[j].until > st.Now {
					vf.Assert(false, "two holders own the lock at once")
				}
			}
			holds[me] = vHold{true, st.Now + ttl}
			vf.Assert(st.KV["K"] != nil && st.KV["K"].Has && st.KV["K"].Exp == st.Now+ttl, "a lock expires when asked to")
			if vf.Choose("extend", 2) == 1 {
				err := l.ExtendLock(ctx, 70*time.Millisecond)
				cur, held := st.Peek("K")
				mine := held && cur == l.value
				vf.Assert((err == nil) == mine, "extending succeeds exactly for the current owner")
				if err == nil {
					vf.Reach("extended")
					holds[me] = vHold{true, st.Now + 70}
					vf.Assert(st.KV["K"].Has && st.KV["K"].Exp == st.Now+70, "an extended lock expires when asked to")
				} else {
					holds[me].on = false
				}
			}
			vf.Yield()
			w := st.Follow("K", l.value)
			err = l.Unlock(ctx)
			holds[me].on = false
			vf.Assert(!w.Stolen, "releasing never frees a lock owned by someone else")
			vf.Assert((err == nil) == w.Released, "releasing succeeds exactly for the current owner")
			if err == nil {
				vf.Reach("released")
			} else {
				vf.Reach("release refused")
			}
		})
	}
	vf.Par(budget, fs...)
}

var errFault = errors.New("connection reset")

// VMulti: taking several locks, some of them held by others, with a failure at any command.
func VMulti() {
	st := vfredis.New()
	ctx, cancel := context.WithCancel(context.Background())
	n := vf.Choose("number of keys", 4)
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, []string{"", "a", "b", "c"}[vf.Choose("key", 4)])
	}
	want := map[string]bool{}
	for _, k := range keys {
		if k != "" {
			want[k] = true
		}
	}
	other := map[string]bool{}
	for _, k := range []string{"a", "b", "c"} {
		if want[k] && vf.Bool("held by another: "+k) {
			other[k] = true
			st.KV[k] = &vfredis.Entry{Val: "other"}
		}
	}
	m := NewMultiLocker(st, keys, "me")
	fault := vf.Choose("failing command", 5) // 0: none
	cmds := 0
	cut := vf.Bool("caller gives up while locking")
	st.Before = func(name, key string) error {
		cmds++
		if cmds == fault {
			if cut {
				cancel()
			}
			return errFault
		}
		return nil
	}
	err := m.Lock(ctx, time.Second)
	vf.Observe("locked", err == nil)
	failed := fault > 0 && cmds >= fault
	unreleased := "" // the one lock whose release hit the failure
	for _, c := range st.Log {
		if c.Err && c.Name == "eval" {
			unreleased = c.Key
		}
	}
	for _, k := range []string{"a", "b", "c"} {
		v, held := st.Peek(k)
		switch {
		case other[k]:
			vf.Assert(held && v == "other", "a lock held by someone else is never touched")
		case err == nil && want[k]:
			vf.Assert(held && v == "me", "when several locks are taken, all of them are")
		case k != unreleased:
			vf.Assert(!held, "when several locks cannot be taken, none of them stays taken")
		}
	}
	if err == nil {
		vf.Reach("all locked")
		vf.Assert(len(other) == 0 && !failed, "locks are only granted when free")
	} else {
		vf.Reach("refused")
		vf.Assert(len(other) > 0 || failed, "free locks are not refused")
		vf.Assert(failed || errors.Is(err, ErrLockHeld), "a held lock is reported as held")
		return
	}
	var order []string
	for _, c := range st.Log {
		if c.Name == "set" {
			order = append(order, c.Key)
		}
	}
	for i := 1; i < len(order); i++ {
		vf.Assert(order[i-1] < order[i], "locks are taken in one global order, each once")
	}
	vf.Assert(len(order) == len(want), "each lock is taken once")
	if vf.Bool("caller gave up before the release") {
		cancel()
	}
	uerr := m.Unlock(ctx)
	unreleased = ""
	for _, c := range st.Log {
		if c.Err {
			unreleased = c.Key
		}
	}
	for _, k := range []string{"a", "b", "c"} {
		_, held := st.Peek(k)
		if k == unreleased {
			vf.Assert(uerr != nil, "a failed release is reported")
			continue
		}
		vf.Assert(!held, "every lock that was taken is given back")
	}
	vf.Assert(uerr == nil || unreleased != "", "a complete release is not reported as failed")
	cancel()
}

// VOrder: two multi-lockers over any two lists of names take their common locks in the same order.
func VOrder() {
	st := vfredis.New()
	ctx := context.Background()
	var lists [2][]string
	for i := range lists {
		n := 2
		for j := 0; j < n; j++ {
			lists[i] = append(lists[i], vf.Str("name", 1, 2, "a-c"))
		}
	}
	pos := func(l []string) []string {
		st.Log = nil
		st.KV = map[string]*vfredis.Entry{}
		m := NewMultiLocker(st, l, "v")
		err := m.Lock(ctx, time.Second)
		vf.Assert(err == nil, "free locks are granted")
		var o []string
		for _, c := range st.Log {
			o = append(o, c.Key)
		}
		return o
	}
	o1, o2 := pos(lists[0]), pos(lists[1])
	idx := func(o []string, k string) int {
		for i, x := range o {
			if x == k {
				return i
			}
		}
		return -1
	}
	for i := range o1 {
		for j := i + 1; j < len(o1); j++ {
			a, b := idx(o2, o1[i]), idx(o2, o1[j])
			if a >= 0 && b >= 0 {
				vf.Reach("two common locks")
				vf.Assert(a < b, "common locks are taken in the same order by everyone")
			}
		}
	}
}

// VWait: waiting for a lock ends with the lock held, or with an error and without it.
func VWait() {
	st := vfredis.New()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	busy := vf.Choose("attempts while held", 4) // 3: for ever
	multi := vf.Bool("several locks")
	st.KV["b"] = &vfredis.Entry{Val: "other"}
	tries := 0
	giveUp := vf.Choose("caller gives up at attempt", 4)
	fault := vf.Choose("failing attempt", 4)
	st.Before = func(name, key string) error {
		if name == "set" && key == "b" {
			if tries >= busy && busy < 3 {
				delete(st.KV, "b")
			}
			tries++
			if tries == giveUp {
				cancel()
			}
			if tries == fault {
				return errFault
			}
		}
		return nil
	}
	var err error
	if multi {
		err = NewMultiLocker(st, []string{"b", "a"}, "me").WaitLock(ctx, time.Second, 400*time.Millisecond)
	} else {
		err = NewLocker(st, "b", "me").WaitLock(ctx, time.Second, 400*time.Millisecond)
	}
	v, held := st.Peek("b")
	va, helda := st.Peek("a")
	vf.Observe("locked", err == nil)
	if err == nil {
		vf.Reach("locked")
		vf.Assert(held && v == "me", "waiting ends with the lock held")
		if multi {
			vf.Assert(helda && va == "me", "waiting ends with every lock held")
		}
		vf.Assert(busy < 3, "a lock held by someone else is never granted")
		return
	}
	vf.Reach("refused")
	vf.Assert(!held || v != "me", "a failed wait does not hold the lock")
	vf.Assert(!helda, "a failed wait holds none of the locks")
	if busy == 3 {
		vf.Assert(held && v == "other", "waiting never takes over somebody's lock")
	}
	if busy == 3 && giveUp == 0 && fault == 0 {
		vf.Reach("timed out")
		vf.Assert(errors.Is(err, ErrLockWaitTimeout), "an exhausted wait is reported as a timeout")
	}
}

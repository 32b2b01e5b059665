package interp

import (
	"golang.org/x/tools/go/ssa"

	"go/types"
)

// Interpreted goroutines run as native goroutines that hand one baton around, so exactly one runs at a time and
// switches happen only at blocking operations (and at explicit yield points when schedule exploration is on).

type goroutine struct {
	id    int
	name  string
	wake  chan struct{}
	ready func() bool // nil: runnable
	done  bool
	fr    *frame
	depth int
	exit  chan struct{}
}

type waiter struct {
	done bool
	ok   bool
	val  Value
	sel  *selState
	idx  int
}

type selState struct {
	done bool
	idx  int
	val  Value
	ok   bool
}

type vtimer struct {
	at   int64
	fire func()
	dead bool
}

type mutexState struct {
	locked  bool
	readers int
}

func (w *Worker) newG(name string) *goroutine {
	g := &goroutine{id: w.nextG, name: name, wake: make(chan struct{}, 1), exit: make(chan struct{})}
	w.nextG++
	w.gs = append(w.gs, g)
	return g
}

func (w *Worker) spawn(fn Value, args []Value) {
	if w.initDepth > 0 {
		return // background goroutines of package initialisers are not modelled
	}
	g := w.newG("go")
	if len(w.gs) > 200 {
		w.unsupported("too many goroutines")
	}
	go func() {
		defer close(g.exit)
		<-g.wake
		if w.killing {
			g.done = true
			return
		}
		w.curFr = nil
		w.callDepth = 0
		func() {
			defer func() {
				r := recover()
				switch r := r.(type) {
				case nil:
				case *abort:
					if r.kind != "kill" && w.pathErr == nil {
						w.pathErr = r
					}
				case *goPanic:
					if w.pathErr == nil {
						s := w.panicString(r)
						w.onPanic(r)
						w.pathErr = &abort{kind: "panic", msg: s}
					}
				default:
					if w.pathErr == nil {
						w.pathErr = &abort{kind: "unsupported", msg: "engine panic in goroutine: " + w.where() + errText(r)}
					}
				}
			}()
			w.call(nil, fn, args)
		}()
		g.done = true
		if w.killing {
			return
		}
		if w.pathErr != nil {
			w.cur = w.gs[0]
			w.gs[0].wake <- struct{}{}
			return
		}
		defer func() {
			// a deadlock or abort discovered while picking a successor is delivered to the main goroutine
			if r := recover(); r != nil {
				if a, ok := r.(*abort); ok && w.pathErr == nil {
					w.pathErr = a
				} else if w.pathErr == nil {
					w.pathErr = &abort{kind: "unsupported", msg: "scheduler: " + errText(r)}
				}
				w.cur = w.gs[0]
				w.gs[0].wake <- struct{}{}
			}
		}()
		n := w.pick(false)
		w.cur = n
		n.wake <- struct{}{}
	}()
}

func errText(r any) string {
	if e, ok := r.(error); ok {
		return " " + e.Error()
	}
	if s, ok := r.(string); ok {
		return " " + s
	}
	return ""
}

// pick selects the next runnable goroutine, advancing virtual time if needed.
func (w *Worker) pick(includeCur bool) *goroutine {
	for {
		var rs []*goroutine
		n := len(w.gs)
		start := 0
		for i, g := range w.gs {
			if g == w.cur {
				start = i + 1
			}
		}
		if includeCur && !w.cur.done && (w.cur.ready == nil || w.cur.ready()) {
			rs = append(rs, w.cur)
		}
		for k := 0; k < n; k++ {
			g := w.gs[(start+k)%n]
			if g.done || g == w.cur && includeCur {
				continue
			}
			if g.ready == nil || g.ready() {
				rs = append(rs, g)
			}
		}
		if len(rs) > 0 {
			if w.schedND && len(rs) > 1 && w.schedBudget > 0 {
				i := w.choose(len(rs))
				if i > 0 {
					w.schedBudget--
				}
				return rs[i]
			}
			return rs[0]
		}
		// advance time to the earliest timer
		var t *vtimer
		for _, x := range w.timers {
			if !x.dead && (t == nil || x.at < t.at) {
				t = x
			}
		}
		if t == nil {
			panic(&abort{kind: "deadlock", msg: "all goroutines are blocked", pos: w.where()})
		}
		if t.at > w.clock {
			w.clock = t.at
		}
		t.dead = true
		live := w.timers[:0:0]
		for _, x := range w.timers {
			if !x.dead {
				live = append(live, x)
			}
		}
		w.timers = live
		t.fire()
	}
}

// block suspends the current goroutine until ready() holds.
func (w *Worker) block(ready func() bool) {
	if w.initDepth > 0 {
		w.unsupported("blocking operation during package initialisation")
	}
	g := w.cur
	g.ready = ready
	if ready == nil || ready() {
		g.ready = nil
		return
	}
	w.switchTo(w.pick(false), g)
	g.ready = nil
}

func (w *Worker) switchTo(n, g *goroutine) {
	if n == g {
		return
	}
	fr, depth := w.curFr, w.callDepth
	w.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if w.killing {
		panic(&abort{kind: "kill"})
	}
	w.curFr, w.callDepth = fr, depth
	if w.pathErr != nil && g == w.gs[0] {
		panic(w.pathErr)
	}
}

// yield is a possible switch point when schedules are explored.
func (w *Worker) yield() {
	if len(w.gs) <= 1 {
		return
	}
	g := w.cur
	n := w.pick(true)
	w.switchTo(n, g)
}

// killAll ends leftover goroutines at the end of a path.
func (w *Worker) killAll() {
	w.killing = true
	for _, g := range w.gs[1:] {
		if g.done {
			continue
		}
		w.cur = g
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exit
	}
	w.gs = nil
}

// ---- channels

func (q *Chan) popRecv() *waiter {
	for len(q.recvq) > 0 {
		x := q.recvq[0]
		q.recvq = q.recvq[1:]
		if x.sel != nil && x.sel.done {
			continue
		}
		return x
	}
	return nil
}

func (q *Chan) popSend() *waiter {
	for len(q.sendq) > 0 {
		x := q.sendq[0]
		q.sendq = q.sendq[1:]
		if x.sel != nil && x.sel.done {
			continue
		}
		return x
	}
	return nil
}

func (x *waiter) complete(v Value, ok bool) {
	x.done, x.val, x.ok = true, v, ok
	if x.sel != nil {
		x.sel.done, x.sel.idx, x.sel.val, x.sel.ok = true, x.idx, v, ok
	}
}

// touch keeps what a channel was when the path first used it: channels that outlive a path start every path alike.
func (w *Worker) touch(c *Chan) {
	if c == nil || c.epoch == w.epoch || w.initDepth > 0 {
		return
	}
	old := *c
	c.epoch = w.epoch
	w.undoFn(func() { *c = old })
}

func (w *Worker) trySend(c *Chan, v Value) bool {
	if c.closed {
		panic(&goPanic{v: Iface{T: w.eng.rtErr, V: "send on closed channel"}, where: w.where()})
	}
	if r := c.popRecv(); r != nil {
		r.complete(v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (w *Worker) tryRecv(c *Chan) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if s := c.popSend(); s != nil {
			c.buf = append(c.buf, s.val)
			s.complete(nil, true)
		}
		return v, true, true
	}
	if s := c.popSend(); s != nil {
		v := s.val
		s.complete(nil, true)
		return v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (w *Worker) chanSend(c *Chan, v Value) {
	w.touch(c)
	if c == nil {
		w.block(func() bool { return false })
	}
	v = copyVal(v)
	if w.trySend(c, v) {
		return
	}
	x := &waiter{val: v}
	c.sendq = append(c.sendq, x)
	w.block(func() bool { return x.done || c.closed })
	if !x.done && c.closed {
		w.rtPanic("send on closed channel")
	}
}

func (w *Worker) chanRecv(c *Chan) (Value, bool) {
	w.touch(c)
	if c == nil {
		w.block(func() bool { return false })
	}
	if v, ok, done := w.tryRecv(c); done {
		return v, ok
	}
	x := &waiter{}
	c.recvq = append(c.recvq, x)
	w.block(func() bool { return x.done })
	return x.val, x.ok
}

func (w *Worker) chanClose(c *Chan) {
	w.touch(c)
	if c == nil {
		w.rtPanic("close of nil channel")
	}
	if c.closed {
		w.rtPanic("close of closed channel")
	}
	c.closed = true
	for {
		r := c.popRecv()
		if r == nil {
			break
		}
		r.complete(nil, false)
	}
}

func (cc *compiler) selectInstr(in *ssa.Select, dst int) cinstr {
	w := cc.w
	type st struct {
		ch, send operand
		dir      types.ChanDir
		et       types.Type
		hasSend  bool
	}
	var sts []st
	nrecv := 0
	for _, s := range in.States {
		x := st{ch: cc.op(s.Chan), dir: s.Dir, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			x.send = cc.op(s.Send)
			x.hasSend = true
		} else {
			nrecv++
		}
		sts = append(sts, x)
	}
	return func(fr *frame) int {
		result := func(idx int, v Value, ok bool) {
			t := make(Tuple, 2, 2+nrecv)
			t[0], t[1] = int64(idx), ok
			for i, s := range sts {
				if s.hasSend {
					continue
				}
				if i == idx && ok {
					t = append(t, v)
				} else {
					t = append(t, w.zero(s.et))
				}
			}
			fr.env[dst] = t
			w.curFr = fr
		}
		var rdy []int
		for i, s := range sts {
			c := s.ch.get(fr).(*Chan)
			if c == nil {
				continue
			}
			w.touch(c)
			if s.hasSend {
				hasR := false
				for _, r := range c.recvq {
					if r.sel == nil || !r.sel.done {
						hasR = true
					}
				}
				if c.closed || hasR || len(c.buf) < c.cap {
					rdy = append(rdy, i)
				}
			} else {
				hasS := false
				for _, r := range c.sendq {
					if r.sel == nil || !r.sel.done {
						hasS = true
					}
				}
				if len(c.buf) > 0 || hasS || c.closed {
					rdy = append(rdy, i)
				}
			}
		}
		if len(rdy) > 0 {
			i := rdy[0]
			if w.schedND && len(rdy) > 1 {
				i = rdy[w.choose(len(rdy))]
			}
			s := sts[i]
			c := s.ch.get(fr).(*Chan)
			if s.hasSend {
				w.trySend(c, copyVal(s.send.get(fr)))
				result(i, nil, false)
			} else {
				v, ok, _ := w.tryRecv(c)
				result(i, v, ok)
			}
			return ctlNext
		}
		if !in.Blocking {
			// give other goroutines a chance so that polling loops make progress
			result(-1, nil, false)
			w.spin()
			return ctlNext
		}
		ss := &selState{}
		for i, s := range sts {
			c := s.ch.get(fr).(*Chan)
			if c == nil {
				continue
			}
			x := &waiter{sel: ss, idx: i}
			if s.hasSend {
				x.val = copyVal(s.send.get(fr))
				c.sendq = append(c.sendq, x)
			} else {
				c.recvq = append(c.recvq, x)
			}
		}
		w.block(func() bool { return ss.done })
		if sts[ss.idx].hasSend {
			result(ss.idx, nil, false)
		} else {
			result(ss.idx, ss.val, ss.ok)
		}
		return ctlNext
	}
}

// spin lets other runnable goroutines proceed (used by non-blocking polls).
func (w *Worker) spin() {
	n, _ := w.side["spins"].(int)
	w.side["spins"] = n + 1
	if n%64 == 63 && len(w.gs) > 1 {
		g := w.cur
		w.switchTo(w.pick(false), g)
	}
}

// sleep blocks for d virtual nanoseconds.
func (w *Worker) sleep(d int64) {
	if d <= 0 {
		return
	}
	fired := false
	w.addTimer(d, func() { fired = true })
	w.block(func() bool { return fired })
}

func (w *Worker) addTimer(d int64, f func()) *vtimer {
	t := &vtimer{at: w.clock + d, fire: f}
	w.timers = append(w.timers, t)
	return t
}

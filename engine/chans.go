package main

import (
	"container/heap"
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
		}
		return w
	}
	return nil
}

func (it *Interp) hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

// tryRecv receives without blocking; ready reports whether it could.
func (it *Interp) tryRecv(ch *Chan) (v Value, ok, ready bool) {
	if len(ch.buf) > 0 {
		v = ch.buf[0]
		ch.buf = ch.buf[1:]
		if w := it.popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.done(nil, true)
		}
		return v, true, true
	}
	if w := it.popWaiter(&ch.sendq); w != nil {
		v = w.val
		w.done(nil, true)
		return v, true, true
	}
	if ch.closed {
		return it.zero(ch.elem), false, true
	}
	return nil, false, false
}

func (it *Interp) trySend(ch *Chan, v Value) bool {
	if ch.closed {
		panic(targetPanic{it.mkError("send on closed channel")})
	}
	if w := it.popWaiter(&ch.recvq); w != nil {
		w.done(v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	return false
}

func (it *Interp) recv(g *G, fr *Frame, ci *cInstr, ch *Chan) {
	commaOk := ci.ins.(*ssa.UnOp).CommaOk
	mk := func(v Value, ok bool) Value {
		if commaOk {
			return Tuple{v, it.c.Bool(ok)}
		}
		return v
	}
	if ch == nil {
		it.block(g, "recv nil chan")
		return
	}
	if v, ok, ready := it.tryRecv(ch); ready {
		fr.loc[ci.dst] = mk(v, ok)
		fr.pc++
		return
	}
	ch.recvq = append(ch.recvq, &waiter{g: g, done: func(v Value, ok bool) { it.complete(g, mk(v, ok)) }})
	it.block(g, fmt.Sprintf("recv chan%d", ch.id))
}

func (it *Interp) send(g *G, fr *Frame, ch *Chan, v Value) {
	if ch == nil {
		it.block(g, "send nil chan")
		return
	}
	v = copyVal(v)
	if it.trySend(ch, v) {
		fr.pc++
		return
	}
	ch.sendq = append(ch.sendq, &waiter{g: g, val: v, done: func(_ Value, ok bool) {
		it.complete(g, nil)
		if !ok {
			it.failLater(g, "send on closed channel")
		}
	}})
	it.block(g, fmt.Sprintf("send chan%d(cap %d)", ch.id, ch.cap))
}

// failLater makes a woken goroutine panic at once.
func (it *Interp) failLater(g *G, msg string) {
	fn := &Closure{host: func(it *Interp, g *G, a []Value) (Value, status) {
		panic(targetPanic{it.mkError(msg)})
	}}
	fr := it.pushSynth(g, fn, nil, 0, nil)
	fr.onRet = func(Value) {}
}

func (it *Interp) closeChan(ch *Chan) {
	if ch == nil {
		panic(targetPanic{it.mkError("close of nil channel")})
	}
	if ch.closed {
		panic(targetPanic{it.mkError("close of closed channel")})
	}
	ch.closed = true
	for {
		w := it.popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		w.done(it.zero(ch.elem), false)
	}
	for {
		w := it.popWaiter(&ch.sendq)
		if w == nil {
			break
		}
		w.done(nil, false)
	}
}

func (it *Interp) doSelect(g *G, fr *Frame, ci *cInstr) {
	sel := ci.ins.(*ssa.Select)
	n := len(sel.States)
	chans := make([]*Chan, n)
	vals := make([]Value, n)
	for i := range sel.States {
		chans[i] = it.get(fr, ci.args[2*i]).(*Chan)
		if sel.States[i].Send != nil {
			vals[i] = copyVal(it.get(fr, ci.args[2*i+1]))
		}
	}
	// result tuple: index, recvOk, recv_0 ... recv_n-1
	result := func(i int, v Value, ok bool) Value {
		t := Tuple{it.c.Const(64, uint64(int64(i))), it.c.Bool(ok)}
		for j, s := range sel.States {
			if s.Dir == types.RecvOnly {
				if j == i && v != nil {
					t = append(t, v)
				} else {
					t = append(t, it.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	var ready []int
	for i, s := range sel.States {
		ch := chans[i]
		if ch == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if ch.closed || len(ch.buf) < ch.cap || it.hasWaiter(ch.recvq) {
				ready = append(ready, i)
			}
		} else if len(ch.buf) > 0 || ch.closed || it.hasWaiter(ch.sendq) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && it.window && it.devLeft > 0 {
			k = it.chooseSched(len(ready), "select")
			if k > 0 {
				it.devLeft--
				it.selDev++
			}
		}
		i := ready[k]
		if sel.States[i].Dir == types.SendOnly {
			it.trySend(chans[i], vals[i])
			fr.loc[ci.dst] = result(i, nil, false)
		} else {
			v, ok, _ := it.tryRecv(chans[i])
			fr.loc[ci.dst] = result(i, v, ok)
		}
		fr.pc++
		return
	}
	if !sel.Blocking {
		fr.loc[ci.dst] = result(-1, nil, false)
		fr.pc++
		return
	}
	st := &selState{}
	why := "select"
	for i, s := range sel.States {
		i := i
		ch := chans[i]
		if ch == nil {
			continue
		}
		why += fmt.Sprintf(" chan%d", ch.id)
		if s.Dir == types.SendOnly {
			ch.sendq = append(ch.sendq, &waiter{g: g, val: vals[i], sel: st, done: func(_ Value, ok bool) {
				it.complete(g, result(i, nil, false))
				if !ok {
					it.failLater(g, "send on closed channel")
				}
			}})
		} else {
			ch.recvq = append(ch.recvq, &waiter{g: g, sel: st, done: func(v Value, ok bool) {
				it.complete(g, result(i, v, ok))
			}})
		}
	}
	// drop stale registrations of finished selects
	for _, ch := range chans {
		if ch != nil && len(ch.recvq) > 16 {
			var live []*waiter
			for _, w := range ch.recvq {
				if w.sel == nil || !w.sel.fired {
					live = append(live, w)
				}
			}
			ch.recvq = live
		}
	}
	it.block(g, why)
}

// --- time

func (it *Interp) addTimer(when int64, f func()) *timerEv {
	it.timerSeq++
	t := &timerEv{when: when, seq: it.timerSeq, f: f}
	heap.Push(&it.timers, t)
	return t
}

func (it *Interp) delTimer(t *timerEv) bool {
	if t == nil || t.idx < 0 {
		return false
	}
	heap.Remove(&it.timers, t.idx)
	return true
}

func (it *Interp) sleep(g *G, d int64) {
	it.block(g, "sleep")
	g.sleeping = true
	it.addTimer(it.now+d, func() {
		g.sleeping = false
		it.complete(g, nil)
	})
}

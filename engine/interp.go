package main

import (
	"sync/atomic"

	"container/heap"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type status int

const (
	rDone   status = iota // value is the result
	rRetry                // goroutine blocked: run the instruction again when woken
	rWait                 // goroutine blocked: the waker completes the instruction
	rPushed               // a frame was pushed; its return value is the result
)

type intrinsic func(it *Interp, g *G, args []Value) (Value, status)

type deferred struct {
	fn   *Closure
	args []Value
}

type Frame struct {
	fi        *FnInfo
	blk       int
	pc        int
	loc       []Value
	defers    []deferred
	unwinding bool
	kind      uint8       // 0 call, 1 deferred call, 2 goroutine root
	onRet     func(Value) // host continuation instead of storing to the caller
}

type pstate struct {
	val       Iface
	recovered bool
	where     string
}

type G struct {
	id       int
	name     string
	frames   []*Frame
	ready    bool
	dead     bool
	panics   []*pstate
	why      string // what it is blocked on
	sleeping bool
}

type timerEv struct {
	when int64
	seq  int
	f    func()
	idx  int
	dead bool
}
type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timerEv); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any     { o := *h; t := o[len(o)-1]; *h = o[:len(o)-1]; t.idx = -1; return t }

type targetPanic struct{ v Iface }

type pathEnd struct {
	kind string // "done","infeasible","bound","unsupported","violation"
	msg  string
}

const epoch2000 = int64(946684800) * 1e9

func (it *Interp) get(fr *Frame, r int32) Value {
	if r >= 0 {
		return fr.loc[r]
	}
	v := fr.fi.consts[-r-1]
	if g, ok := v.(globalRef); ok {
		return it.global(g.g)
	}
	return v
}

func (it *Interp) global(g *ssa.Global) *Value {
	if p, ok := it.globals[g]; ok {
		return p
	}
	p := new(Value)
	et := g.Type().Underlying().(*types.Pointer).Elem()
	*p = it.zero(et)
	it.globals[g] = p
	if h, ok := globalInit[g.String()]; ok {
		*p = h(it)
	} else if g.Pkg != nil && !it.initAllowed(g.Pkg.Pkg.Path()) && types.TypeString(et, nil) == "error" {
		*p = it.mkError(g.String())
	}
	return p
}

func (it *Interp) mkError(msg string) Iface {
	p := new(Value)
	*p = Struct{Str{s: msg}}
	return Iface{T: it.errorStringT, V: p}
}

func (it *Interp) mkErrorStr(msg Str) Iface {
	p := new(Value)
	*p = Struct{msg}
	return Iface{T: it.errorStringT, V: p}
}

func (it *Interp) rtPanic(msg string) {
	panic(targetPanic{it.mkError("runtime error: " + msg)})
}

func (it *Interp) top(g *G) *Frame { return g.frames[len(g.frames)-1] }

func (it *Interp) wake(g *G) {
	if !g.ready && !g.dead {
		g.ready = true
		g.why = ""
		it.runq = append(it.runq, g)
	}
}

// complete finishes the blocking instruction g is stopped at.
func (it *Interp) complete(g *G, v Value) {
	fr := it.top(g)
	ci := &fr.fi.blocks[fr.blk].code[fr.pc]
	if ci.dst >= 0 {
		fr.loc[ci.dst] = v
	}
	fr.pc++
	it.wake(g)
}

func (it *Interp) block(g *G, why string) {
	g.ready = false
	g.why = why
}

func (it *Interp) newG(fn *Closure, args []Value, name string) *G {
	g := &G{id: it.nextG, name: name}
	it.nextG++
	it.gs = append(it.gs, g)
	it.pushCall(g, fn, args, 2)
	it.wake(g)
	return g
}

func (it *Interp) pushCall(g *G, fn *Closure, args []Value, kind uint8) *Frame {
	if fn == nil {
		it.rtPanic("invalid memory address or nil pointer dereference (call of nil func)")
	}
	if fn.bi != nil || fn.host != nil {
		return it.pushSynth(g, fn, args, kind, nil)
	}
	fi := it.fnInfo(fn.fn)
	if fi.intr != nil {
		return it.pushSynth(g, fn, args, kind, fi.intr)
	}
	if it.trackFns {
		it.usedFns[fi]++
	}
	fr := &Frame{fi: fi, kind: kind}
	fr.loc = make([]Value, fi.nslots)
	copy(fr.loc, args)
	copy(fr.loc[fi.nparams:], fn.env)
	g.frames = append(g.frames, fr)
	if len(g.frames) > 2000 {
		panic(pathEnd{"bound", "call depth"})
	}
	it.enterBlock(fr, 0, -1)
	return fr
}

// pushSynth runs an engine-implemented function in a frame of its own.
func (it *Interp) pushSynth(g *G, fn *Closure, args []Value, kind uint8, in intrinsic) *Frame {
	f := in
	if f == nil {
		if fn.host != nil {
			f = fn.host
		} else {
			bi := fn.bi
			f = func(it *Interp, g *G, a []Value) (Value, status) { return it.builtin(g, bi, a), rDone }
		}
	}
	fi := &FnInfo{name: "synthetic", intr: f, nslots: 1, recover: -1}
	fi.blocks = []cBlock{{code: []cInstr{{op: oIntr, dst: 0}, {op: oRetDst, dst: -1}}}}
	fr := &Frame{fi: fi, kind: kind, loc: append([]Value{nil}, args...)}
	g.frames = append(g.frames, fr)
	return fr
}

func (it *Interp) enterBlock(fr *Frame, b, pred int) {
	fr.blk, fr.pc = b, 0
	cb := &fr.fi.blocks[b]
	if len(cb.phis) > 0 {
		pi := -1
		for i, p := range cb.preds {
			if p.Index == pred {
				pi = i
				break
			}
		}
		if len(cb.phis) == 1 {
			fr.loc[cb.phis[0].dst] = it.get(fr, cb.phis[0].edges[pi])
			return
		}
		tmp := make([]Value, len(cb.phis))
		for i := range cb.phis {
			tmp[i] = it.get(fr, cb.phis[i].edges[pi])
		}
		for i := range cb.phis {
			fr.loc[cb.phis[i].dst] = tmp[i]
		}
	}
}

// schedule runs until the harness goroutine ends.
func (it *Interp) schedule(main *G) {
	for {
		if main.dead {
			return
		}
		if len(it.runq) == 0 {
			// synctest.Wait has priority over time
			if len(it.waiters) > 0 {
				w := it.waiters[0]
				it.waiters = it.waiters[1:]
				it.complete(w, nil)
				continue
			}
			if it.timers.Len() == 0 {
				it.deadlock()
			}
			t := heap.Pop(&it.timers).(*timerEv)
			if t.when > it.now {
				it.now = t.when
				it.advances++
				if it.advances > it.cfg.MaxAdvances {
					panic(pathEnd{"bound", "time advances"})
				}
			}
			t.f()
			// all timers of one instant fire before anybody runs
			for it.timers.Len() > 0 && it.timers[0].when <= it.now {
				heap.Pop(&it.timers).(*timerEv).f()
			}
			continue
		}
		g := it.runq[0]
		it.runq = it.runq[1:]
		it.cur = g
		it.runG(g)
	}
}

func (it *Interp) deadlock() {
	var sb strings.Builder
	for _, g := range it.gs {
		if !g.dead {
			fmt.Fprintf(&sb, "g%d[%s] %s; ", g.id, g.why, it.where(g))
		}
	}
	it.violation("deadlock", "all goroutines blocked: "+sb.String())
	panic(pathEnd{"violation", "deadlock"})
}

func (it *Interp) where(g *G) string {
	var parts []string
	for i := len(g.frames) - 1; i >= 0 && len(parts) < 7; i-- {
		fr := g.frames[i]
		if fr.fi.fn == nil {
			continue
		}
		var pos token.Pos
		code := fr.fi.blocks[fr.blk].code
		if fr.pc < len(code) && code[fr.pc].ins != nil {
			pos = code[fr.pc].ins.Pos()
		}
		if pos == 0 {
			for j := fr.pc; j >= 0 && pos == 0; j-- {
				if j < len(code) && code[j].ins != nil {
					pos = code[j].ins.Pos()
				}
			}
		}
		p := it.prog.Fset.Position(pos)
		f := p.Filename
		if k := strings.LastIndex(f, "/"); k >= 0 {
			f = f[k+1:]
		}
		parts = append(parts, fmt.Sprintf("%s(%s:%d)", fr.fi.fn.Name(), f, p.Line))
	}
	return strings.Join(parts, "<-")
}

func (it *Interp) runG(g *G) {
	for g.ready && !g.dead {
		it.runSome(g)
	}
}

func (it *Interp) runSome(g *G) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			it.startPanic(g, tp.v)
		}
	}()
	for g.ready && !g.dead {
		it.steps++
		if it.steps > it.cfg.MaxSteps {
			panic(pathEnd{"bound", "step limit; in " + it.where(g)})
		}
		if it.steps&1023 == 0 {
			if m := atomic.LoadInt32(&it.ex.mem); m == 2 || m == 1 && it.steps > 1000000 {
				panic(pathEnd{"bound", "memory"})
			}
		}
		it.step(g)
	}
}

func (it *Interp) panicText(v Iface) string {
	switch x := v.V.(type) {
	case Str:
		return it.show(x)
	case *Value:
		if x != nil {
			if s, ok := (*x).(Struct); ok && len(s) > 0 {
				if st, ok := s[0].(Str); ok {
					return it.show(st)
				}
			}
		}
	}
	return fmt.Sprintf("%v", v.T)
}

func (it *Interp) startPanic(g *G, v Iface) {
	g.panics = append(g.panics, &pstate{val: v, where: it.where(g)})
	it.unwind(g)
}

// unwind continues a panic: runs the next deferred call of the top frame or
// pops it.
func (it *Interp) unwind(g *G) {
	for {
		if len(g.frames) == 0 {
			p := g.panics[len(g.panics)-1]
			it.violation("panic", "panic: "+it.panicText(p.val)+" at "+p.where)
			panic(pathEnd{"violation", "panic"})
		}
		fr := it.top(g)
		fr.unwinding = true
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			it.pushCall(g, d.fn, d.args, 1)
			return
		}
		if fr.kind == 1 && len(g.frames) >= 2 && g.frames[len(g.frames)-2].unwinding && len(g.panics) >= 2 {
			// a deferred call panicked while unwinding: the new panic replaces the old
			n := len(g.panics)
			g.panics = append(g.panics[:n-2], g.panics[n-1])
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
}

// ret returns v from the top frame.
func (it *Interp) ret(g *G, v Value) {
	fr := it.top(g)
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onRet != nil {
		fr.onRet(v)
		return
	}
	if len(g.frames) == 0 {
		g.dead = true
		g.ready = false
		return
	}
	caller := it.top(g)
	switch fr.kind {
	case 0:
		ci := &caller.fi.blocks[caller.blk].code[caller.pc]
		if ci.dst >= 0 {
			caller.loc[ci.dst] = v
		}
		caller.pc++
	case 1:
		if caller.unwinding {
			p := g.panics[len(g.panics)-1]
			if p.recovered {
				g.panics = g.panics[:len(g.panics)-1]
				caller.unwinding = false
				if len(caller.defers) > 0 {
					// run the remaining deferred calls normally, then return
					it.runRest(g, caller)
					return
				}
				it.recoverRet(g, caller)
				return
			}
			it.unwind(g)
		}
		// otherwise RunDefers is executed again
	}
}

func (it *Interp) runRest(g *G, fr *Frame) {
	n := len(fr.defers)
	if n == 0 {
		it.recoverRet(g, fr)
		return
	}
	d := fr.defers[n-1]
	fr.defers = fr.defers[:n-1]
	nf := it.pushCall(g, d.fn, d.args, 1)
	nf.onRet = func(Value) { it.runRest(g, fr) }
}

func (it *Interp) recoverRet(g *G, fr *Frame) {
	if fr.fi.recover >= 0 {
		it.enterBlock(fr, fr.fi.recover, -1)
		return
	}
	var v Value
	if fr.fi.fn != nil {
		res := fr.fi.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			v = it.zero(res.At(0).Type())
		default:
			v = it.zero(res)
		}
	}
	it.ret(g, v)
}

func (it *Interp) nilDeref() {
	it.rtPanic("invalid memory address or nil pointer dereference")
}

func (it *Interp) step(g *G) {
	fr := g.frames[len(g.frames)-1]
	ci := &fr.fi.blocks[fr.blk].code[fr.pc]
	switch ci.op {
	case oNop:
	case oIntr:
		v, st := fr.fi.intr(it, g, fr.loc[1:])
		switch st {
		case rDone:
			fr.loc[0] = v
		case rRetry, rWait, rPushed:
			return
		}
	case oRetDst:
		it.ret(g, fr.loc[0])
		return
	case oAlloc:
		p := new(Value)
		*p = it.zero(ci.typ)
		fr.loc[ci.dst] = p
	case oBin:
		fr.loc[ci.dst] = it.binop(ci, it.get(fr, ci.x), it.get(fr, ci.y))
	case oUn:
		x := it.get(fr, ci.x)
		switch ci.tok {
		case token.MUL:
			p := x.(*Value)
			if p == nil {
				it.nilDeref()
			}
			fr.loc[ci.dst] = copyVal(*p)
		case token.NOT:
			fr.loc[ci.dst] = it.c.BNot(x.(*Expr))
		case token.SUB:
			if f, ok := x.(float64); ok {
				fr.loc[ci.dst] = -f
			} else {
				fr.loc[ci.dst] = it.c.Neg(x.(*Expr))
			}
		case token.XOR:
			fr.loc[ci.dst] = it.c.Not(x.(*Expr))
		case token.ARROW:
			it.recv(g, fr, ci, x.(*Chan))
			return
		default:
			panic(unsupported("unop " + ci.tok.String()))
		}
	case oCall:
		it.doCall(g, fr, ci)
		return
	case oGo:
		fn, args := it.callee(fr, ci, ci.ins.(*ssa.Go).Common())
		if fn == nil {
			it.nilDeref()
		}
		name := ""
		if fn.fn != nil {
			name = fn.fn.Name()
		}
		it.newG(fn, args, name)
	case oDefer:
		fn, args := it.callee(fr, ci, ci.ins.(*ssa.Defer).Common())
		fr.defers = append(fr.defers, deferred{fn, args})
	case oChangeIface:
		fr.loc[ci.dst] = it.get(fr, ci.x)
	case oChangeType:
		fr.loc[ci.dst] = it.get(fr, ci.x)
	case oConvert, oMultiConvert:
		var xt types.Type
		switch x := ci.ins.(type) {
		case *ssa.Convert:
			xt = x.X.Type()
		case *ssa.MultiConvert:
			xt = x.X.Type()
		}
		fr.loc[ci.dst] = it.convert(xt, ci.typ, it.get(fr, ci.x))
	case oMakeIface:
		fr.loc[ci.dst] = Iface{T: ci.typ, V: copyVal(it.get(fr, ci.x))}
	case oMakeClosure:
		env := make([]Value, len(ci.args))
		for i, a := range ci.args {
			env[i] = it.get(fr, a)
		}
		fr.loc[ci.dst] = &Closure{fn: ci.ins.(*ssa.MakeClosure).Fn.(*ssa.Function), env: env}
	case oMakeMap:
		fr.loc[ci.dst] = it.newMap(ci.typ.Underlying().(*types.Map).Key())
	case oMakeChan:
		n := it.concretize(it.get(fr, ci.x).(*Expr), "chancap")
		if int64(n) < 0 {
			it.rtPanic("makechan: size out of range")
		}
		it.nextChan++
		fr.loc[ci.dst] = &Chan{id: it.nextChan, cap: int(n), elem: ci.typ.Underlying().(*types.Chan).Elem()}
	case oMakeSlice:
		fr.loc[ci.dst] = it.makeSlice(ci.typ, it.get(fr, ci.x).(*Expr), it.get(fr, ci.y).(*Expr))
	case oSlice:
		fr.loc[ci.dst] = it.slice(fr, ci)
	case oSlice2Arr:
		s := it.get(fr, ci.x).(Slice)
		n := ci.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			it.rtPanic("cannot convert slice to array pointer: length")
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.loc[ci.dst] = p
	case oFieldAddr:
		p := it.get(fr, ci.x).(*Value)
		if p == nil {
			it.nilDeref()
		}
		fr.loc[ci.dst] = &(*p).(Struct)[ci.k]
	case oField:
		fr.loc[ci.dst] = it.get(fr, ci.x).(Struct)[ci.k]
	case oIndexAddr:
		x := it.get(fr, ci.x)
		idx := it.get(fr, ci.y).(*Expr)
		switch s := x.(type) {
		case Slice:
			fr.loc[ci.dst] = &s[it.index(idx, len(s), ci)]
		case *Value:
			if s == nil {
				it.nilDeref()
			}
			a := (*s).(Array)
			fr.loc[ci.dst] = &a[it.index(idx, len(a), ci)]
		default:
			panic(unsupported(fmt.Sprintf("indexaddr %T", x)))
		}
	case oIndex:
		idx := it.get(fr, ci.y).(*Expr)
		switch s := it.get(fr, ci.x).(type) {
		case Array:
			fr.loc[ci.dst] = s[it.index(idx, len(s), ci)]
		case Str:
			fr.loc[ci.dst] = it.strByte(s, it.index(idx, s.Len(), ci))
		default:
			panic(unsupported("index"))
		}
	case oLookup:
		lk := ci.ins.(*ssa.Lookup)
		switch s := it.get(fr, ci.x).(type) {
		case Str:
			fr.loc[ci.dst] = it.strByte(s, it.index(it.get(fr, ci.y).(*Expr), s.Len(), ci))
		case *MapV:
			e := it.mapFind(s, it.get(fr, ci.y))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = it.zero(lk.X.Type().Underlying().(*types.Map).Elem())
			}
			if lk.CommaOk {
				fr.loc[ci.dst] = Tuple{v, it.c.Bool(e != nil)}
			} else {
				fr.loc[ci.dst] = v
			}
		}
	case oMapUpdate:
		m := it.get(fr, ci.x).(*MapV)
		if m == nil {
			panic(targetPanic{it.mkError("assignment to entry in nil map")})
		}
		it.mapSet(m, it.get(fr, ci.y), copyVal(it.get(fr, ci.z)))
	case oRange:
		switch x := it.get(fr, ci.x).(type) {
		case *MapV:
			fr.loc[ci.dst] = &MapIter{m: x}
		case Str:
			fr.loc[ci.dst] = &MapIter{str: &x}
		}
	case oNext:
		fr.loc[ci.dst] = it.next(it.get(fr, ci.x).(*MapIter))
	case oTypeAssert:
		fr.loc[ci.dst] = it.typeAssert(ci.ins.(*ssa.TypeAssert), it.get(fr, ci.x).(Iface))
	case oExtract:
		fr.loc[ci.dst] = it.get(fr, ci.x).(Tuple)[ci.k]
	case oJump:
		it.enterBlock(fr, fr.fi.blocks[fr.blk].succs[0], fr.blk)
		return
	case oIf:
		k := 1
		if it.branch(it.get(fr, ci.x).(*Expr), "") {
			k = 0
		}
		it.enterBlock(fr, fr.fi.blocks[fr.blk].succs[k], fr.blk)
		return
	case oReturn:
		var v Value
		switch len(ci.args) {
		case 0:
		case 1:
			v = copyVal(it.get(fr, ci.args[0]))
		default:
			t := make(Tuple, len(ci.args))
			for i, a := range ci.args {
				t[i] = copyVal(it.get(fr, a))
			}
			v = t
		}
		it.ret(g, v)
		return
	case oRunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			it.pushCall(g, d.fn, d.args, 1)
			return
		}
	case oPanic:
		panic(targetPanic{it.get(fr, ci.x).(Iface)})
	case oSend:
		it.send(g, fr, it.get(fr, ci.x).(*Chan), it.get(fr, ci.y))
		return
	case oSelect:
		it.doSelect(g, fr, ci)
		return
	case oStore:
		p := it.get(fr, ci.x).(*Value)
		if p == nil {
			it.nilDeref()
		}
		assign(p, it.get(fr, ci.y))
	default:
		panic(unsupported("opcode"))
	}
	fr.pc++
}

// index checks bounds and concretises a symbolic index.
func (it *Interp) index(e *Expr, n int, ci *cInstr) int {
	if e.IsConst() {
		i := sext(e.C, e.W)
		if i < 0 || i >= int64(n) {
			it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	w := e
	if e.W < 64 {
		w = it.c.ZExt(e, 64)
	}
	if !it.branch(it.c.Cmp(OpUlt, w, it.c.Const(64, uint64(n))), "idx") {
		it.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(it.concretize(w, "index"))
}

func (it *Interp) makeSlice(t types.Type, l, c *Expr) Value {
	et := t.Underlying().(*types.Slice).Elem()
	chk := func(e *Expr) int {
		if e.IsConst() {
			n := sext(e.C, e.W)
			if n < 0 || n > 1<<40 {
				it.rtPanic("makeslice: len out of range")
			}
			if n > 1<<22 {
				panic(pathEnd{"bound", fmt.Sprintf("make([]T, %d)", n)})
			}
			return int(n)
		}
		w := e
		if e.W < 64 {
			w = it.c.SExt(e, 64)
		}
		if it.branch(it.c.BOr(it.c.Cmp(OpSlt, w, it.c.Const(64, 0)), it.c.Cmp(OpSlt, it.c.Const(64, 1<<40), w)), "mklen") {
			it.rtPanic("makeslice: len out of range")
		}
		if it.branch(it.c.Cmp(OpSlt, it.c.Const(64, uint64(it.cfg.MaxMake)), w), "mkbig") {
			it.note("make of more than %d elements is outside the bound", it.cfg.MaxMake)
			panic(pathEnd{"cut", "large allocation"})
		}
		return int(it.concretize(w, "mklen"))
	}
	n := chk(l)
	k := n
	if c != l {
		k = chk(c)
	}
	if k < n {
		it.rtPanic("makeslice: cap out of range")
	}
	s := make(Slice, k)
	z := it.zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func (it *Interp) bound(fr *Frame, r int32, def int) int {
	if r == 1<<30 {
		return def
	}
	e := it.get(fr, r).(*Expr)
	if e.IsConst() {
		return int(sext(e.C, e.W))
	}
	return -999 // handled by caller
}

func (it *Interp) slice(fr *Frame, ci *cInstr) Value {
	x := it.get(fr, ci.x)
	var n, cp int
	var base Slice
	switch s := x.(type) {
	case Str:
		n, cp = s.Len(), s.Len()
	case Slice:
		n, cp = len(s), cap(s)
		base = s
	case *Value:
		if s == nil {
			it.nilDeref()
		}
		a := (*s).(Array)
		n, cp = len(a), len(a)
		base = Slice(a)
	default:
		panic(unsupported("slice"))
	}
	bnd := func(r int32, def, lo, hi int) int {
		if r == 1<<30 {
			return def
		}
		e := it.get(fr, r).(*Expr)
		if e.IsConst() {
			v := sext(e.C, e.W)
			if v < int64(lo) || v > int64(hi) {
				it.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", v, hi))
			}
			return int(v)
		}
		w := e
		if e.W < 64 {
			w = it.c.ZExt(e, 64)
		}
		in := it.c.BAnd(it.c.Cmp(OpUle, it.c.Const(64, uint64(lo)), w), it.c.Cmp(OpUle, w, it.c.Const(64, uint64(hi))))
		if !it.branch(in, "slicebound") {
			it.rtPanic("slice bounds out of range")
		}
		return int(it.concretize(w, "slicebound"))
	}
	max := bnd(ci.w, cp, 0, cp)
	_, isStr := x.(Str)
	lim := max
	if isStr {
		lim = n
	}
	hi := bnd(ci.z, n, 0, lim)
	lo := bnd(ci.y, 0, 0, hi)
	if s, ok := x.(Str); ok {
		if s.b != nil {
			return it.mkStr(s.b[lo:hi])
		}
		return Str{s: s.s[lo:hi]}
	}
	if base == nil {
		return Slice(nil)
	}
	return base[lo:hi:max]
}

func (it *Interp) next(i *MapIter) Value {
	if i.str != nil {
		s := *i.str
		if i.pos >= s.Len() {
			return Tuple{it.c.False, it.c.Const(64, 0), it.c.Const(32, 0)}
		}
		p := i.pos
		if s.b != nil {
			b := s.b[p]
			if !b.IsConst() {
				if !it.branch(it.c.Cmp(OpUlt, b, it.c.Const(8, 128)), "utf8") {
					panic(pathEnd{"cut", "range over non-ASCII symbolic string"})
				}
				i.pos++
				return Tuple{it.c.True, it.c.Const(64, uint64(p)), it.c.ZExt(b, 32)}
			}
			var raw []byte
			for k := p; k < len(s.b) && k < p+4 && s.b[k].IsConst(); k++ {
				raw = append(raw, byte(s.b[k].C))
			}
			r, sz := utf8.DecodeRune(raw)
			i.pos += sz
			return Tuple{it.c.True, it.c.Const(64, uint64(p)), it.c.Const(32, uint64(r))}
		}
		r, sz := utf8.DecodeRuneInString(s.s[p:])
		i.pos += sz
		return Tuple{it.c.True, it.c.Const(64, uint64(p)), it.c.Const(32, uint64(r))}
	}
	if i.m != nil {
		for i.pos < len(i.m.entries) {
			e := i.m.entries[i.pos]
			i.pos++
			if !e.dead {
				return Tuple{it.c.True, copyVal(e.k), copyVal(e.v)}
			}
		}
	}
	return Tuple{it.c.False, nil, nil}
}

func (it *Interp) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := it.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	it.implCache[k] = r
	return r
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (it *Interp) typeAssert(ta *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	at := ta.AssertedType
	if i, isI := at.Underlying().(*types.Interface); isI {
		if x.T != nil && it.implements(x.T, i) {
			ok = true
			v = x
		}
	} else if x.T != nil && (x.T == at || types.Identical(x.T, at)) {
		ok = true
		v = copyVal(x.V)
	}
	if ta.CommaOk {
		if !ok {
			v = it.zero(at)
		}
		return Tuple{v, it.c.Bool(ok)}
	}
	if !ok {
		it.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", x.T, at))
	}
	return v
}

func (it *Interp) callee(fr *Frame, ci *cInstr, cc *ssa.CallCommon) (*Closure, []Value) {
	if cc.IsInvoke() {
		recv := it.get(fr, ci.x).(Iface)
		if recv.T == nil {
			it.nilDeref()
		}
		fn := it.method(recv.T, cc.Method)
		args := make([]Value, 0, len(ci.args)+1)
		args = append(args, copyVal(recv.V))
		for _, a := range ci.args {
			args = append(args, copyVal(it.get(fr, a)))
		}
		return fn, args
	}
	args := make([]Value, len(ci.args))
	for i, a := range ci.args {
		args[i] = copyVal(it.get(fr, a))
	}
	f, _ := it.get(fr, ci.x).(*Closure)
	return f, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (it *Interp) method(t types.Type, m *types.Func) *Closure {
	k := methKey{t, m}
	if c, ok := it.methods[k]; ok {
		return c
	}
	fn := it.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("method " + m.Name() + " of " + t.String()))
	}
	c := &Closure{fn: fn}
	it.methods[k] = c
	return c
}

func (it *Interp) doCall(g *G, fr *Frame, ci *cInstr) {
	cc := ci.ins.(*ssa.Call).Common()
	fn, args := it.callee(fr, ci, cc)
	if fn == nil {
		it.nilDeref()
	}
	if fn.bi != nil {
		if fn.bi.Name() == "recover" {
			fr.loc[ci.dst] = it.doRecover(g)
			fr.pc++
			return
		}
		v := it.builtin(g, fn.bi, args)
		if ci.dst >= 0 {
			fr.loc[ci.dst] = v
		}
		fr.pc++
		return
	}
	var in intrinsic
	if fn.host != nil {
		in = fn.host
	} else {
		fi := it.fnInfo(fn.fn)
		in = fi.intr
	}
	if in != nil {
		v, st := in(it, g, args)
		if st == rDone {
			if ci.dst >= 0 {
				fr.loc[ci.dst] = v
			}
			fr.pc++
		}
		return
	}
	it.pushCall(g, fn, args, 0)
}

func (it *Interp) doRecover(g *G) Value {
	n := len(g.frames)
	// recover works only in a function called directly by the unwinding frame
	if n >= 2 && g.frames[n-1].kind == 1 && g.frames[n-2].unwinding && len(g.panics) > 0 {
		p := g.panics[len(g.panics)-1]
		if !p.recovered {
			p.recovered = true
			return p.val
		}
	}
	return Iface{}
}

func (it *Interp) builtin(g *G, bi *ssa.Builtin, args []Value) Value {
	c := it.c
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c.Const(64, uint64(x.Len()))
		case Slice:
			return c.Const(64, uint64(len(x)))
		case *MapV:
			if x == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(x.live))
		case *Chan:
			if x == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(x.buf)))
		case Array:
			return c.Const(64, uint64(len(x)))
		case *Value:
			return c.Const(64, uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Const(64, uint64(cap(x)))
		case *Chan:
			if x == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(x.cap))
		case Array:
			return c.Const(64, uint64(len(x)))
		}
	case "append":
		dst := args[0].(Slice)
		if len(args) == 1 {
			return dst
		}
		var src Slice
		switch s := args[1].(type) {
		case Slice:
			src = s
		case Str:
			src = it.bytesSlice(it.strBytes(s))
		}
		if len(src) == 0 {
			return dst
		}
		it.steps += int64(len(src) / 4)
		if len(dst)+len(src) <= cap(dst) {
			n := dst[:len(dst)+len(src)]
			// copy through temporaries in case of overlap
			tmp := make([]Value, len(src))
			for i := range src {
				tmp[i] = copyVal(src[i])
			}
			copy(n[len(dst):], tmp)
			return n
		}
		nc := 2 * cap(dst)
		if nc < len(dst)+len(src) {
			nc = len(dst) + len(src)
		}
		if nc < 8 {
			nc = 8
		}
		n := make(Slice, nc)
		for i := range dst {
			n[i] = copyVal(dst[i])
		}
		for i := range src {
			n[len(dst)+i] = copyVal(src[i])
		}
		var z Value
		st := bi.Type().(*types.Signature).Params().At(0).Type().Underlying()
		if sl, ok := st.(*types.Slice); ok {
			z = it.zero(sl.Elem())
		}
		for i := len(dst) + len(src); i < nc; i++ {
			n[i] = copyVal(z)
		}
		return n[:len(dst)+len(src)]
	case "copy":
		dst := args[0].(Slice)
		var src Slice
		switch s := args[1].(type) {
		case Slice:
			src = s
		case Str:
			src = it.bytesSlice(it.strBytes(s))
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		copy(dst, tmp)
		return c.Const(64, uint64(n))
	case "delete":
		if m := args[0].(*MapV); m != nil {
			it.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			x.entries, x.idx, x.live, x.symKeys = nil, map[string]int{}, 0, 0
		}
		return nil
	case "close":
		it.closeChan(args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "print", "println":
		return nil
	case "min", "max":
		sig := bi.Type().(*types.Signature)
		r := args[0]
		for _, a := range args[1:] {
			var lt *Expr
			switch x := a.(type) {
			case *Expr:
				b := sig.Params().At(0).Type().Underlying().(*types.Basic)
				_, sgn := basicWidth(b)
				op := OpUlt
				if sgn {
					op = OpSlt
				}
				lt = c.Cmp(op, x, r.(*Expr))
				if bi.Name() == "max" {
					lt = c.Cmp(op, r.(*Expr), x)
				}
				r = c.Ite(lt, x, r.(*Expr))
			case float64:
				if bi.Name() == "min" {
					r = math.Min(x, r.(float64))
				} else {
					r = math.Max(x, r.(float64))
				}
			default:
				panic(unsupported("min/max"))
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			it.nilDeref()
		}
		return args[0]
	case "SliceData":
		return sliceData{args[0].(Slice)}
	case "StringData":
		return strData{args[0].(Str)}
	case "String":
		n := int(it.concretize(args[1].(*Expr), "unsafe.String"))
		switch x := args[0].(type) {
		case sliceData:
			return it.mkStr(it.sliceBytes(x.s[:n]))
		case strData:
			return Str{s: x.s.s[:n]}
		}
	case "Slice":
		n := int(it.concretize(args[1].(*Expr), "unsafe.Slice"))
		switch x := args[0].(type) {
		case sliceData:
			return x.s[:n]
		case strData:
			return it.bytesSlice(it.strBytes(x.s)[:n])
		}
	}
	panic(unsupported("builtin " + bi.Name()))
}

func (it *Interp) binop(ci *cInstr, x, y Value) Value {
	c := it.c
	switch ci.tok {
	case token.EQL:
		return it.eq(ci.typ, x, y)
	case token.NEQ:
		return c.BNot(it.eq(ci.typ, x, y))
	}
	switch a := x.(type) {
	case *Expr:
		b := y.(*Expr)
		switch ci.tok {
		case token.SHL, token.SHR:
			yb := ci.ins.(*ssa.BinOp).Y.Type().Underlying().(*types.Basic)
			if _, ysigned := basicWidth(yb); ysigned {
				neg := c.Cmp(OpSlt, b, c.Const(b.W, 0))
				if it.branch(neg, "shift") {
					it.rtPanic("negative shift amount")
				}
			}
			w := a.W
			var big *Expr = c.False
			switch {
			case b.W > w:
				big = c.Cmp(OpUlt, c.Const(b.W, uint64(w)-1), b)
				b = c.Extract(b, w-1, 0)
			case b.W < w:
				b = c.ZExt(b, w)
			}
			op := OpShl
			if ci.tok == token.SHR {
				op = OpLShr
				if ci.sgn {
					op = OpAShr
				}
			}
			r := c.Bin(op, a, b)
			if !big.IsFalse() {
				ov := c.Const(w, 0)
				if op == OpAShr {
					ov = c.Bin(OpAShr, a, c.Const(w, uint64(w)-1))
				}
				r = c.Ite(big, ov, r)
			}
			return r
		}
		if a.W == 0 {
			switch ci.tok {
			case token.AND, token.LAND:
				return c.BAnd(a, b)
			case token.OR, token.LOR:
				return c.BOr(a, b)
			}
		}
		switch ci.tok {
		case token.ADD:
			return c.Bin(OpAdd, a, b)
		case token.SUB:
			return c.Bin(OpSub, a, b)
		case token.MUL:
			return c.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if it.branch(c.Eq(b, c.Const(b.W, 0)), "div0") {
				it.rtPanic("integer divide by zero")
			}
			op := OpUDiv
			switch {
			case ci.tok == token.QUO && ci.sgn:
				op = OpSDiv
			case ci.tok == token.REM && ci.sgn:
				op = OpSRem
			case ci.tok == token.REM:
				op = OpURem
			}
			return c.Bin(op, a, b)
		case token.AND:
			return c.Bin(OpAnd, a, b)
		case token.OR:
			return c.Bin(OpOr, a, b)
		case token.XOR:
			return c.Bin(OpXor, a, b)
		case token.AND_NOT:
			return c.Bin(OpAnd, a, c.Not(b))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OpUlt, OpUle
			if ci.sgn {
				lt, le = OpSlt, OpSle
			}
			switch ci.tok {
			case token.LSS:
				return c.Cmp(lt, a, b)
			case token.LEQ:
				return c.Cmp(le, a, b)
			case token.GTR:
				return c.Cmp(lt, b, a)
			default:
				return c.Cmp(le, b, a)
			}
		}
	case float64:
		b := y.(float64)
		switch ci.tok {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	case Str:
		b := y.(Str)
		switch ci.tok {
		case token.ADD:
			if a.b == nil && b.b == nil {
				return Str{s: a.s + b.s}
			}
			n := make([]*Expr, 0, a.Len()+b.Len())
			n = append(n, it.strBytes(a)...)
			n = append(n, it.strBytes(b)...)
			return it.mkStr(n)
		case token.LSS:
			return it.strLess(a, b)
		case token.GTR:
			return it.strLess(b, a)
		case token.LEQ:
			return c.BNot(it.strLess(b, a))
		case token.GEQ:
			return c.BNot(it.strLess(a, b))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s %T", ci.tok, x)))
}

func (it *Interp) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			if u, ok := v.(UPtr); ok {
				return u
			}
			return UPtr{v}
		case t.Info()&types.IsInteger != 0:
			w, _ := basicWidth(t)
			switch x := v.(type) {
			case *Expr:
				fb := fu.(*types.Basic)
				_, fs := basicWidth(fb)
				switch {
				case x.W == w:
					return x
				case x.W > w:
					return it.c.Extract(x, w-1, 0)
				case fs:
					return it.c.SExt(x, w)
				default:
					return it.c.ZExt(x, w)
				}
			case float64:
				_, ts := basicWidth(t)
				if ts {
					return it.c.Const(w, uint64(int64(x)))
				}
				return it.c.Const(w, uint64(x))
			case UPtr:
				return it.c.Const(w, 1)
			}
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Expr:
				_, fs := basicWidth(fu.(*types.Basic))
				k := it.concretize(x, "float")
				if fs {
					return float64(sext(k, x.W))
				}
				return float64(k)
			}
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if b, ok := fu.(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					var rs []rune
					for _, e := range x {
						rs = append(rs, rune(it.concretize(e.(*Expr), "rune")))
					}
					return Str{s: string(rs)}
				}
				return it.mkStr(it.sliceBytes(x))
			case *Expr:
				return Str{s: string(rune(sext(it.concretize(x, "rune"), x.W)))}
			}
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			if b := t.Elem().Underlying().(*types.Basic); b.Kind() == types.Int32 {
				var r Slice
				if s.b != nil {
					for _, e := range s.b {
						if !it.branch(it.c.Cmp(OpUlt, e, it.c.Const(8, 128)), "utf8") {
							panic(pathEnd{"cut", "non-ASCII rune conversion"})
						}
						r = append(r, it.c.ZExt(e, 32))
					}
					return r
				}
				r = Slice{}
				for _, x := range s.s {
					r = append(r, it.c.Const(32, uint64(x)))
				}
				return r
			}
			r := it.bytesSlice(it.strBytes(s))
			if r == nil {
				r = Slice{}
			}
			return r
		}
		return v
	case *types.Pointer:
		if u, ok := v.(UPtr); ok {
			if p, ok := u.v.(*Value); ok {
				return p
			}
			return u.v
		}
		return v
	default:
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %v -> %v (%T)", from, to, v)))
}

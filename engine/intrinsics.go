package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vPkg = "github.com/singchia/geminio/zzverif/v"

type muState struct {
	locked  bool
	readers int
	queue   []muWaiter
}
type muWaiter struct {
	g      *G
	writer bool
	val    Value
}

type wgState struct {
	n int64
	q []*G
}

func (it *Interp) mu(p *Value) *muState {
	if p == nil {
		it.nilDeref()
	}
	m := it.mus[p]
	if m == nil {
		m = &muState{}
		it.mus[p] = m
	}
	return m
}

func (it *Interp) muGrant(m *muState) {
	for len(m.queue) > 0 {
		h := m.queue[0]
		if h.writer {
			if m.locked || m.readers > 0 {
				return
			}
			m.locked = true
		} else {
			if m.locked {
				return
			}
			m.readers++
		}
		m.queue = m.queue[1:]
		it.complete(h.g, h.val)
	}
}

func lockW(it *Interp, g *G, a []Value) (Value, status) {
	m := it.mu(a[0].(*Value))
	if !m.locked && m.readers == 0 && len(m.queue) == 0 {
		m.locked = true
		return nil, rDone
	}
	m.queue = append(m.queue, muWaiter{g: g, writer: true})
	it.block(g, "lock")
	return nil, rWait
}

func tryLockW(it *Interp, g *G, a []Value) (Value, status) {
	m := it.mu(a[0].(*Value))
	if !m.locked && m.readers == 0 {
		m.locked = true
		return it.c.True, rDone
	}
	return it.c.False, rDone
}

func unlockW(it *Interp, g *G, a []Value) (Value, status) {
	m := it.mu(a[0].(*Value))
	if !m.locked {
		it.rtPanic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	it.muGrant(m)
	return nil, rDone
}

func lockR(it *Interp, g *G, a []Value) (Value, status) {
	m := it.mu(a[0].(*Value))
	if !m.locked && len(m.queue) == 0 {
		m.readers++
		return nil, rDone
	}
	m.queue = append(m.queue, muWaiter{g: g})
	it.block(g, "rlock")
	return nil, rWait
}

func tryLockR(it *Interp, g *G, a []Value) (Value, status) {
	m := it.mu(a[0].(*Value))
	if !m.locked && len(m.queue) == 0 {
		m.readers++
		return it.c.True, rDone
	}
	return it.c.False, rDone
}

func unlockR(it *Interp, g *G, a []Value) (Value, status) {
	m := it.mu(a[0].(*Value))
	if m.readers == 0 {
		it.rtPanic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	it.muGrant(m)
	return nil, rDone
}

func (it *Interp) smap(p *Value) *MapV {
	if p == nil {
		it.nilDeref()
	}
	m := it.syncMaps[p]
	if m == nil {
		m = it.newMap(types.NewInterfaceType(nil, nil))
		it.syncMaps[p] = m
	}
	return m
}

func loadOr(e *mapEntry) Value {
	if e == nil {
		return Iface{}
	}
	return e.v
}

// callThen calls fn and hands its result to cont.
func (it *Interp) callThen(g *G, fn *Closure, args []Value, cont func(Value)) {
	fr := it.pushCall(g, fn, args, 0)
	fr.onRet = cont
}

func (it *Interp) hostStr(v Value) string {
	s := v.(Str)
	if s.b != nil {
		return it.show(s)
	}
	return s.s
}

func (it *Interp) show(s Str) string {
	if s.b == nil {
		return s.s
	}
	bs := make([]byte, len(s.b))
	for i, e := range s.b {
		bs[i] = byte(it.c.Eval(e))
	}
	return string(bs)
}

// showVal renders a value under the current model, as fmt's %v renders the
// kinds v.Observe accepts.
func (it *Interp) showVal(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "<nil>"
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsBoolean != 0:
				return strconv.FormatBool(it.c.Eval(x.V.(*Expr)) == 1)
			case b.Info()&types.IsInteger != 0:
				w, s := basicWidth(b)
				u := it.c.Eval(x.V.(*Expr))
				if s {
					return strconv.FormatInt(sext(u, w), 10)
				}
				return strconv.FormatUint(u, 10)
			}
		}
		return it.showVal(x.V)
	case Str:
		return strconv.Quote(it.show(x))
	case Slice:
		bs := make([]byte, len(x))
		for i := range x {
			e, ok := x[i].(*Expr)
			if !ok {
				return "?"
			}
			bs[i] = byte(it.c.Eval(e))
		}
		return fmt.Sprintf("%x", bs)
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if s, ok := (*x).(Struct); ok && len(s) > 0 {
			if st, ok := s[0].(Str); ok {
				return strconv.Quote(it.show(st))
			}
		}
		return "ptr"
	}
	return fmt.Sprintf("%T", v)
}

func (it *Interp) nondet(name Value, w uint8) *Expr {
	n := it.hostStr(name)
	k := it.names[n]
	it.names[n]++
	full := fmt.Sprintf("%s#%d", n, k)
	e := it.c.Var(full, w)
	it.nondets = append(it.nondets, nondet{full, e})
	return e
}

func (it *Interp) nondetBytes(name Value, n int) []*Expr {
	r := make([]*Expr, n)
	for i := range r {
		r[i] = it.nondet(Str{s: fmt.Sprintf("%s[%d]", it.hostStr(name), i)}, 8)
	}
	return r
}

func (it *Interp) atomicPtr(v Value) *Value {
	p := v.(*Value)
	if p == nil {
		it.nilDeref()
	}
	return p
}

const hPkg = modPath + "/zzverif/h"

// redirects: library functions that need reflection, by harness/h/std.go.
var redirects = map[string]string{"sort.Slice": "stdSortSlice", "sort.SliceStable": "stdSortSlice", "sort.SliceIsSorted": "stdSliceIsSorted",
	"errors.Is": "stdErrorsIs", "errors.As": "stdErrorsAs", "context.WithValue": "stdWithValue",
	"fmt.Fprintf": "stdFprintf", "fmt.Fprint": "stdFprint", "fmt.Fprintln": "stdFprintln"}

func lookupIntrinsic(fi *FnInfo) intrinsic {
	n := fi.name
	if f, ok := intrinsics[n]; ok {
		return f
	}
	if strings.HasPrefix(fi.pkgPath, "github.com/jumboframes/armorigo/log") {
		fn := fi.fn
		return func(it *Interp, g *G, a []Value) (Value, status) {
			res := fn.Signature.Results()
			switch res.Len() {
			case 0:
				return nil, rDone
			case 1:
				return it.zero(res.At(0).Type()), rDone
			}
			return it.zero(res), rDone
		}
	}
	if fi.pkgPath == "sync/atomic" {
		base := n[strings.LastIndex(n, ".")+1:]
		recv := ""
		if i := strings.Index(n, ")."); i > 0 {
			recv = n[strings.LastIndex(n[:i], ".")+1 : i]
			if j := strings.Index(recv, "["); j > 0 {
				recv = recv[:j]
			}
		}
		return atomicIntrinsic(fi.fn, recv, base)
	}
	return nil
}

// atomicIntrinsic implements sync/atomic functions and methods. Interleaving
// happens only at scheduling points, so each is one step.
func atomicIntrinsic(fn *ssa.Function, recv, base string) intrinsic {
	slot := func(it *Interp, v Value) *Value {
		p := it.atomicPtr(v)
		switch recv {
		case "":
			return p
		}
		s := (*p).(Struct)
		return &s[len(s)-1]
	}
	if recv == "Bool" {
		// Bool keeps a uint32
		slot2 := func(it *Interp, v Value) *Value { s := (*it.atomicPtr(v)).(Struct); return &s[len(s)-1] }
		toB := func(it *Interp, v Value) *Expr { return it.c.BNot(it.c.Eq(v.(*Expr), it.c.Const(32, 0))) }
		frB := func(it *Interp, b Value) Value { return it.c.Ite(b.(*Expr), it.c.Const(32, 1), it.c.Const(32, 0)) }
		switch base {
		case "Load":
			return func(it *Interp, g *G, a []Value) (Value, status) { return toB(it, *slot2(it, a[0])), rDone }
		case "Store":
			return func(it *Interp, g *G, a []Value) (Value, status) {
				*slot2(it, a[0]) = frB(it, a[1])
				return nil, rDone
			}
		case "Swap":
			return func(it *Interp, g *G, a []Value) (Value, status) {
				p := slot2(it, a[0])
				o := toB(it, *p)
				*p = frB(it, a[1])
				return o, rDone
			}
		case "CompareAndSwap":
			return func(it *Interp, g *G, a []Value) (Value, status) {
				p := slot2(it, a[0])
				if it.branch(it.c.Eq(toB(it, *p), a[1].(*Expr)), "cas") {
					*p = frB(it, a[2])
					return it.c.True, rDone
				}
				return it.c.False, rDone
			}
		}
	}
	isValue := recv == "Value"
	if isValue {
		// atomic.Value: the slot is an interface
		slot = func(it *Interp, v Value) *Value { s := (*it.atomicPtr(v)).(Struct); return &s[0] }
	}
	isPtr := recv == "Pointer"
	norm := func(it *Interp, v Value, t types.Type) Value {
		if isPtr {
			if u, ok := v.(UPtr); ok {
				if p, ok := u.v.(*Value); ok {
					return p
				}
				return u.v
			}
		}
		return v
	}
	switch {
	case strings.HasPrefix(base, "Load"):
		return func(it *Interp, g *G, a []Value) (Value, status) { return norm(it, *slot(it, a[0]), nil), rDone }
	case strings.HasPrefix(base, "Store"):
		return func(it *Interp, g *G, a []Value) (Value, status) {
			if isValue && a[1].(Iface).T == nil {
				panic(targetPanic{it.mkError("sync/atomic: store of nil value into Value")})
			}
			*slot(it, a[0]) = a[1]
			return nil, rDone
		}
	case strings.HasPrefix(base, "Add"):
		return func(it *Interp, g *G, a []Value) (Value, status) {
			p := slot(it, a[0])
			*p = it.c.Bin(OpAdd, (*p).(*Expr), a[1].(*Expr))
			return *p, rDone
		}
	case strings.HasPrefix(base, "And"), strings.HasPrefix(base, "Or"):
		op := OpAnd
		if strings.HasPrefix(base, "Or") {
			op = OpOr
		}
		return func(it *Interp, g *G, a []Value) (Value, status) {
			p := slot(it, a[0])
			o := *p
			*p = it.c.Bin(op, (*p).(*Expr), a[1].(*Expr))
			return o, rDone
		}
	case strings.HasPrefix(base, "Swap"):
		return func(it *Interp, g *G, a []Value) (Value, status) {
			p := slot(it, a[0])
			o := norm(it, *p, nil)
			*p = a[1]
			return o, rDone
		}
	case strings.HasPrefix(base, "CompareAndSwap"):
		return func(it *Interp, g *G, a []Value) (Value, status) {
			p := slot(it, a[0])
			if it.branch(it.eq(types.Typ[types.Int], norm(it, *p, nil), a[1]), "cas") {
				*p = a[2]
				return it.c.True, rDone
			}
			return it.c.False, rDone
		}
	}
	return nil
}

var globalInit map[string]func(*Interp) Value

func init() {
	globalInit = map[string]func(*Interp) Value{
		"time.Local": func(it *Interp) Value {
			g := it.prog.ImportedPackage("time").Var("localLoc")
			return it.global(g)
		},
		"time.UTC": func(it *Interp) Value {
			g := it.prog.ImportedPackage("time").Var("utcLoc")
			return it.global(g)
		},
		"internal/poll.ErrDeadlineExceeded": func(it *Interp) Value {
			t := it.prog.ImportedPackage("internal/poll").Type("DeadlineExceededError").Type()
			p := new(Value)
			*p = it.zero(t)
			return Iface{T: types.NewPointer(t), V: p}
		},
		"os.ErrDeadlineExceeded": func(it *Interp) Value {
			return *it.global(it.prog.ImportedPackage("internal/poll").Var("ErrDeadlineExceeded"))
		},
		"crypto/rand.Reader": func(it *Interp) Value {
			for _, pn := range []string{"crypto/internal/rand", "crypto/rand"} {
				if p := it.prog.ImportedPackage(pn); p != nil && p.Type("reader") != nil {
					t := p.Type("reader").Type()
					return Iface{T: t, V: it.zero(t)}
				}
			}
			panic(unsupported("crypto/rand.Reader"))

		},
	}
}

func (it *Interp) deref(v Value) Value { return *(it.atomicPtr(v)) }

func (it *Interp) randRead(s Slice) {
	for i := range s {
		if it.randSym {
			s[i] = it.nondet(Str{s: "crand"}, 8)
		} else {
			it.randCtr++
			h := sha256.Sum256([]byte(strconv.Itoa(it.randCtr)))
			s[i] = it.c.Const(8, uint64(h[0]))
		}
	}
}

func bytesEqual(it *Interp, a, b Value) *Expr {
	get := func(v Value) Str {
		switch x := v.(type) {
		case Str:
			return x
		case Slice:
			return it.mkStr(it.sliceBytes(x))
		}
		panic("bytesEqual")
	}
	return it.strEq(get(a), get(b))
}

func (it *Interp) indexByte(b []*Expr, c *Expr) *Expr {
	r := it.c.Const(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = it.c.Ite(it.c.Eq(b[i], c), it.c.Const(64, uint64(i)), r)
	}
	if !r.IsConst() {
		return it.c.Const(64, it.concretize(r, "IndexByte"))
	}
	return r
}

func (it *Interp) timerStruct(ch *Chan) *Value {
	// time.Timer / time.Ticker: C first, initialised flag after it
	p := new(Value)
	return p
}

type hostTimer struct {
	ev     *timerEv
	period int64
	ch     *Chan
	fn     *Closure
	self   *Value
}

func (it *Interp) timeNow() Value {
	sec := it.now / 1e9
	nsec := it.now % 1e9
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	loc := *it.global(it.prog.ImportedPackage("time").Var("Local"))
	return Struct{it.c.Const(64, uint64(nsec)), it.c.Const(64, uint64(sec+unixToInternal)), loc}
}

func (it *Interp) fireTimer(t *hostTimer) {
	t.ev = nil
	if t.fn != nil {
		it.newG(t.fn, nil, "AfterFunc")
	} else {
		if len(t.ch.buf) < t.ch.cap || it.hasWaiter(t.ch.recvq) {
			it.trySend(t.ch, it.timeNow())
		}
	}
	if t.period > 0 {
		t.ev = it.addTimer(it.now+t.period, func() { it.fireTimer(t) })
	}
}

func (it *Interp) newTimerObj(typ string, d, period int64, fn *Closure) Value {
	st := it.prog.ImportedPackage("time").Type(typ).Type()
	p := new(Value)
	*p = it.zero(st)
	t := &hostTimer{period: period, fn: fn, self: p}
	if fn == nil {
		it.nextChan++
		tt := it.prog.ImportedPackage("time").Type("Time").Type()
		t.ch = &Chan{id: it.nextChan, cap: 1, elem: tt}
		(*p).(Struct)[0] = t.ch
	}
	it.hostObj[p] = t
	if d < 0 {
		d = 0
	}
	t.ev = it.addTimer(it.now+d, func() { it.fireTimer(t) })
	return p
}

func (it *Interp) i64(v Value, tag string) int64 {
	e := v.(*Expr)
	return sext(it.concretize(e, tag), e.W)
}

func (it *Interp) stopTimer(v Value) bool {
	t, _ := it.hostObj[it.atomicPtr(v)].(*hostTimer)
	if t == nil {
		panic(targetPanic{it.mkError("time: Stop called on uninitialized Timer")})
	}
	ok := t.ev != nil
	it.delTimer(t.ev)
	t.ev = nil
	if t.ch != nil {
		t.ch.buf = nil // Go 1.23 semantics: no stale value after Stop
	}
	return ok
}

var intrinsics map[string]intrinsic

func init() {
	nop := func(it *Interp, g *G, a []Value) (Value, status) { return nil, rDone }
	intrinsics = map[string]intrinsic{
		// --- sync
		"(*sync.Mutex).Lock": lockW, "(*sync.Mutex).Unlock": unlockW, "(*sync.Mutex).TryLock": tryLockW,
		"(*sync.RWMutex).Lock": lockW, "(*sync.RWMutex).Unlock": unlockW, "(*sync.RWMutex).TryLock": tryLockW,
		"(*sync.RWMutex).RLock": lockR, "(*sync.RWMutex).RUnlock": unlockR, "(*sync.RWMutex).TryRLock": tryLockR,
		"(*sync.WaitGroup).Add": func(it *Interp, g *G, a []Value) (Value, status) {
			w := it.wg(a[0])
			w.n += it.i64(a[1], "wg")
			if w.n < 0 {
				panic(targetPanic{it.mkError("sync: negative WaitGroup counter")})
			}
			it.wgWake(w)
			return nil, rDone
		},
		"(*sync.WaitGroup).Done": func(it *Interp, g *G, a []Value) (Value, status) {
			w := it.wg(a[0])
			w.n--
			if w.n < 0 {
				panic(targetPanic{it.mkError("sync: negative WaitGroup counter")})
			}
			it.wgWake(w)
			return nil, rDone
		},
		"(*sync.WaitGroup).Wait": func(it *Interp, g *G, a []Value) (Value, status) {
			w := it.wg(a[0])
			if w.n == 0 {
				return nil, rDone
			}
			w.q = append(w.q, g)
			it.block(g, "waitgroup")
			return nil, rWait
		},
		"(*sync.Map).Load": func(it *Interp, g *G, a []Value) (Value, status) {
			e := it.mapFind(it.smap(a[0].(*Value)), a[1])
			return Tuple{loadOr(e), it.c.Bool(e != nil)}, rDone
		},
		"(*sync.Map).Store": func(it *Interp, g *G, a []Value) (Value, status) {
			it.mapSet(it.smap(a[0].(*Value)), a[1], a[2])
			return nil, rDone
		},
		"(*sync.Map).Swap": func(it *Interp, g *G, a []Value) (Value, status) {
			m := it.smap(a[0].(*Value))
			e := it.mapFind(m, a[1])
			old := loadOr(e)
			if e != nil {
				e.v = a[2]
			} else {
				it.mapSet(m, a[1], a[2])
			}
			return Tuple{old, it.c.Bool(e != nil)}, rDone
		},
		"(*sync.Map).LoadOrStore": func(it *Interp, g *G, a []Value) (Value, status) {
			m := it.smap(a[0].(*Value))
			e := it.mapFind(m, a[1])
			if e != nil {
				return Tuple{e.v, it.c.True}, rDone
			}
			it.mapSet(m, a[1], a[2])
			return Tuple{a[2], it.c.False}, rDone
		},
		"(*sync.Map).LoadAndDelete": func(it *Interp, g *G, a []Value) (Value, status) {
			e := it.mapDelete(it.smap(a[0].(*Value)), a[1])
			return Tuple{loadOr(e), it.c.Bool(e != nil)}, rDone
		},
		"(*sync.Map).Delete": func(it *Interp, g *G, a []Value) (Value, status) {
			it.mapDelete(it.smap(a[0].(*Value)), a[1])
			return nil, rDone
		},
		"(*sync.Map).CompareAndSwap": func(it *Interp, g *G, a []Value) (Value, status) {
			e := it.mapFind(it.smap(a[0].(*Value)), a[1])
			if e != nil && it.branch(it.eq(nil, e.v, a[2]), "cas") {
				e.v = a[3]
				return it.c.True, rDone
			}
			return it.c.False, rDone
		},
		"(*sync.Map).CompareAndDelete": func(it *Interp, g *G, a []Value) (Value, status) {
			m := it.smap(a[0].(*Value))
			e := it.mapFind(m, a[1])
			if e != nil && it.branch(it.eq(nil, e.v, a[2]), "cas") {
				it.mapDelete(m, a[1])
				return it.c.True, rDone
			}
			return it.c.False, rDone
		},
		"(*sync.Map).Clear": func(it *Interp, g *G, a []Value) (Value, status) {
			delete(it.syncMaps, a[0].(*Value))
			return nil, rDone
		},
		"(*sync.Map).Range": func(it *Interp, g *G, a []Value) (Value, status) {
			m := it.smap(a[0].(*Value))
			fn := a[1].(*Closure)
			var es []*mapEntry
			for _, e := range m.entries {
				if !e.dead {
					es = append(es, e)
				}
			}
			i := 0
			var stepFn func(v Value)
			stepFn = func(v Value) {
				if v != nil && !it.branch(v.(*Expr), "range") {
					it.complete(g, nil)
					return
				}
				for i < len(es) && es[i].dead {
					i++
				}
				if i >= len(es) {
					it.complete(g, nil)
					return
				}
				e := es[i]
				i++
				it.callThen(g, fn, []Value{e.k, e.v}, stepFn)
			}
			stepFn(nil)
			return nil, rPushed
		},
		"(*sync.Pool).Put": nop,
		"(*sync.Pool).Get": func(it *Interp, g *G, a []Value) (Value, status) {
			s := it.deref(a[0]).(Struct)
			f, _ := s[len(s)-1].(*Closure)
			if f == nil {
				return Iface{}, rDone
			}
			it.callThen(g, f, nil, func(v Value) { it.complete(g, v) })
			return nil, rPushed
		},
		"internal/race.Enable": nop, "internal/race.Disable": nop,
		// --- runtime
		"runtime.Gosched": func(it *Interp, g *G, a []Value) (Value, status) {
			fr := it.top(g)
			fr.pc++
			it.block(g, "gosched")
			it.wake(g)
			g.ready = true
			it.yielded = true
			return nil, rWait
		},
		"runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop,
		"runtime.NumGoroutine": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.c.Const(64, uint64(it.liveGs())), rDone
		},
		// --- time
		"time.Sleep": func(it *Interp, g *G, a []Value) (Value, status) {
			d := it.i64(a[0], "sleep")
			if d <= 0 {
				return nil, rDone
			}
			it.sleep(g, d)
			return nil, rWait
		},
		"time.runtimeNow": func(it *Interp, g *G, a []Value) (Value, status) {
			return Tuple{it.c.Const(64, uint64(it.now/1e9)), it.c.Const(32, uint64(it.now%1e9)), it.c.Const(64, 0)}, rDone
		},
		"time.now": func(it *Interp, g *G, a []Value) (Value, status) {
			return Tuple{it.c.Const(64, uint64(it.now/1e9)), it.c.Const(32, uint64(it.now%1e9)), it.c.Const(64, 0)}, rDone
		},
		"time.runtimeNano":      func(it *Interp, g *G, a []Value) (Value, status) { return it.c.Const(64, uint64(it.now)), rDone },
		"time.runtimeIsBubbled": func(it *Interp, g *G, a []Value) (Value, status) { return it.c.True, rDone },
		"time.AfterFunc": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.newTimerObj("Timer", it.i64(a[0], "timer"), 0, a[1].(*Closure)), rDone
		},
		"time.NewTimer": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.newTimerObj("Timer", it.i64(a[0], "timer"), 0, nil), rDone
		},
		"time.NewTicker": func(it *Interp, g *G, a []Value) (Value, status) {
			d := it.i64(a[0], "ticker")
			if d <= 0 {
				panic(targetPanic{it.mkError("non-positive interval for NewTicker")})
			}
			return it.newTimerObj("Ticker", d, d, nil), rDone
		},
		"(*time.Timer).Stop": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.c.Bool(it.stopTimer(a[0])), rDone
		},
		"(*time.Ticker).Stop": func(it *Interp, g *G, a []Value) (Value, status) {
			it.stopTimer(a[0])
			return nil, rDone
		},
		"(*time.Timer).Reset": func(it *Interp, g *G, a []Value) (Value, status) {
			d := it.i64(a[1], "timer")
			ok := it.stopTimer(a[0])
			t := it.hostObj[a[0].(*Value)].(*hostTimer)
			if d < 0 {
				d = 0
			}
			t.ev = it.addTimer(it.now+d, func() { it.fireTimer(t) })
			return it.c.Bool(ok), rDone
		},
		"(*time.Ticker).Reset": func(it *Interp, g *G, a []Value) (Value, status) {
			d := it.i64(a[1], "ticker")
			it.stopTimer(a[0])
			t := it.hostObj[a[0].(*Value)].(*hostTimer)
			t.period = d
			t.ev = it.addTimer(it.now+d, func() { it.fireTimer(t) })
			return nil, rDone
		},
		"(time.Time).String":     func(it *Interp, g *G, a []Value) (Value, status) { return Str{s: "time"}, rDone },
		"(time.Time).Format":     func(it *Interp, g *G, a []Value) (Value, status) { return Str{s: "time"}, rDone },
		"(time.Duration).String": func(it *Interp, g *G, a []Value) (Value, status) { return Str{s: "duration"}, rDone },
		// --- math
		"math.Sqrt":        hostMath1(math.Sqrt),
		"math.Log2":        hostMath1(math.Log2),
		"math.Log":         hostMath1(math.Log),
		"math.Log10":       hostMath1(math.Log10),
		"math.Log1p":       hostMath1(math.Log1p),
		"math.Exp":         hostMath1(math.Exp),
		"math.Exp2":        hostMath1(math.Exp2),
		"math.Expm1":       hostMath1(math.Expm1),
		"math.Ceil":        hostMath1(math.Ceil),
		"math.Floor":       hostMath1(math.Floor),
		"math.Trunc":       hostMath1(math.Trunc),
		"math.Round":       hostMath1(math.Round),
		"math.RoundToEven": hostMath1(math.RoundToEven),
		"math.Abs":         hostMath1(math.Abs),
		"math.Sin":         hostMath1(math.Sin),
		"math.Cos":         hostMath1(math.Cos),
		"math.Tan":         hostMath1(math.Tan),
		"math.Tanh":        hostMath1(math.Tanh),
		"math.Atan":        hostMath1(math.Atan),
		"math.Cbrt":        hostMath1(math.Cbrt),
		"math.Pow":         hostMath2(math.Pow),
		"math.Min":         hostMath2(math.Min),
		"math.Max":         hostMath2(math.Max),
		"math.Mod":         hostMath2(math.Mod),
		"math.Dim":         hostMath2(math.Dim),
		"math.Hypot":       hostMath2(math.Hypot),
		"math.Copysign":    hostMath2(math.Copysign),
		"math.Inf": func(it *Interp, g *G, a []Value) (Value, status) {
			return math.Inf(int(it.i64(a[0], "math.Inf"))), rDone
		},
		"math.NaN":   func(it *Interp, g *G, a []Value) (Value, status) { return math.NaN(), rDone },
		"math.IsNaN": func(it *Interp, g *G, a []Value) (Value, status) { return it.c.Bool(math.IsNaN(a[0].(float64))), rDone },
		"math.Float64bits": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.c.Const(64, math.Float64bits(a[0].(float64))), rDone
		},
		"math.Float64frombits": func(it *Interp, g *G, a []Value) (Value, status) {
			return math.Float64frombits(it.concretize(a[0].(*Expr), "float")), rDone
		},
		// --- randomness
		"crypto/rand.Read": func(it *Interp, g *G, a []Value) (Value, status) {
			it.randRead(a[0].(Slice))
			return Tuple{it.c.Const(64, uint64(len(a[0].(Slice)))), Iface{}}, rDone
		},
		"(crypto/internal/rand.reader).Read": func(it *Interp, g *G, a []Value) (Value, status) {
			it.randRead(a[1].(Slice))
			return Tuple{it.c.Const(64, uint64(len(a[1].(Slice)))), Iface{}}, rDone
		},
		"(*crypto/rand.reader).Read": func(it *Interp, g *G, a []Value) (Value, status) {
			it.randRead(a[1].(Slice))
			return Tuple{it.c.Const(64, uint64(len(a[1].(Slice)))), Iface{}}, rDone
		},
		// --- bytes and strings
		"bytes.Equal":            func(it *Interp, g *G, a []Value) (Value, status) { return bytesEqual(it, a[0], a[1]), rDone },
		"internal/bytealg.Equal": func(it *Interp, g *G, a []Value) (Value, status) { return bytesEqual(it, a[0], a[1]), rDone },
		"internal/bytealg.IndexByte": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.indexByte(it.sliceBytes(a[0].(Slice)), a[1].(*Expr)), rDone
		},
		"internal/bytealg.IndexByteString": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.indexByte(it.strBytes(a[0].(Str)), a[1].(*Expr)), rDone
		},
		"internal/bytealg.MakeNoZero": func(it *Interp, g *G, a []Value) (Value, status) {
			n := it.i64(a[0], "makenozero")
			s := make(Slice, n)
			for i := range s {
				s[i] = it.c.Const(8, 0)
			}
			return s, rDone
		},
		"internal/bytealg.Compare": func(it *Interp, g *G, a []Value) (Value, status) {
			x, y := it.mkStr(it.sliceBytes(a[0].(Slice))), it.mkStr(it.sliceBytes(a[1].(Slice)))
			return it.cmpStr(x, y), rDone
		},
		"internal/bytealg.CompareString": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.cmpStr(a[0].(Str), a[1].(Str)), rDone
		},
		"strings.Index": hostStr2(func(a, b string) int { return strings.Index(a, b) }),
		"strings.Count": hostStr2(func(a, b string) int { return strings.Count(a, b) }),
		"strings.Compare": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.cmpStr(a[0].(Str), a[1].(Str)), rDone
		},
		"internal/stringslite.Index": hostStr2(func(a, b string) int { return strings.Index(a, b) }),
		// --- fmt
		"fmt.Sprintf": func(it *Interp, g *G, a []Value) (Value, status) { return Str{s: it.sprintf(a[0], a[1])}, rDone },
		"fmt.Sprint": func(it *Interp, g *G, a []Value) (Value, status) {
			return Str{s: fmt.Sprint(it.hostArgs(a[0])...)}, rDone
		},
		"fmt.Sprintln": func(it *Interp, g *G, a []Value) (Value, status) {
			return Str{s: fmt.Sprintln(it.hostArgs(a[0])...)}, rDone
		},
		"fmt.Printf": func(it *Interp, g *G, a []Value) (Value, status) { return Tuple{it.c.Const(64, 0), Iface{}}, rDone },
		"fmt.Println": func(it *Interp, g *G, a []Value) (Value, status) {
			if it.cfg.Debug {
				fmt.Println(append([]any{"[target]"}, it.hostArgs(a[0])...)...)
			}
			return Tuple{it.c.Const(64, 0), Iface{}}, rDone
		},
		"fmt.Errorf": func(it *Interp, g *G, a []Value) (Value, status) {
			msg := it.sprintf(a[0], a[1])
			if strings.Contains(it.hostStr(a[0]), "%w") {
				for _, x := range a[1].(Slice) {
					if i := x.(Iface); i.T != nil && it.implements(i.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						p := new(Value)
						*p = Struct{Str{s: msg}, i}
						return Iface{T: types.NewPointer(it.prog.ImportedPackage("fmt").Type("wrapError").Type()), V: p}, rDone
					}
				}
			}
			return it.mkError(msg), rDone
		},
		// --- encoding/json
		"encoding/json.Marshal":                     jsonMarshal,
		"encoding/json.Unmarshal":                   jsonUnmarshal,
		"internal/godebug.New":                      func(it *Interp, g *G, a []Value) (Value, status) { return (*Value)(nil), rDone },
		"(*internal/godebug.Setting).Value":         func(it *Interp, g *G, a []Value) (Value, status) { return Str{}, rDone },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/reflectlite.TypeOf":               func(it *Interp, g *G, a []Value) (Value, status) { panic(unsupported("reflectlite")) },
		"(*strings.Builder).copyCheck":              nop,
		hPkg + ".sameError":                         sameError,
		hPkg + ".setAs":                             setAs,
		hPkg + ".lenAny": func(it *Interp, g *G, a []Value) (Value, status) {
			s, _ := a[0].(Iface).V.(Slice)
			return it.c.Const(64, uint64(len(s))), rDone
		},
		hPkg + ".swapAny": func(it *Interp, g *G, a []Value) (Value, status) {
			s := a[0].(Iface).V.(Slice)
			i, j := it.i64(a[1], "swap"), it.i64(a[2], "swap")
			x, y := copyVal(s[i]), copyVal(s[j])
			assign(&s[i], y)
			assign(&s[j], x)
			return nil, rDone
		},
		// --- harness API
		vPkg + ".Thorough": func(it *Interp, g *G, a []Value) (Value, status) { return it.c.Bool(it.cfg.Thorough), rDone },
		vPkg + ".Active":   func(it *Interp, g *G, a []Value) (Value, status) { return it.c.True, rDone },
		vPkg + ".U8":       func(it *Interp, g *G, a []Value) (Value, status) { return it.nondet(a[0], 8), rDone },
		vPkg + ".U16":      func(it *Interp, g *G, a []Value) (Value, status) { return it.nondet(a[0], 16), rDone },
		vPkg + ".U32":      func(it *Interp, g *G, a []Value) (Value, status) { return it.nondet(a[0], 32), rDone },
		vPkg + ".U64":      func(it *Interp, g *G, a []Value) (Value, status) { return it.nondet(a[0], 64), rDone },
		vPkg + ".Bool": func(it *Interp, g *G, a []Value) (Value, status) {
			e := it.nondet(a[0], 8)
			it.assume(it.c.Cmp(OpUle, e, it.c.Const(8, 1)))
			return it.c.Eq(e, it.c.Const(8, 1)), rDone
		},
		vPkg + ".Choice": func(it *Interp, g *G, a []Value) (Value, status) {
			e := it.nondet(a[0], 8)
			n := it.i64(a[1], "choice")
			it.assume(it.c.Cmp(OpUlt, e, it.c.Const(8, uint64(n))))
			return it.c.Const(64, it.concretize(e, "choice")), rDone
		},
		vPkg + ".Bytes": func(it *Interp, g *G, a []Value) (Value, status) {
			n := it.i64(a[1], "bytes")
			return it.bytesSlice(it.nondetBytes(a[0], int(n))), rDone
		},
		vPkg + ".Text": func(it *Interp, g *G, a []Value) (Value, status) {
			n := it.i64(a[1], "text")
			b := it.nondetBytes(a[0], int(n))
			for _, e := range b {
				it.assume(it.c.Cmp(OpUle, it.c.Const(8, 0x20), e))
				it.assume(it.c.Cmp(OpUle, e, it.c.Const(8, 0x7e)))
				for _, x := range `"\<>&` {
					it.assume(it.c.BNot(it.c.Eq(e, it.c.Const(8, uint64(x)))))
				}
			}
			return it.mkStr(b), rDone
		},
		vPkg + ".Assume": func(it *Interp, g *G, a []Value) (Value, status) {
			it.assume(a[0].(*Expr))
			return nil, rDone
		},
		vPkg + ".Assert": func(it *Interp, g *G, a []Value) (Value, status) {
			it.assert(a[0].(*Expr), it.hostStr(a[1]))
			return nil, rDone
		},
		vPkg + ".Reach": func(it *Interp, g *G, a []Value) (Value, status) {
			it.res.Reached[it.hostStr(a[0])]++
			return nil, rDone
		},
		vPkg + ".Eq":  func(it *Interp, g *G, a []Value) (Value, status) { return bytesEqual(it, a[0], a[1]), rDone },
		vPkg + ".EqS": func(it *Interp, g *G, a []Value) (Value, status) { return bytesEqual(it, a[0], a[1]), rDone },
		vPkg + ".And": func(it *Interp, g *G, a []Value) (Value, status) {
			r := it.c.True
			for _, x := range a[0].(Slice) {
				r = it.c.BAnd(r, x.(*Expr))
			}
			return r, rDone
		},
		vPkg + ".Or": func(it *Interp, g *G, a []Value) (Value, status) {
			r := it.c.False
			for _, x := range a[0].(Slice) {
				r = it.c.BOr(r, x.(*Expr))
			}
			return r, rDone
		},
		vPkg + ".Observe": func(it *Interp, g *G, a []Value) (Value, status) {
			it.observed = append(it.observed, obsv{it.hostStr(a[0]), a[1]})
			return nil, rDone
		},
		vPkg + ".Window": func(it *Interp, g *G, a []Value) (Value, status) {
			it.window = a[0].(*Expr).IsTrue()
			return nil, rDone
		},
		vPkg + ".SymRand": func(it *Interp, g *G, a []Value) (Value, status) {
			it.randSym = true
			return nil, rDone
		},
		vPkg + ".Goroutines": func(it *Interp, g *G, a []Value) (Value, status) {
			return it.c.Const(64, uint64(it.liveGs()-1)), rDone
		},
		vPkg + ".Stacks": func(it *Interp, g *G, a []Value) (Value, status) {
			var sb strings.Builder
			for _, x := range it.gs {
				if !x.dead && x != g {
					fmt.Fprintf(&sb, "[%s %s]", x.why, it.where(x))
				}
			}
			return Str{s: sb.String()}, rDone
		},
		vPkg + ".WindowMem": func(it *Interp, g *G, a []Value) (Value, status) {
			it.window = a[0].(*Expr).IsTrue()
			it.windowMem = it.window
			return nil, rDone
		},
		vPkg + ".M": func(it *Interp, g *G, a []Value) (Value, status) {
			if !it.windowMem {
				return nil, rDone
			}
			return it.schedPoint(g, a)
		},
		vPkg + ".P": func(it *Interp, g *G, a []Value) (Value, status) {
			if !it.window {
				return nil, rDone
			}
			return it.schedPoint(g, a)
		},
	}
}

func (it *Interp) schedPoint(g *G, a []Value) (Value, status) {
	site := fmt.Sprintf("d:%d", it.i64(a[0], "site"))
	k := it.siteN[site]
	it.siteN[site]++
	if it.devLeft <= 0 {
		return nil, rDone
	}
	if it.chooseSched(2, site) == 1 {
		it.devLeft--
		name := fmt.Sprintf("%s#%d", site, k)
		it.sched = append(it.sched, name)
		it.sleep(g, 1)
		return nil, rWait
	}
	return nil, rDone
}

func init() {
	for _, t := range []string{"Mutex", "RWMutex"} {
		for _, m := range []string{"Lock", "Unlock", "TryLock", "RLock", "RUnlock", "TryRLock"} {
			if f := intrinsics["(*sync."+t+")."+m]; f != nil {
				intrinsics["(*"+modPath+"/zzverif/vsync."+t+")."+m] = f
			}
		}
	}
}

func hostStr2(f func(a, b string) int) intrinsic {
	return func(it *Interp, g *G, a []Value) (Value, status) {
		x, y := a[0].(Str), a[1].(Str)
		if x.b != nil || y.b != nil {
			// first match position, forking per position
			n, k := x.Len(), y.Len()
			for i := 0; i+k <= n; i++ {
				eq := it.c.True
				for j := 0; j < k; j++ {
					eq = it.c.BAnd(eq, it.c.Eq(it.strByte(x, i+j), it.strByte(y, j)))
				}
				if it.branch(eq, "strings.Index") {
					return it.c.Const(64, uint64(i)), rDone
				}
			}
			return it.c.Const(64, ^uint64(0)), rDone
		}
		return it.c.Const(64, uint64(f(x.s, y.s))), rDone
	}
}

func (it *Interp) cmpStr(x, y Str) *Expr {
	return it.c.Ite(it.strEq(x, y), it.c.Const(64, 0), it.c.Ite(it.strLess(x, y), it.c.Const(64, ^uint64(0)), it.c.Const(64, 1)))
}

func (it *Interp) liveGs() int {
	n := 0
	for _, g := range it.gs {
		if !g.dead {
			n++
		}
	}
	return n
}

func (it *Interp) wg(v Value) *wgState {
	p := it.atomicPtr(v)
	w := it.wgs[p]
	if w == nil {
		w = &wgState{}
		it.wgs[p] = w
	}
	return w
}

func (it *Interp) wgWake(w *wgState) {
	if w.n == 0 {
		for _, g := range w.q {
			it.complete(g, nil)
		}
		w.q = nil
	}
}

func (it *Interp) hostArgs(v Value) []any {
	var r []any
	for _, x := range v.(Slice) {
		r = append(r, it.hostAny(x.(Iface)))
	}
	return r
}

func (it *Interp) hostAny(x Iface) any {
	if x.T == nil {
		return nil
	}
	switch t := x.T.Underlying().(type) {
	case *types.Basic:
		switch v := x.V.(type) {
		case *Expr:
			u := it.c.Eval(v)
			if v.W == 0 {
				return u == 1
			}
			w, s := basicWidth(t)
			if t.Kind() == types.Uint8 {
				return uint8(u)
			}
			if t.Kind() == types.Int32 {
				return int32(sext(u, w))
			}
			if s {
				return sext(u, w)
			}
			return u
		case float64:
			return v
		case Str:
			return it.show(v)
		}
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			bs := []byte{}
			for _, e := range x.V.(Slice) {
				bs = append(bs, byte(it.c.Eval(e.(*Expr))))
			}
			return bs
		}
		if sl, ok := x.V.(Slice); ok {
			r := []any{}
			for _, e := range sl {
				i, ok := e.(Iface)
				if !ok {
					i = Iface{T: t.Elem(), V: e}
				}
				r = append(r, it.hostAny(i))
			}
			return r
		}
	case *types.Pointer:
		if p, ok := x.V.(*Value); ok && p != nil {
			if s, ok := (*p).(Struct); ok && len(s) > 0 {
				if st, ok := s[0].(Str); ok {
					return it.show(st)
				}
			}
		}
	}
	return "<" + x.T.String() + ">"
}

func (it *Interp) sprintf(f, args Value) string {
	return fmt.Sprintf(strings.ReplaceAll(it.hostStr(f), "%w", "%v"), it.hostArgs(args)...)
}

// sameError is the comparison errors.Is makes at each step of the chain.
func sameError(it *Interp, g *G, a []Value) (Value, status) {
	x, y := a[0].(Iface), a[1].(Iface)
	return it.c.Bool(types.Comparable(y.T) && types.Identical(x.T, y.T) && it.branch(it.eq(nil, x, y), "errors.Is")), rDone
}

// setAs stores err in *target if it has its type (errors.As).
func setAs(it *Interp, g *G, a []Value) (Value, status) {
	err, target := a[0].(Iface), a[1].(Iface)
	elem := target.T.Underlying().(*types.Pointer).Elem()
	p := target.V.(*Value)
	if i, ok := elem.Underlying().(*types.Interface); ok {
		if !it.implements(err.T, i) {
			return it.c.False, rDone
		}
		*p = err
		return it.c.True, rDone
	}
	if !types.Identical(err.T, elem) {
		return it.c.False, rDone
	}
	assign(p, copyVal(err.V))
	return it.c.True, rDone
}

func hostMath1(f func(float64) float64) intrinsic {
	return func(it *Interp, g *G, a []Value) (Value, status) { return f(a[0].(float64)), rDone }
}

func hostMath2(f func(float64, float64) float64) intrinsic {
	return func(it *Interp, g *G, a []Value) (Value, status) { return f(a[0].(float64), a[1].(float64)), rDone }
}

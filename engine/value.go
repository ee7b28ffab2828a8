package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value any

type Str struct {
	s string
	b []*Expr // non-nil: symbolic content
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Slice []Value
type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	bi   *ssa.Builtin
	host func(it *Interp, g *G, args []Value) (Value, status) // engine-made function
}

type UPtr struct{ v Value }
type sliceData struct{ s Slice }
type strData struct{ s Str }

type globalRef struct{ g *ssa.Global }

type mapEntry struct {
	k, v Value
	dead bool
}

type MapV struct {
	idx     map[string]int // concrete keys
	entries []*mapEntry
	symKeys int // number of live entries whose key is symbolic
	live    int
	kt      types.Type
}

type MapIter struct {
	m   *MapV
	pos int
	str *Str
}

type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	elem   types.Type
}

type selState struct{ fired bool }

type waiter struct {
	g    *G
	val  Value // value to send
	sel  *selState
	done func(v Value, ok bool) // completes the waiting instruction
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			switch e := x[i].(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			switch e := x[i].(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// assign stores v in *p keeping interior slots (and pointers to them) alive.
func assign(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			for i := range x {
				assign(&old[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				assign(&old[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

func basicWidth(b *types.Basic) (w uint8, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func (it *Interp) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return it.c.False
		case t.Info()&types.IsInteger != 0:
			w, _ := basicWidth(t)
			return it.c.Const(w, 0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return Str{}
		case t.Kind() == types.UnsafePointer:
			return UPtr{(*Value)(nil)}
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = it.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			z := it.zero(t.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		a := make(Tuple, t.Len())
		for i := range a {
			a[i] = it.zero(t.At(i).Type())
		}
		return a
	}
	panic(unsupported("zero of " + t.String()))
}

type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

func (it *Interp) strBytes(s Str) []*Expr {
	if s.b != nil {
		return s.b
	}
	r := make([]*Expr, len(s.s))
	for i := range r {
		r[i] = it.c.Const(8, uint64(s.s[i]))
	}
	return r
}

func (it *Interp) strByte(s Str, i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return it.c.Const(8, uint64(s.s[i]))
}

// mkStr builds a string from byte terms, concrete if they all are.
func (it *Interp) mkStr(b []*Expr) Str {
	for _, e := range b {
		if !e.IsConst() {
			return Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, e := range b {
		bs[i] = byte(e.C)
	}
	return Str{s: string(bs)}
}

func (it *Interp) sliceBytes(s Slice) []*Expr {
	r := make([]*Expr, len(s))
	for i, v := range s {
		r[i] = v.(*Expr)
	}
	return r
}

func (it *Interp) bytesSlice(b []*Expr) Slice {
	r := make(Slice, len(b))
	for i, e := range b {
		r[i] = e
	}
	return r
}

func (it *Interp) hostBytes(s Slice) ([]byte, bool) {
	r := make([]byte, len(s))
	for i, v := range s {
		e := v.(*Expr)
		if !e.IsConst() {
			return nil, false
		}
		r[i] = byte(e.C)
	}
	return r, true
}

func (it *Interp) fromHostBytes(b []byte) Slice {
	if b == nil {
		return nil
	}
	r := make(Slice, len(b))
	for i, x := range b {
		r[i] = it.c.Const(8, uint64(x))
	}
	return r
}

func (it *Interp) strEq(a, b Str) *Expr {
	if a.b == nil && b.b == nil {
		return it.c.Bool(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return it.c.False
	}
	r := it.c.True
	for i := 0; i < a.Len(); i++ {
		r = it.c.BAnd(r, it.c.Eq(it.strByte(a, i), it.strByte(b, i)))
	}
	return r
}

// strLess is a <lexicographically b.
func (it *Interp) strLess(a, b Str) *Expr {
	if a.b == nil && b.b == nil {
		return it.c.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := it.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := it.strByte(a, i), it.strByte(b, i)
		r = it.c.BOr(it.c.Cmp(OpUlt, x, y), it.c.BAnd(it.c.Eq(x, y), r))
	}
	return r
}

func ptrKey(v Value) string { return fmt.Sprintf("%p", v) }

// eq returns the truth of a == b at type t.
func (it *Interp) eq(t types.Type, a, b Value) *Expr {
	switch x := a.(type) {
	case *Expr:
		return it.c.Eq(x, b.(*Expr))
	case float64:
		return it.c.Bool(x == b.(float64))
	case Str:
		return it.strEq(x, b.(Str))
	case *Value:
		y, ok := b.(*Value)
		return it.c.Bool(ok && x == y)
	case *MapV:
		y, _ := b.(*MapV)
		return it.c.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return it.c.Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return it.c.Bool(x == y)
	case Slice:
		y, _ := b.(Slice)
		return it.c.Bool(x == nil && y == nil)
	case UPtr:
		y := b.(UPtr)
		return it.c.Bool(x.v == y.v)
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return it.c.Bool(x.T == nil && y.T == nil)
		}
		if x.T != y.T && !types.Identical(x.T, y.T) {
			return it.c.False
		}
		if !types.Comparable(x.T) {
			it.rtPanic("comparing uncomparable type " + x.T.String())
		}
		return it.eq(x.T, x.V, y.V)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		r := it.c.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = it.c.BAnd(r, it.eq(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := it.c.True
		for i := range x {
			r = it.c.BAnd(r, it.eq(et, x[i], y[i]))
		}
		return r
	}
	if a == nil && b == nil {
		return it.c.True
	}
	panic(unsupported(fmt.Sprintf("eq %T", a)))
}

// mapKey renders a concrete key canonically; ok=false for symbolic ones.
func (it *Interp) mapKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Expr:
		if !x.IsConst() {
			return "", false
		}
		return fmt.Sprintf("i%d", x.C), true
	case Str:
		if x.b != nil {
			return "", false
		}
		return "s" + x.s, true
	case float64:
		return fmt.Sprintf("f%v", x), true
	case *Value, *Chan, *MapV, *Closure:
		return ptrKey(x), true
	case UPtr:
		return ptrKey(x.v), true
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		if !types.Comparable(x.T) {
			it.rtPanic("hash of unhashable type " + x.T.String())
		}
		k, ok := it.mapKey(x.V)
		return it.typeID(x.T) + ":" + k, ok
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			k, ok := it.mapKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(k), k)
		}
		return sb.String(), true
	case Array:
		return it.mapKey(Struct(x))
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (it *Interp) typeID(t types.Type) string {
	if s, ok := it.typeIDs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	it.typeIDs[t] = s
	return s
}

func (it *Interp) newMap(kt types.Type) *MapV {
	return &MapV{idx: map[string]int{}, kt: kt}
}

// mapFind returns the entry for k, forking on symbolic key equality.
func (it *Interp) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, conc := it.mapKey(k)
	if conc && m.symKeys == 0 {
		if i, ok := m.idx[ks]; ok {
			return m.entries[i]
		}
		return nil
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if it.branch(it.eq(m.kt, e.k, k), "mapkey") {
			return e
		}
	}
	return nil
}

func (it *Interp) mapSet(m *MapV, k, v Value) {
	if e := it.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	ks, conc := it.mapKey(k)
	m.entries = append(m.entries, &mapEntry{k: copyVal(k), v: v})
	m.live++
	if conc {
		m.idx[ks] = len(m.entries) - 1
	} else {
		m.symKeys++
	}
}

func (it *Interp) mapDelete(m *MapV, k Value) *mapEntry {
	e := it.mapFind(m, k)
	if e == nil {
		return nil
	}
	e.dead = true
	m.live--
	if ks, conc := it.mapKey(e.k); conc {
		delete(m.idx, ks)
	} else {
		m.symKeys--
	}
	if len(m.entries) > 32 && m.live*4 < len(m.entries) {
		// compact
		var n []*mapEntry
		m.idx = map[string]int{}
		for _, x := range m.entries {
			if !x.dead {
				if ks, conc := it.mapKey(x.k); conc {
					m.idx[ks] = len(n)
				}
				n = append(n, x)
			}
		}
		m.entries = n
	}
	return e
}

func (it *Interp) ifaceStr(s string) Iface {
	return Iface{T: types.Typ[types.String], V: Str{s: s}}
}

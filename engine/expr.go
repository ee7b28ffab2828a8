package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Expr is a hash-consed bit-vector (W = 1..64) or boolean (W = 0) term.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
	OpIte
	OpExtract // C = hi<<8|lo
	OpConcat  // A[0] high, A[1] low
	OpSExt
)

type Expr struct {
	Op   Op
	W    uint8
	C    uint64
	A    [3]*Expr
	Name string
	id   uint32
	vars []uint32 // sorted ids of variables
	// per-model evaluation memo
	mEpoch uint32
	mVal   uint64
}

type ekey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 uint32
}

// Ctx is a term table (one per worker).
type Ctx struct {
	tab    map[ekey]*Expr
	vars   map[string]*Expr
	varOf  []*Expr
	nextID uint32
	small  [65][]*Expr
	True   *Expr
	False  *Expr
	epoch  uint32
	model  map[*Expr]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, vars: map[string]*Expr{}, model: map[*Expr]uint64{}}
	c.nextID = 1
	c.False = c.mk(OpConst, 0, 0, nil, nil, nil)
	c.True = c.mk(OpConst, 0, 1, nil, nil, nil)
	for _, w := range []int{8, 16, 32, 64} {
		for i := 0; i < 257; i++ {
			c.small[w] = append(c.small[w], c.mk(OpConst, uint8(w), uint64(i)&mask(uint8(w)), nil, nil, nil))
		}
	}
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mergeVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func (c *Ctx) mk(op Op, w uint8, k uint64, a0, a1, a2 *Expr) *Expr {
	key := ekey{op, w, k, eid(a0), eid(a1), eid(a2)}
	if e, ok := c.tab[key]; ok {
		return e
	}
	e := &Expr{Op: op, W: w, C: k, A: [3]*Expr{a0, a1, a2}, id: c.nextID}
	c.nextID++
	for _, a := range e.A {
		if a != nil {
			e.vars = mergeVars(e.vars, a.vars)
		}
	}
	c.tab[key] = e
	return e
}

func (c *Ctx) Const(w uint8, v uint64) *Expr {
	v &= mask(w)
	if w == 0 {
		return c.Bool(v&1 == 1)
	}
	if v < 257 && len(c.small[w]) > int(v) {
		return c.small[w][v]
	}
	return c.mk(OpConst, w, v, nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w uint8) *Expr {
	full := fmt.Sprintf("%s_w%d", name, w)
	if e, ok := c.vars[full]; ok {
		return e
	}
	e := &Expr{Op: OpVar, W: w, Name: full, id: c.nextID}
	c.nextID++
	vi := uint32(len(c.varOf))
	c.varOf = append(c.varOf, e)
	e.C = uint64(vi)
	e.vars = []uint32{vi}
	c.vars[full] = e
	return e
}

func (e *Expr) IsConst() bool { return e.Op == OpConst }
func (e *Expr) IsTrue() bool  { return e.Op == OpConst && e.W == 0 && e.C == 1 }
func (e *Expr) IsFalse() bool { return e.Op == OpConst && e.W == 0 && e.C == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func foldBin(op Op, w uint8, a, b uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OpSRem:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OpAnd:
		return a & b, true
	case OpOr:
		return a | b, true
	case OpXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OpLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m, true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.W, b.W, op))
	}
	if a.IsConst() && b.IsConst() {
		if v, ok := foldBin(op, w, a.C, b.C); ok {
			return c.Const(w, v)
		}
	}
	m := mask(w)
	switch op {
	case OpAdd:
		if a.IsConst() && !b.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.C == 0 {
				return a
			}
			if a.Op == OpAdd && a.A[1].IsConst() {
				return c.Bin(OpAdd, a.A[0], c.Const(w, a.A[1].C+b.C))
			}
		}
	case OpSub:
		if b.IsConst() {
			return c.Bin(OpAdd, a, c.Const(w, -b.C&m))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OpMul:
		if a.IsConst() && !b.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.C == 0 {
				return b
			}
			if b.C == 1 {
				return a
			}
			if bits.OnesCount64(b.C) == 1 {
				return c.Bin(OpShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.C))))
			}
		}
	case OpUDiv:
		if b.IsConst() && b.C == 1 {
			return a
		}
	case OpAnd:
		if a.IsConst() && !b.IsConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.IsConst() {
			if b.C == 0 {
				return b
			}
			if b.C == m {
				return a
			}
			// low mask of ones: zero-extend the low part
			if b.C&(b.C+1) == 0 {
				n := uint8(bits.OnesCount64(b.C))
				return c.ZExt(c.Extract(a, n-1, 0), w)
			}
		}
	case OpOr, OpXor:
		if a.IsConst() && !b.IsConst() {
			a, b = b, a
		}
		if a == b {
			if op == OpOr {
				return a
			}
			return c.Const(w, 0)
		}
		if b.IsConst() && b.C == 0 {
			return a
		}
		if r := c.mergeOr(a, b); r != nil {
			return r
		}
	case OpShl:
		if b.IsConst() {
			k := b.C
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Concat(c.Extract(a, w-1-uint8(k), 0), c.Const(uint8(k), 0))
		}
	case OpLShr:
		if b.IsConst() {
			k := b.C
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Concat(c.Const(uint8(k), 0), c.Extract(a, w-1, uint8(k)))
		}
	}
	// canonical order for commutative operations
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor:
		if !b.IsConst() && a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

// segments, most significant first
func segments(e *Expr, out []*Expr) []*Expr {
	if e.Op == OpConcat {
		out = segments(e.A[0], out)
		return segments(e.A[1], out)
	}
	return append(out, e)
}

func (c *Ctx) mergeOr(a, b *Expr) *Expr {
	if a.Op != OpConcat && b.Op != OpConcat {
		return nil
	}
	sa, sb := segments(a, nil), segments(b, nil)
	var res []*Expr
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[0], sb[0]
		w := x.W
		if y.W < w {
			w = y.W
		}
		cut := func(s []*Expr) (*Expr, []*Expr) {
			h := s[0]
			if h.W == w {
				return h, s[1:]
			}
			hi := c.Extract(h, h.W-1, h.W-w)
			lo := c.Extract(h, h.W-w-1, 0)
			n := make([]*Expr, 0, len(s))
			n = append(n, lo)
			n = append(n, s[1:]...)
			return hi, n
		}
		x, sa = cut(sa)
		y, sb = cut(sb)
		switch {
		case x.IsConst() && x.C == 0:
			res = append(res, y)
		case y.IsConst() && y.C == 0:
			res = append(res, x)
		case x.IsConst() && y.IsConst():
			return nil // mixed constants: rare
		default:
			return nil
		}
	}
	return c.concatList(res)
}

func (c *Ctx) concatList(s []*Expr) *Expr {
	r := s[len(s)-1]
	for i := len(s) - 2; i >= 0; i-- {
		r = c.Concat(s[i], r)
	}
	return r
}

// Concat keeps right-nested normal form and fuses neighbours.
func (c *Ctx) Concat(hi, lo *Expr) *Expr {
	if hi.Op == OpConcat {
		return c.Concat(hi.A[0], c.Concat(hi.A[1], lo))
	}
	w := hi.W + lo.W
	// fuse hi with first segment of lo
	first, rest := lo, (*Expr)(nil)
	if lo.Op == OpConcat {
		first, rest = lo.A[0], lo.A[1]
	}
	var f *Expr
	if hi.IsConst() && first.IsConst() && uint(hi.W)+uint(first.W) <= 64 {
		f = c.Const(hi.W+first.W, hi.C<<first.W|first.C)
	} else if hi.Op == OpExtract && first.Op == OpExtract && hi.A[0] == first.A[0] {
		h1, l1 := uint8(hi.C>>8), uint8(hi.C)
		h2, l2 := uint8(first.C>>8), uint8(first.C)
		if l1 == h2+1 {
			f = c.Extract(hi.A[0], h1, l2)
		}
	}
	if f != nil {
		if rest == nil {
			return f
		}
		return c.Concat(f, rest)
	}
	return c.mk(OpConcat, w, 0, hi, lo, nil)
}

func (c *Ctx) Extract(e *Expr, hi, lo uint8) *Expr {
	if lo == 0 && hi == e.W-1 {
		return e
	}
	w := hi - lo + 1
	switch e.Op {
	case OpConst:
		return c.Const(w, e.C>>lo)
	case OpExtract:
		l := uint8(e.C)
		return c.Extract(e.A[0], hi+l, lo+l)
	case OpConcat:
		lw := e.A[1].W
		if hi < lw {
			return c.Extract(e.A[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(e.A[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(e.A[0], hi-lw, 0), c.Extract(e.A[1], lw-1, lo))
	case OpSExt:
		if hi < e.A[0].W {
			return c.Extract(e.A[0], hi, lo)
		}
	case OpAnd, OpOr, OpXor:
		return c.Bin(e.Op, c.Extract(e.A[0], hi, lo), c.Extract(e.A[1], hi, lo))
	case OpNot:
		return c.Not(c.Extract(e.A[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(e.Op, c.Extract(e.A[0], hi, 0), c.Extract(e.A[1], hi, 0))
		}
	case OpIte:
		if e.A[1].IsConst() || e.A[2].IsConst() {
			return c.Ite(e.A[0], c.Extract(e.A[1], hi, lo), c.Extract(e.A[2], hi, lo))
		}
	}
	return c.mk(OpExtract, w, uint64(hi)<<8|uint64(lo), e, nil, nil)
}

func (c *Ctx) ZExt(e *Expr, w uint8) *Expr {
	if e.W == w {
		return e
	}
	return c.Concat(c.Const(w-e.W, 0), e)
}

func (c *Ctx) SExt(e *Expr, w uint8) *Expr {
	if e.W == w {
		return e
	}
	if e.IsConst() {
		return c.Const(w, uint64(sext(e.C, e.W)))
	}
	if e.Op == OpConcat && e.A[0].IsConst() && e.A[0].C>>(e.A[0].W-1) == 0 {
		return c.ZExt(e, w)
	}
	return c.mk(OpSExt, w, 0, e, nil, nil)
}

func (c *Ctx) Not(e *Expr) *Expr {
	if e.IsConst() {
		return c.Const(e.W, ^e.C)
	}
	if e.Op == OpNot {
		return e.A[0]
	}
	return c.mk(OpNot, e.W, 0, e, nil, nil)
}

func (c *Ctx) Neg(e *Expr) *Expr {
	if e.IsConst() {
		return c.Const(e.W, -e.C)
	}
	return c.mk(OpNeg, e.W, 0, e, nil, nil)
}

func (c *Ctx) BNot(e *Expr) *Expr {
	if e.IsConst() {
		return c.Bool(e.C == 0)
	}
	if e.Op == OpBNot {
		return e.A[0]
	}
	return c.mk(OpBNot, 0, 0, e, nil, nil)
}

func (c *Ctx) BAnd(a, b *Expr) *Expr {
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBAnd, 0, 0, a, b, nil)
}

func (c *Ctx) BOr(a, b *Expr) *Expr { return c.BNot(c.BAnd(c.BNot(a), c.BNot(b))) }

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.C == b.C)
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.BNot(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OpConcat:
			lw := a.A[1].W
			return c.BAnd(c.Eq(a.A[0], c.Const(a.A[0].W, b.C>>lw)), c.Eq(a.A[1], c.Const(lw, b.C)))
		case OpIte:
			if a.A[1].IsConst() && a.A[2].IsConst() {
				t, f := a.A[1].C == b.C, a.A[2].C == b.C
				switch {
				case t && f:
					return c.True
				case t:
					return a.A[0]
				case f:
					return c.BNot(a.A[0])
				default:
					return c.False
				}
			}
		case OpAdd:
			if a.A[1].IsConst() {
				return c.Eq(a.A[0], c.Const(a.W, b.C-a.A[1].C))
			}
		}
	} else if a.Op == OpConcat && b.Op == OpConcat && a.A[0].W == b.A[0].W {
		return c.BAnd(c.Eq(a.A[0], b.A[0]), c.Eq(a.A[1], b.A[1]))
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b, nil)
}

func (c *Ctx) Cmp(op Op, a, b *Expr) *Expr {
	if a.W != b.W {
		panic("cmp width")
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OpUlt:
			return c.Bool(a.C < b.C)
		case OpUle:
			return c.Bool(a.C <= b.C)
		case OpSlt:
			return c.Bool(sext(a.C, a.W) < sext(b.C, b.W))
		case OpSle:
			return c.Bool(sext(a.C, a.W) <= sext(b.C, b.W))
		}
	}
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	// zero-extended operand against a constant: narrow
	if a.Op == OpConcat && a.A[0].IsConst() && a.A[0].C == 0 && b.IsConst() {
		lw := a.A[1].W
		if op == OpSlt || op == OpSle {
			if sext(b.C, b.W) < 0 {
				return c.False
			}
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		}
		if b.C > mask(lw) {
			return c.True
		}
		return c.Cmp(op, a.A[1], c.Const(lw, b.C))
	}
	if b.Op == OpConcat && b.A[0].IsConst() && b.A[0].C == 0 && a.IsConst() {
		lw := b.A[1].W
		if op == OpSlt || op == OpSle {
			if sext(a.C, a.W) < 0 {
				return c.True
			}
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		}
		if a.C > mask(lw) {
			return c.False
		}
		return c.Cmp(op, c.Const(lw, a.C), b.A[1])
	}
	if op == OpUlt && b.IsConst() && b.C == 0 {
		return c.False
	}
	if op == OpUle && a.IsConst() && a.C == 0 {
		return c.True
	}
	if op == OpUle && b.IsConst() && b.C == mask(b.W) {
		return c.True
	}
	return c.mk(op, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(k, a, b *Expr) *Expr {
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		return c.BOr(c.BAnd(k, a), c.BAnd(c.BNot(k), b))
	}
	return c.mk(OpIte, a.W, 0, k, a, b)
}

// SetModel installs the assignment used by Eval.
func (c *Ctx) SetModel(m map[*Expr]uint64) { c.model = m; c.epoch++ }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) Eval(e *Expr) uint64 {
	switch e.Op {
	case OpConst:
		return e.C
	case OpVar:
		return c.model[e]
	}
	if e.mEpoch == c.epoch {
		return e.mVal
	}
	var v uint64
	switch e.Op {
	case OpEq:
		v = b2u(c.Eval(e.A[0]) == c.Eval(e.A[1]))
	case OpUlt:
		v = b2u(c.Eval(e.A[0]) < c.Eval(e.A[1]))
	case OpUle:
		v = b2u(c.Eval(e.A[0]) <= c.Eval(e.A[1]))
	case OpSlt:
		v = b2u(sext(c.Eval(e.A[0]), e.A[0].W) < sext(c.Eval(e.A[1]), e.A[0].W))
	case OpSle:
		v = b2u(sext(c.Eval(e.A[0]), e.A[0].W) <= sext(c.Eval(e.A[1]), e.A[0].W))
	case OpBAnd:
		v = c.Eval(e.A[0]) & c.Eval(e.A[1])
	case OpBOr:
		v = c.Eval(e.A[0]) | c.Eval(e.A[1])
	case OpBNot:
		v = c.Eval(e.A[0]) ^ 1
	case OpNot:
		v = ^c.Eval(e.A[0]) & mask(e.W)
	case OpNeg:
		v = -c.Eval(e.A[0]) & mask(e.W)
	case OpIte:
		if c.Eval(e.A[0]) == 1 {
			v = c.Eval(e.A[1])
		} else {
			v = c.Eval(e.A[2])
		}
	case OpExtract:
		v = c.Eval(e.A[0]) >> uint8(e.C) & mask(e.W)
	case OpConcat:
		v = c.Eval(e.A[0])<<e.A[1].W | c.Eval(e.A[1])
	case OpSExt:
		v = uint64(sext(c.Eval(e.A[0]), e.A[0].W)) & mask(e.W)
	default:
		x, y := c.Eval(e.A[0]), c.Eval(e.A[1])
		r, ok := foldBin(e.Op, e.W, x, y)
		if !ok {
			// SMT-LIB semantics of division by zero
			if e.Op == OpSDiv {
				if sext(x, e.W) < 0 {
					r = 1
				} else {
					r = mask(e.W)
				}
			} else {
				r = x
			}
		}
		v = r
	}
	e.mEpoch, e.mVal = c.epoch, v
	return v
}

var smtOp = map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt",
	OpSle: "bvsle", OpBAnd: "and", OpBOr: "or", OpBNot: "not", OpIte: "ite", OpConcat: "concat"}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// smt writes definitions of e's sub-terms to sb and returns its name.
func (e *Expr) smt(sb *strings.Builder, done map[*Expr]string) string {
	if s, ok := done[e]; ok {
		return s
	}
	var s string
	switch e.Op {
	case OpConst:
		if e.W == 0 {
			if e.C == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.C, e.W)
	case OpVar:
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", e.Name, sortOf(e.W))
		s = "|" + e.Name + "|"
		done[e] = s
		return s
	}
	var args []string
	for _, a := range e.A {
		if a != nil {
			args = append(args, a.smt(sb, done))
		}
	}
	var t string
	switch e.Op {
	case OpExtract:
		t = fmt.Sprintf("((_ extract %d %d) %s)", e.C>>8, e.C&255, args[0])
	case OpSExt:
		t = fmt.Sprintf("((_ sign_extend %d) %s)", e.W-e.A[0].W, args[0])
	default:
		t = "(" + smtOp[e.Op] + " " + strings.Join(args, " ") + ")"
	}
	s = fmt.Sprintf("e%d", e.id)
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", s, sortOf(e.W), t)
	done[e] = s
	return s
}

func (e *Expr) String() string {
	switch e.Op {
	case OpConst:
		if e.W == 0 {
			return fmt.Sprint(e.C == 1)
		}
		return fmt.Sprintf("%d", e.C)
	case OpVar:
		return e.Name
	}
	return fmt.Sprintf("<expr#%d w%d op%d>", e.id, e.W, e.Op)
}

func sortExprs(s []*Expr) { sort.Slice(s, func(i, j int) bool { return s[i].id < s[j].id }) }

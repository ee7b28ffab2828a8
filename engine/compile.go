package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	oNop opcode = iota
	oAlloc
	oBin
	oUn
	oCall
	oGo
	oDefer
	oChangeIface
	oChangeType
	oConvert
	oMakeIface
	oMakeClosure
	oMakeMap
	oMakeChan
	oMakeSlice
	oSlice
	oFieldAddr
	oField
	oIndexAddr
	oIndex
	oLookup
	oSelect
	oRange
	oNext
	oTypeAssert
	oExtract
	oJump
	oIf
	oReturn
	oRunDefers
	oPanic
	oSend
	oStore
	oMapUpdate
	oSlice2Arr
	oMultiConvert
	oIntr   // synthetic: call intrinsic with frame's args
	oRetDst // synthetic: return slot 0
)

type cInstr struct {
	op   opcode
	ins  ssa.Instruction
	dst  int32
	x    int32
	y    int32
	z    int32
	w    int32
	args []int32
	fn   *FnInfo // static callee
	k    int
	tok  token.Token
	typ  types.Type
	sgn  bool
	wid  uint8
}

type cPhi struct {
	dst   int32
	edges []int32
}

type cBlock struct {
	phis  []cPhi
	code  []cInstr
	preds []*ssa.BasicBlock
	succs []int
}

type FnInfo struct {
	fn      *ssa.Function
	name    string
	blocks  []cBlock
	nslots  int
	nparams int
	consts  []Value
	intr    intrinsic
	isInit  bool
	recover int
	steps   int64
	pkgPath string
}

func (it *Interp) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := it.fns[fn]; ok {
		return fi
	}
	orig := fn
	fi := &FnInfo{fn: fn, name: fn.String(), recover: -1}
	if fn.Origin() != nil {
		fi.name = fn.Origin().String()
	}
	if r := redirects[fi.name]; r != "" {
		fn = it.prog.ImportedPackage(hPkg).Func(r)
		fi.fn, fi.name = fn, fn.String()
	}
	if fn.Pkg != nil {
		fi.pkgPath = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		fi.pkgPath = o.Pkg().Path()
	}
	it.fns[orig] = fi
	if in := lookupIntrinsic(fi); in != nil {
		fi.intr = in
		return fi
	}
	if fn.Synthetic == "package initializer" && fn.Name() == "init" {
		fi.isInit = true
		if !it.initAllowed(fi.pkgPath) {
			fi.intr = func(it *Interp, g *G, a []Value) (Value, status) { return nil, rDone }
			return fi
		}
	}
	if fn.Blocks == nil {
		name := fi.name
		fi.intr = func(it *Interp, g *G, a []Value) (Value, status) {
			panic(unsupported("no body: " + name))
		}
		return fi
	}
	it.compile(fi)
	return fi
}

type compiler struct {
	it    *Interp
	fi    *FnInfo
	slots map[ssa.Value]int32
	cidx  map[ssa.Value]int32
}

func (c *compiler) slot(v ssa.Value) int32 {
	if s, ok := c.slots[v]; ok {
		return s
	}
	s := int32(c.fi.nslots)
	c.fi.nslots++
	c.slots[v] = s
	return s
}

func (c *compiler) ref(v ssa.Value) int32 {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		if i, ok := c.cidx[v]; ok {
			return i
		}
		var cv Value
		switch y := x.(type) {
		case *ssa.Const:
			cv = c.it.constVal(y)
		case *ssa.Global:
			cv = globalRef{y}
		case *ssa.Function:
			cv = &Closure{fn: y}
		case *ssa.Builtin:
			cv = &Closure{bi: y}
		}
		c.fi.consts = append(c.fi.consts, cv)
		i := -int32(len(c.fi.consts))
		c.cidx[v] = i
		return i
	}
	return c.slot(v)
}

func (it *Interp) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return it.zero(k.Type())
	}
	t, ok := k.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + k.Type().String()))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return it.c.Bool(constant.BoolVal(k.Value))
	case t.Info()&types.IsInteger != 0:
		w, signed := basicWidth(t)
		if signed {
			return it.c.Const(w, uint64(k.Int64()))
		}
		return it.c.Const(w, k.Uint64())
	case t.Info()&types.IsFloat != 0:
		return k.Float64()
	case t.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(k.Value)}
		}
		return Str{s: string(rune(k.Int64()))}
	case t.Info()&types.IsComplex != 0:
		return k.Complex128()
	}
	panic(unsupported("const " + k.String()))
}

func (it *Interp) compile(fi *FnInfo) {
	fn := fi.fn
	c := &compiler{it: it, fi: fi, slots: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		c.slot(p)
	}
	fi.nparams = len(fn.Params)
	for _, f := range fn.FreeVars {
		c.slot(f)
	}
	fi.blocks = make([]cBlock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.preds = b.Preds
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				p := cPhi{dst: c.slot(phi)}
				for _, e := range phi.Edges {
					p.edges = append(p.edges, c.ref(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			cb.code = append(cb.code, c.instr(ins))
		}
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
}

func (c *compiler) instr(ins ssa.Instruction) cInstr {
	ci := cInstr{ins: ins, dst: -1}
	if v, ok := ins.(ssa.Value); ok {
		ci.dst = c.slot(v)
		ci.typ = v.Type()
	}
	call := func(cc *ssa.CallCommon) {
		ci.x = c.ref(cc.Value)
		for _, a := range cc.Args {
			ci.args = append(ci.args, c.ref(a))
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		ci.op = oAlloc
		ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		ci.op = oBin
		ci.x, ci.y, ci.tok = c.ref(x.X), c.ref(x.Y), x.Op
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok {
			ci.wid, ci.sgn = basicWidth(b)
		}
		ci.typ = x.X.Type()
	case *ssa.UnOp:
		ci.op = oUn
		ci.x, ci.tok = c.ref(x.X), x.Op
	case *ssa.Call:
		ci.op = oCall
		call(x.Common())
	case *ssa.Go:
		ci.op = oGo
		call(x.Common())
	case *ssa.Defer:
		ci.op = oDefer
		call(x.Common())
	case *ssa.ChangeInterface:
		ci.op, ci.x = oChangeIface, c.ref(x.X)
	case *ssa.ChangeType:
		ci.op, ci.x = oChangeType, c.ref(x.X)
	case *ssa.Convert:
		ci.op, ci.x = oConvert, c.ref(x.X)
	case *ssa.MultiConvert:
		ci.op, ci.x = oConvert, c.ref(x.X)
	case *ssa.MakeInterface:
		ci.op, ci.x, ci.typ = oMakeIface, c.ref(x.X), x.X.Type()
	case *ssa.MakeClosure:
		ci.op = oMakeClosure
		for _, b := range x.Bindings {
			ci.args = append(ci.args, c.ref(b))
		}
	case *ssa.MakeMap:
		ci.op = oMakeMap
	case *ssa.MakeChan:
		ci.op, ci.x = oMakeChan, c.ref(x.Size)
	case *ssa.MakeSlice:
		ci.op, ci.x, ci.y = oMakeSlice, c.ref(x.Len), c.ref(x.Cap)
	case *ssa.Slice:
		ci.op, ci.x = oSlice, c.ref(x.X)
		opt := func(v ssa.Value) int32 {
			if v == nil {
				return 1 << 30
			}
			return c.ref(v)
		}
		ci.y, ci.z, ci.w = opt(x.Low), opt(x.High), opt(x.Max)
	case *ssa.SliceToArrayPointer:
		ci.op, ci.x = oSlice2Arr, c.ref(x.X)
	case *ssa.FieldAddr:
		ci.op, ci.x, ci.k = oFieldAddr, c.ref(x.X), x.Field
	case *ssa.Field:
		ci.op, ci.x, ci.k = oField, c.ref(x.X), x.Field
	case *ssa.IndexAddr:
		ci.op, ci.x, ci.y = oIndexAddr, c.ref(x.X), c.ref(x.Index)
	case *ssa.Index:
		ci.op, ci.x, ci.y = oIndex, c.ref(x.X), c.ref(x.Index)
	case *ssa.Lookup:
		ci.op, ci.x, ci.y = oLookup, c.ref(x.X), c.ref(x.Index)
	case *ssa.Select:
		ci.op = oSelect
		for _, s := range x.States {
			ci.args = append(ci.args, c.ref(s.Chan))
			if s.Send != nil {
				ci.args = append(ci.args, c.ref(s.Send))
			} else {
				ci.args = append(ci.args, 0)
			}
		}
	case *ssa.Range:
		ci.op, ci.x = oRange, c.ref(x.X)
	case *ssa.Next:
		ci.op, ci.x = oNext, c.ref(x.Iter)
	case *ssa.TypeAssert:
		ci.op, ci.x = oTypeAssert, c.ref(x.X)
	case *ssa.Extract:
		ci.op, ci.x, ci.k = oExtract, c.ref(x.Tuple), x.Index
	case *ssa.Jump:
		ci.op = oJump
	case *ssa.If:
		ci.op, ci.x = oIf, c.ref(x.Cond)
	case *ssa.Return:
		ci.op = oReturn
		for _, r := range x.Results {
			ci.args = append(ci.args, c.ref(r))
		}
	case *ssa.RunDefers:
		ci.op = oRunDefers
	case *ssa.Panic:
		ci.op, ci.x = oPanic, c.ref(x.X)
	case *ssa.Send:
		ci.op, ci.x, ci.y = oSend, c.ref(x.Chan), c.ref(x.X)
	case *ssa.Store:
		ci.op, ci.x, ci.y = oStore, c.ref(x.Addr), c.ref(x.Val)
	case *ssa.MapUpdate:
		ci.op, ci.x, ci.y, ci.z = oMapUpdate, c.ref(x.Map), c.ref(x.Key), c.ref(x.Value)
	default:
		panic(unsupported("instr " + ins.String()))
	}
	return ci
}

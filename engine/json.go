package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// encoding/json is modelled on trees of terms. Marshal renders a Go value to a
// text whose bytes are terms over the value's symbolic bytes (base64 of a
// symbolic byte slice is computed with bit-vector terms), and remembers the
// tree under exactly that sequence of terms. Unmarshal of a remembered text
// restores the tree; a fully concrete text goes through the host's
// encoding/json; a text of unknown symbolic bytes forks into the shapes listed
// in unknownText, the rest being outside the bound.

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jnode struct {
	k    jkind
	b    bool
	num  string
	str  []*Expr // string content
	raw  []*Expr // decoded base64, when known
	arr  []*jnode
	keys []string
}

type blob struct{ n *jnode }

func textKey(b []*Expr) string {
	var sb strings.Builder
	for _, e := range b {
		fmt.Fprintf(&sb, "%p,", e)
	}
	return sb.String()
}

func (it *Interp) b64char(e *Expr) *Expr { // e: 8-bit term < 64
	c := it.c
	k := func(v uint64) *Expr { return c.Const(8, v) }
	return c.Ite(c.Cmp(OpUlt, e, k(26)), c.Bin(OpAdd, e, k('A')),
		c.Ite(c.Cmp(OpUlt, e, k(52)), c.Bin(OpAdd, e, k('a'-26)),
			c.Ite(c.Cmp(OpUlt, e, k(62)), c.Bin(OpAdd, e, k(256+'0'-52)),
				c.Ite(c.Eq(e, k(62)), k('+'), k('/')))))
}

func (it *Interp) base64(b []*Expr) []*Expr {
	conc := true
	for _, e := range b {
		if !e.IsConst() {
			conc = false
		}
	}
	if conc {
		h := make([]byte, len(b))
		for i, e := range b {
			h[i] = byte(e.C)
		}
		return it.strBytes(Str{s: base64.StdEncoding.EncodeToString(h)})
	}
	c := it.c
	k := func(v uint64) *Expr { return c.Const(8, v) }
	var out []*Expr
	for i := 0; i < len(b); i += 3 {
		g := [3]*Expr{b[i], k(0), k(0)}
		n := 1
		for j := 1; j < 3 && i+j < len(b); j++ {
			g[j] = b[i+j]
			n++
		}
		six := []*Expr{
			c.Bin(OpLShr, g[0], k(2)),
			c.Bin(OpOr, c.Bin(OpShl, c.Bin(OpAnd, g[0], k(3)), k(4)), c.Bin(OpLShr, g[1], k(4))),
			c.Bin(OpOr, c.Bin(OpShl, c.Bin(OpAnd, g[1], k(15)), k(2)), c.Bin(OpLShr, g[2], k(6))),
			c.Bin(OpAnd, g[2], k(63)),
		}
		for j := 0; j < 4; j++ {
			if j <= n {
				out = append(out, it.b64char(six[j]))
			} else {
				out = append(out, k('='))
			}
		}
	}
	return out
}

type jfield struct {
	name string
	omit bool
	idx  []int
	typ  types.Type
}

func jsonFields(st *types.Struct) []jfield {
	var r []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Embedded() && name == "" {
			t := f.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				panic(unsupported("json: embedded pointer " + p.String()))
			}
			if es, ok := t.Underlying().(*types.Struct); ok {
				for _, g := range jsonFields(es) {
					g.idx = append([]int{i}, g.idx...)
					r = append(r, g)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		if strings.Contains(opts, "string") {
			panic(unsupported("json: string option"))
		}
		r = append(r, jfield{name, strings.Contains(opts, "omitempty"), []int{i}, f.Type()})
	}
	return r
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isTime(t types.Type) bool { return types.TypeString(t, nil) == "time.Time" }

func (it *Interp) hostTime(v Value) time.Time {
	s := v.(Struct)
	wall := it.concretize(s[0].(*Expr), "time")
	ext := int64(it.concretize(s[1].(*Expr), "time"))
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	const wallToInternal int64 = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	nsec := int64(wall & (1<<30 - 1))
	sec := ext
	if wall>>63 != 0 {
		sec = wallToInternal + int64(wall<<1>>(30+1))
	}
	return time.Unix(sec-unixToInternal, nsec).UTC()
}

func (it *Interp) fromHostTime(t time.Time) Value {
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	return Struct{it.c.Const(64, uint64(t.Nanosecond())), it.c.Const(64, uint64(t.Unix()+unixToInternal)), (*Value)(nil)}
}

// jempty reports whether omitempty drops the value.
func (it *Interp) jempty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case *Expr:
		if x.W == 0 {
			return !it.branch(x, "json omitempty")
		}
		return it.branch(it.c.Eq(x, it.c.Const(x.W, 0)), "json omitempty")
	case Str:
		return x.Len() == 0
	case Slice:
		return len(x) == 0
	case *Value:
		return x == nil
	case *MapV:
		return x == nil || x.live == 0
	case Iface:
		return x.T == nil
	case float64:
		return x == 0
	case Array:
		return len(x) == 0
	}
	return false
}

func (it *Interp) toNode(t types.Type, v Value) *jnode {
	if isTime(t) {
		return &jnode{k: jStr, str: it.strBytes(Str{s: it.hostTime(v).Format(time.RFC3339Nano)})}
	}
	if x, ok := v.(Iface); ok {
		if x.T == nil {
			return &jnode{k: jNull}
		}
		return it.toNode(x.T, x.V)
	}
	if n, ok := t.(*types.Named); ok {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if ms := it.prog.MethodSets.MethodSet(types.NewPointer(n)); ms.Lookup(nil, m) != nil {
				panic(unsupported("json: " + m + " of " + n.String()))
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Expr:
			if x.W == 0 {
				return &jnode{k: jBool, b: it.branch(x, "json bool")}
			}
			w, s := basicWidth(u)
			c := it.concretize(x, "json number")
			if s {
				return &jnode{k: jNum, num: strconv.FormatInt(sext(c, w), 10)}
			}
			return &jnode{k: jNum, num: strconv.FormatUint(c, 10)}
		case Str:
			return &jnode{k: jStr, str: it.strBytes(x)}
		case float64:
			b, _ := json.Marshal(x)
			return &jnode{k: jNum, num: string(b)}
		}
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return &jnode{k: jNull}
		}
		return it.toNode(u.Elem(), *p)
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			return &jnode{k: jNull}
		}
		if isByteSlice(t) {
			raw := it.sliceBytes(s)
			return &jnode{k: jStr, raw: append([]*Expr{}, raw...), str: it.base64(raw)}
		}
		n := &jnode{k: jArr}
		for _, e := range s {
			n.arr = append(n.arr, it.toNode(u.Elem(), e))
		}
		return n
	case *types.Struct:
		n := &jnode{k: jObj}
		for _, f := range jsonFields(u) {
			var fv Value = v
			for _, i := range f.idx {
				fv = fv.(Struct)[i]
			}
			if f.omit && it.jempty(f.typ, fv) {
				continue
			}
			n.keys = append(n.keys, f.name)
			n.arr = append(n.arr, it.toNode(f.typ, fv))
		}
		return n
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return &jnode{k: jNull}
		}
	}
	panic(unsupported("json: marshal " + t.String()))
}

func (it *Interp) jsonStr(b []*Expr) []*Expr {
	out := []*Expr{it.c.Const(8, '"')}
	conc := true
	for _, e := range b {
		if !e.IsConst() {
			conc = false
		}
	}
	if conc {
		h := make([]byte, len(b))
		for i, e := range b {
			h[i] = byte(e.C)
		}
		t, _ := json.Marshal(string(h))
		return it.strBytes(Str{s: string(t)})
	}
	plain := func(e *Expr) bool {
		// needs no escape; otherwise outside the bound
		c := it.c
		cond := c.BAnd(c.Cmp(OpUle, c.Const(8, 0x20), e), c.Cmp(OpUle, e, c.Const(8, 0x7e)))
		for _, x := range `"\<>&` {
			cond = c.BAnd(cond, c.BNot(c.Eq(e, c.Const(8, uint64(x)))))
		}
		return it.branch(cond, "json string escape")
	}
	for _, e := range b {
		if e.Op == OpIte { // base64 output never needs an escape
			out = append(out, e)
			continue
		}
		if !plain(e) {
			it.note("JSON strings with symbolic characters that need escapes: unexplored")
			panic(pathEnd{"cut", "json escape"})
		}
		out = append(out, e)
	}
	return append(out, it.c.Const(8, '"'))
}

func (it *Interp) render(n *jnode) []*Expr {
	lit := func(s string) []*Expr { return it.strBytes(Str{s: s}) }
	switch n.k {
	case jNull:
		return lit("null")
	case jBool:
		return lit(strconv.FormatBool(n.b))
	case jNum:
		return lit(n.num)
	case jStr:
		return it.jsonStr(n.str)
	case jArr:
		out := lit("[")
		for i, e := range n.arr {
			if i > 0 {
				out = append(out, lit(",")...)
			}
			out = append(out, it.render(e)...)
		}
		return append(out, lit("]")...)
	}
	out := lit("{")
	for i, e := range n.arr {
		if i > 0 {
			out = append(out, lit(",")...)
		}
		k, _ := json.Marshal(n.keys[i])
		out = append(out, lit(string(k)+":")...)
		out = append(out, it.render(e)...)
	}
	return append(out, lit("}")...)
}

func jsonMarshal(it *Interp, g *G, a []Value) (Value, status) {
	x := a[0].(Iface)
	var n *jnode
	if x.T == nil {
		n = &jnode{k: jNull}
	} else {
		n = it.toNode(x.T, x.V)
	}
	out := it.render(n)
	it.blobs[textKey(out)] = &blob{n}
	return Tuple{it.bytesSlice(out), Iface{}}, rDone
}

func (it *Interp) hostNode(v any) *jnode {
	switch x := v.(type) {
	case nil:
		return &jnode{k: jNull}
	case bool:
		return &jnode{k: jBool, b: x}
	case json.Number:
		return &jnode{k: jNum, num: string(x)}
	case string:
		return &jnode{k: jStr, str: it.strBytes(Str{s: x})}
	case []any:
		n := &jnode{k: jArr}
		for _, e := range x {
			n.arr = append(n.arr, it.hostNode(e))
		}
		return n
	case map[string]any:
		n := &jnode{k: jObj}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, it.hostNode(x[k]))
		}
		return n
	}
	panic("hostNode")
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// fromNode stores n into *p of type t; it returns an error text or "".
func (it *Interp) fromNode(t types.Type, p *Value, n *jnode) string {
	mismatch := func(what string) string {
		return "json: cannot unmarshal " + what + " into Go value of type " + t.String()
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == jNull {
			assign(p, (*Value)(nil))
			return ""
		}
		if (*p).(*Value) == nil {
			np := new(Value)
			*np = it.zero(pt.Elem())
			*p = np
		}
		return it.fromNode(pt.Elem(), (*p).(*Value), n)
	}
	if n.k == jNull {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Interface:
			assign(p, it.zero(t))
		}
		return ""
	}
	if isTime(t) {
		if n.k != jStr {
			return "Time.UnmarshalJSON: input is not a JSON string"
		}
		s := it.mkStr(n.str)
		if s.b != nil {
			panic(unsupported("json: symbolic time"))
		}
		tm, err := time.Parse(time.RFC3339, s.s)
		if err != nil {
			return err.Error()
		}
		assign(p, it.fromHostTime(tm))
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.k != jStr {
				return mismatch("value")
			}
			*p = it.mkStr(n.str)
		case u.Info()&types.IsBoolean != 0:
			if n.k != jBool {
				return mismatch("value")
			}
			*p = it.c.Bool(n.b)
		case u.Info()&types.IsInteger != 0:
			if n.k != jNum {
				return mismatch("value")
			}
			w, s := basicWidth(u)
			if s {
				v, err := strconv.ParseInt(n.num, 10, int(w))
				if err != nil {
					return mismatch("number " + n.num)
				}
				*p = it.c.Const(w, uint64(v))
			} else {
				v, err := strconv.ParseUint(n.num, 10, int(w))
				if err != nil {
					return mismatch("number " + n.num)
				}
				*p = it.c.Const(w, v)
			}
		default:
			panic(unsupported("json: unmarshal into " + t.String()))
		}
		return ""
	case *types.Slice:
		if isByteSlice(t) {
			if n.k != jStr {
				return mismatch("value")
			}
			raw := n.raw
			if raw == nil {
				s := it.mkStr(n.str)
				if s.b != nil {
					panic(unsupported("json: symbolic base64 of unknown origin"))
				}
				h, err := base64.StdEncoding.DecodeString(s.s)
				if err != nil {
					return err.Error()
				}
				raw = it.sliceBytes(it.fromHostBytes(h))
			}
			*p = it.bytesSlice(raw)
			return ""
		}
		if n.k != jArr {
			return mismatch("value")
		}
		r := make(Slice, len(n.arr))
		for i, e := range n.arr {
			r[i] = it.zero(u.Elem())
			if m := it.fromNode(u.Elem(), &r[i], e); m != "" {
				return m
			}
		}
		*p = r
		return ""
	case *types.Struct:
		if n.k != jObj {
			return mismatch("value")
		}
		fs := jsonFields(u)
		first := ""
		for i, k := range n.keys {
			var hit *jfield
			for j := range fs {
				if fs[j].name == k {
					hit = &fs[j]
					break
				}
			}
			if hit == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, k) {
						hit = &fs[j]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			s := (*p).(Struct)
			for _, x := range hit.idx[:len(hit.idx)-1] {
				s = s[x].(Struct)
			}
			if m := it.fromNode(hit.typ, &s[hit.idx[len(hit.idx)-1]], n.arr[i]); m != "" && first == "" {
				first = m
			}
		}
		return first
	}
	panic(unsupported("json: unmarshal into " + t.String()))
}

func jsonUnmarshal(it *Interp, g *G, a []Value) (Value, status) {
	data := it.sliceBytes(a[0].(Slice))
	x := a[1].(Iface)
	pt, ok := x.T.Underlying().(*types.Pointer)
	fail := func(m string) (Value, status) {
		return it.mkError(m), rDone
	}
	if !ok || x.V.(*Value) == nil {
		return fail("json: Unmarshal(nil or non-pointer)")
	}
	var n *jnode
	if b := it.blobs[textKey(data)]; b != nil {
		n = b.n
	} else if h, conc := it.hostBytes(a[0].(Slice)); conc {
		if !json.Valid(h) {
			var v any
			return fail(json.Unmarshal(h, &v).Error())
		}
		d := json.NewDecoder(strings.NewReader(string(h)))
		d.UseNumber()
		var v any
		if err := d.Decode(&v); err != nil {
			return fail(err.Error())
		}
		n = it.hostNode(v)
	} else {
		n = it.unknownText(data)
		if n == nil {
			return fail("invalid character looking for beginning of value")
		}
	}
	if m := it.fromNode(pt.Elem(), x.V.(*Value), n); m != "" {
		return fail(m)
	}
	return Iface{}, rDone
}

// unknownText covers three shapes of symbolic text: one that cannot begin a
// JSON value (error: nil), "{}" followed by spaces, and the rest, which is
// outside the bound.
func (it *Interp) unknownText(b []*Expr) *jnode {
	c := it.c
	k := func(v uint64) *Expr { return c.Const(8, v) }
	start := c.False
	for _, x := range "{[\"-0123456789tfn \t\r\n" {
		start = c.BOr(start, c.Eq(b[0], k(uint64(x))))
	}
	if !it.branch(start, "json start") {
		return nil
	}
	if len(b) >= 2 {
		empty := c.BAnd(c.Eq(b[0], k('{')), c.Eq(b[1], k('}')))
		for _, e := range b[2:] {
			empty = c.BAnd(empty, c.Eq(e, k(' ')))
		}
		if it.branch(empty, "json {}") {
			return &jnode{k: jObj}
		}
	}
	// the scanner rejects a second byte that cannot continue an object
	if len(b) >= 2 {
		bad := c.Eq(b[0], k('{'))
		for _, x := range "\"} \t\r\n" {
			bad = c.BAnd(bad, c.BNot(c.Eq(b[1], k(uint64(x)))))
		}
		if it.branch(bad, "json bad object") {
			return nil
		}
	}
	it.note("symbolic JSON text of other shapes: outside the bound")
	panic(pathEnd{"cut", "json text"})
}

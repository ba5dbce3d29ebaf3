package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool | *Term (width 0)            booleans
//	int64 | *Term (width 8..64)       integers (unsigned 64-bit kept as bit pattern)
//	float64
//	string | *SymStr
//	Ptr, Slice, *MapObj, *Closure, Iface, StructV, ArrayV, Tuple
type Value = any

// Obj is one allocation.
type Obj struct {
	seq    int64
	site   string
	poison string // set when the object was handed back to a pool
	ext    any
	shared bool
}

type Ptr struct {
	c *Value
	o *Obj
}

// Slice: a is the backing from the offset to the capacity.
type Slice struct {
	a []Value
	n int
	o *Obj
}

type StructV []Value
type ArrayV []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn *ssa.Function
	fv []Value
}

// BoundNative is a Go-implemented function value.
type Native struct {
	name string
	f    func(it *Interp, args []Value) Value
}

type SymStr struct {
	n *Term   // length, width 64
	b []*Term // width 8, zero beyond the length
	// alts, if set: the string is alts[i].s exactly when alts[i].c holds
	alts []alt
}

type alt struct {
	c *Term
	s string
}

const maxAlts = 12

func (it *Interp) altsOf(v Value) []alt {
	switch x := v.(type) {
	case string:
		return []alt{{it.st.tru, x}}
	case *SymStr:
		return x.alts
	}
	return nil
}

// iteAlts merges the alternatives of two strings.
func (it *Interp) iteAlts(c *Term, a, b Value) []alt {
	xa, xb := it.altsOf(a), it.altsOf(b)
	if xa == nil || xb == nil {
		return nil
	}
	var r []alt
	add := func(g *Term, s string) {
		if g == it.st.fls {
			return
		}
		for i := range r {
			if r[i].s == s {
				r[i].c = it.st.Or(r[i].c, g)
				return
			}
		}
		r = append(r, alt{g, s})
	}
	for _, x := range xa {
		add(it.st.And(c, x.c), x.s)
	}
	nc := it.st.Not(c)
	for _, x := range xb {
		add(it.st.And(nc, x.c), x.s)
	}
	if len(r) > maxAlts {
		return nil
	}
	return r
}

type strData struct{ s Value } // *byte of a string
type slData struct{ s Slice }  // *T of a slice
type mapEnt struct {
	id   int64
	k, v Value
	p    *Term // present exactly when p holds; nil: present
}
type MapObj struct {
	o    *Obj
	vt   types.Type // element type, if known
	ents []mapEnt
	conc bool // all keys concrete and hashed in idx
	idx  map[any]int
}

type opaque struct{ what string }

func under(t types.Type) types.Type {
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
	}
	return u
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func wrapInt(v int64, w uint8, signed bool) int64 {
	if w >= 64 {
		return v
	}
	if signed {
		return sext(uint64(v)&mask(w), w)
	}
	return int64(uint64(v) & mask(w))
}

func (it *Interp) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = it.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(ArrayV, n)
		for i := range a {
			a[i] = it.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = it.zero(u.At(i).Type())
		}
		return tt
	}
	panic(unsupported{fmt.Sprintf("zero of %s", t)})
}

// cp copies value-semantics aggregates.
func cp(v Value) Value {
	switch x := v.(type) {
	case StructV:
		n := make(StructV, len(x))
		for i := range x {
			n[i] = cp(x[i])
		}
		return n
	case ArrayV:
		n := make(ArrayV, len(x))
		for i := range x {
			n[i] = cp(x[i])
		}
		return n
	}
	return v
}

type unsupported struct{ msg string }
type pathEnd struct{ why string }
type targetPanic struct {
	v   Value // Iface
	msg string
}
type mergeAbort struct {
	ex  *Explorer
	why string
}
type hang struct{ what string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- booleans and integers ----

func (it *Interp) b2t(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return it.st.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("b2t %T", v))
}
func (it *Interp) t2b(t *Term) Value {
	if t.isConst() {
		return t.val != 0
	}
	return t
}
func (it *Interp) i2t(v Value, w uint8) *Term {
	switch x := v.(type) {
	case int64:
		return it.st.Const(w, uint64(x))
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("i2t width %d want %d", x.w, w))
		}
		return x
	}
	panic(fmt.Sprintf("i2t %T", v))
}
func (it *Interp) t2i(t *Term, signed bool) Value {
	if t.isConst() {
		if signed {
			return sext(t.val, t.w)
		}
		return int64(t.val)
	}
	return t
}

func (it *Interp) not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return it.t2b(it.st.Not(v.(*Term)))
}
func (it *Interp) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return it.t2b(it.st.And(a.(*Term), b.(*Term)))
}
func (it *Interp) or(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if x {
			return true
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if x {
			return true
		}
		return a
	}
	return it.t2b(it.st.Or(a.(*Term), b.(*Term)))
}

// ---- equality ----

func (it *Interp) eq(a, b Value) Value {
	switch x := a.(type) {
	case nil:
		switch y := b.(type) {
		case nil:
			return true
		case Iface:
			return y.t == nil
		}
		unsup("eq nil %T", b)
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return it.t2b(it.st.Eq(it.st.Bool(x), b.(*Term)))
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
		y, ok := b.(*Term)
		if !ok {
			unsup("eq int64 %T", b)
		}
		return it.t2b(it.st.Eq(it.st.Const(y.w, uint64(x)), y))
	case *Term:
		switch y := b.(type) {
		case bool:
			return it.t2b(it.st.Eq(x, it.st.Bool(y)))
		case int64:
			return it.t2b(it.st.Eq(x, it.st.Const(x.w, uint64(y))))
		case *Term:
			return it.t2b(it.st.Eq(x, y))
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
	case complex128:
		if y, ok := b.(complex128); ok {
			return x == y
		}
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return it.strEq(a, b)
	case *SymStr:
		return it.strEq(a, b)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x.c == y.c
		case strData, slData:
			return false
		}
	case *MapObj:
		y := b.(*MapObj)
		return x == y
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == nil || y == nil {
			return x == y
		}
		unsup("comparing func values")
	case *Native:
		return false
	case Slice:
		y := b.(Slice)
		if x.o == nil || y.o == nil {
			return x.o == nil && y.o == nil
		}
		unsup("comparing slices")
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("eq iface %T", b)
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !it.sameType(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			panic(it.rtPanic("runtime error: comparing uncomparable type " + x.t.String()))
		}
		return it.eq(x.v, y.v)
	case StructV:
		y := b.(StructV)
		var r Value = true
		for i := range x {
			r = it.and(r, it.eq(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		var r Value = true
		for i := range x {
			r = it.and(r, it.eq(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	}
	unsup("eq %T %T", a, b)
	return nil
}

func (it *Interp) sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

// ---- strings ----

func strMax(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(unsupported{fmt.Sprintf("strMax %T", v)})
}

func (it *Interp) strLen(v Value) Value {
	switch x := v.(type) {
	case string:
		return int64(len(x))
	case *SymStr:
		return it.t2i(x.n, true)
	}
	panic(unsupported{fmt.Sprintf("strLen %T", v)})
}

func (it *Interp) strLenT(v Value) *Term { return it.i2t(it.strLen(v), 64) }

// byte term at a concrete position (zero beyond the end)
func (it *Interp) strByte(v Value, i int) *Term {
	switch x := v.(type) {
	case string:
		if i < len(x) {
			return it.st.Const(8, uint64(x[i]))
		}
	case *SymStr:
		if i < len(x.b) {
			return x.b[i]
		}
	}
	return it.st.Const(8, 0)
}

func (it *Interp) strEq(a, b Value) Value {
	if x, ok := a.(*SymStr); ok {
		if y, ok := b.(*SymStr); ok && x == y {
			return true
		}
	}
	if xa, xb := it.altsOf(a), it.altsOf(b); xa != nil && xb != nil {
		r := it.st.fls
		for _, x := range xa {
			for _, y := range xb {
				if x.s == y.s {
					r = it.st.Or(r, it.st.And(x.c, y.c))
				}
			}
		}
		return it.t2b(r)
	}
	r := it.st.Eq(it.strLenT(a), it.strLenT(b))
	if r == it.st.fls {
		return false
	}
	n := max(strMax(a), strMax(b))
	for i := 0; i < n; i++ {
		r = it.st.And(r, it.st.Eq(it.strByte(a, i), it.strByte(b, i)))
		if r == it.st.fls {
			return false
		}
	}
	return it.t2b(r)
}

// strLess: a < b lexicographically
func (it *Interp) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	n := max(strMax(a), strMax(b))
	la, lb := it.strLenT(a), it.strLenT(b)
	r := it.st.fls
	r = it.st.Cmp(OUlt, la, lb) // all common bytes equal: shorter is less
	for i := n - 1; i >= 0; i-- {
		x, y := it.strByte(a, i), it.strByte(b, i)
		ci := it.st.Const(64, uint64(i))
		aHas, bHas := it.st.Cmp(OUlt, ci, la), it.st.Cmp(OUlt, ci, lb)
		both := it.st.And(aHas, bHas)
		// if both have position i: x<y true; x>y false; equal continue; otherwise length decides
		byBytes := it.st.Ite(it.st.Cmp(OUlt, x, y), it.st.tru, it.st.Ite(it.st.Eq(x, y), r, it.st.fls))
		r = it.st.Ite(both, byBytes, it.st.Cmp(OUlt, la, lb))
	}
	return it.t2b(r)
}

// mkStr normalises to a Go string when everything is constant.
func (it *Interp) mkStr(n *Term, b []*Term) Value {
	// trim constant-zero tail that cannot be reached
	if n.isConst() {
		b = b[:min(len(b), int(n.val))]
		all := true
		for _, x := range b {
			if !x.isConst() {
				all = false
				break
			}
		}
		if all {
			bs := make([]byte, len(b))
			for i := range b {
				bs[i] = byte(b[i].val)
			}
			return string(bs)
		}
	}
	return &SymStr{n: n, b: b}
}

func (it *Interp) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	la, lb := it.strLenT(a), it.strLenT(b)
	ma, mb := strMax(a), strMax(b)
	n := it.st.Bin(OAdd, la, lb)
	out := make([]*Term, ma+mb)
	if la.isConst() {
		k := int(la.val)
		for i := range out {
			if i < k {
				out[i] = it.strByte(a, i)
			} else {
				out[i] = it.strByte(b, i-k)
			}
		}
		return it.mkStr(n, out[:k+mb])
	}
	for i := range out {
		// byte i is a[i] if i < la, else b[i-la]
		t := it.st.Const(8, 0)
		for k := 0; k <= min(i, ma); k++ {
			bb := it.strByte(b, i-k)
			if bb.isConst() && bb.val == 0 {
				continue
			}
			t = it.st.Ite(it.st.Eq(la, it.st.Const(64, uint64(k))), bb, t)
		}
		// a is zero beyond its length, so or-ing by ite on i<la
		if i < ma {
			t = it.st.Ite(it.st.Cmp(OUlt, it.st.Const(64, uint64(i)), la), it.strByte(a, i), t)
		}
		out[i] = t
	}
	return it.mkStr(n, out)
}

// concStr forks until the string's length is concrete.
func (it *Interp) concLen(v Value) (Value, int) {
	switch x := v.(type) {
	case string:
		return v, len(x)
	case *SymStr:
		if x.n.isConst() {
			return v, int(x.n.val)
		}
		n := it.concretize(x.n, 0, int64(len(x.b)))
		return it.mkStr(it.st.Const(64, uint64(n)), x.b[:n]), int(n)
	}
	panic(unsupported{fmt.Sprintf("concLen %T", v)})
}

func (it *Interp) strFromBytes(bs []Value) Value {
	out := make([]*Term, len(bs))
	for i, v := range bs {
		out[i] = it.i2t(v, 8)
	}
	return it.mkStr(it.st.Const(64, uint64(len(bs))), out)
}

// strSlice computes s[lo:hi]; hi nil means len.
func (it *Interp) strSlice(s Value, lo, hi Value) Value {
	var lov Value = int64(0)
	if lo != nil {
		lov = lo
	}
	if cs, ok := s.(string); ok {
		if l, ok := lov.(int64); ok {
			h, okh := int64(len(cs)), true
			if hi != nil {
				h, okh = hi.(int64)
			}
			if okh {
				if l < 0 || h < l || h > int64(len(cs)) {
					panic(it.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, len(cs))))
				}
				return cs[l:h]
			}
		}
	}
	n := it.strLenT(s)
	ht := n
	if hi != nil {
		ht = it.i2t(hi, 64)
	}
	lt := it.i2t(lov, 64)
	ok := it.st.And(it.st.Cmp(OUle, lt, ht), it.st.Cmp(OUle, ht, n))
	if !it.branch(it.t2b(ok)) {
		panic(it.rtPanic("runtime error: slice bounds out of range"))
	}
	l, isc := lov.(int64)
	if !isc {
		l = it.concretize(lt, 0, int64(strMax(s)))
	}
	m := strMax(s)
	nn := it.st.Bin(OSub, ht, it.st.Const(64, uint64(l)))
	out := []*Term{}
	for i := int(l); i < m; i++ {
		b := it.strByte(s, i)
		if hi != nil {
			b = it.st.Ite(it.st.Cmp(OUlt, it.st.Const(64, uint64(i)), ht), b, it.st.Const(8, 0))
		}
		out = append(out, b)
	}
	return it.mkStr(nn, out)
}

func (it *Interp) strIndex(s Value, i Value) Value {
	if cs, ok := s.(string); ok {
		if k, ok := i.(int64); ok {
			if k < 0 || k >= int64(len(cs)) {
				panic(it.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, len(cs))))
			}
			return int64(cs[k])
		}
	}
	n := it.strLenT(s)
	t := it.i2t(i, 64)
	if !it.branch(it.t2b(it.st.Cmp(OUlt, t, n))) {
		panic(it.rtPanic("runtime error: index out of range"))
	}
	if k, ok := i.(int64); ok {
		return it.t2i(it.strByte(s, int(k)), false)
	}
	m := strMax(s)
	r := it.strByte(s, 0)
	for k := 1; k < m; k++ {
		r = it.st.Ite(it.st.Eq(t, it.st.Const(64, uint64(k))), it.strByte(s, k), r)
	}
	return it.t2i(r, false)
}

// iteV merges two mergeable values.
func (it *Interp) iteV(c *Term, a, b Value) (Value, bool) {
	if c == it.st.tru {
		return a, true
	}
	if c == it.st.fls {
		return b, true
	}
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool, *Term:
			return it.t2b(it.st.Ite(c, it.st.Bool(x), it.b2t(y))), true
		}
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return x, true
			}
			return nil, false // width unknown; handled by iteVT
		case *Term:
			if y.w == 0 {
				return nil, false
			}
			return it.st.Ite(c, it.st.Const(y.w, uint64(x)), y), true
		}
	case *Term:
		switch y := b.(type) {
		case bool:
			return it.t2b(it.st.Ite(c, x, it.st.Bool(y))), true
		case int64:
			return it.st.Ite(c, x, it.st.Const(x.w, uint64(y))), true
		case *Term:
			if x.w == y.w {
				return it.st.Ite(c, x, y), true
			}
		}
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
			if xs, ok := a.(string); ok {
				if ys, ok := b.(string); ok && xs == ys {
					return a, true
				}
			}
			n := it.st.Ite(c, it.strLenT(a), it.strLenT(b))
			m := max(strMax(a), strMax(b))
			bs := make([]*Term, m)
			for i := range bs {
				bs[i] = it.st.Ite(c, it.strByte(a, i), it.strByte(b, i))
			}
			r := it.mkStr(n, bs)
			if y, ok := r.(*SymStr); ok {
				y.alts = it.iteAlts(c, a, b)
			}
			return r, true
		}
	}
	return nil, false
}

// iteVT merges values of static type t.
func (it *Interp) iteVT(c *Term, a, b Value, t types.Type) (Value, bool) {
	if sameLeaf(a, b) {
		return a, true
	}
	if w, signed, ok := intInfo(t); ok {
		return it.t2i(it.st.Ite(c, it.i2t(a, w), it.i2t(b, w)), signed), true
	}
	switch u := under(t).(type) {
	case *types.Struct:
		x, y := a.(StructV), b.(StructV)
		out := make(StructV, len(x))
		for i := range x {
			v, ok := it.iteVT(c, x[i], y[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case *types.Tuple:
		x, y := a.(Tuple), b.(Tuple)
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := it.iteVT(c, x[i], y[i], u.At(i).Type())
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case *types.Interface:
		x, ok1 := a.(Iface)
		y, ok2 := b.(Iface)
		if !ok1 || !ok2 {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !it.sameType(x.t, y.t) {
			return nil, false
		}
		v, ok := it.iteVT(c, x.v, y.v, x.t)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	}
	if v, ok := it.iteV(c, a, b); ok {
		return v, true
	}
	switch a.(type) {
	case Ptr, *MapObj:
		if it.eq(a, b) == true {
			return a, true
		}
	case *Closure:
		if a == b {
			return a, true
		}
	}
	return nil, false
}

// ---- printing (for reports) ----

func show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	case *Term:
		return "<sym>"
	case *SymStr:
		return "<symstr>"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + "(" + show(x.v) + ")"
	case StructV:
		var p []string
		for _, f := range x {
			p = append(p, show(f))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Ptr:
		if x.c == nil {
			return "nil"
		}
		return "&" + show(*x.c)
	}
	return fmt.Sprintf("%v", v)
}

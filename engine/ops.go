package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var ssaMu sync.Mutex

func (it *Interp) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		return it.load(v)
	case token.NOT:
		return it.not(v)
	case token.SUB:
		switch y := v.(type) {
		case int64:
			w, s, _ := intInfo(x.Type())
			return wrapInt(-y, w, s)
		case float64:
			return -y
		case *Term:
			_, s, _ := intInfo(x.Type())
			return it.t2i(it.st.Neg(y), s)
		}
	case token.XOR:
		switch y := v.(type) {
		case int64:
			w, s, _ := intInfo(x.Type())
			return wrapInt(^y, w, s)
		case *Term:
			_, s, _ := intInfo(x.Type())
			return it.t2i(it.st.BNot(y), s)
		}
	}
	panic(unsupported{fmt.Sprintf("unop %s on %T", x.Op, v)})
}

func (it *Interp) binop(op token.Token, t, t2 types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return it.eqT(t, t2, a, b)
	case token.NEQ:
		return it.not(it.eqT(t, t2, a, b))
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return it.strConcat(a, b)
		case token.LSS:
			return it.strLess(a, b)
		case token.GTR:
			return it.strLess(b, a)
		case token.LEQ:
			return it.not(it.strLess(b, a))
		case token.GEQ:
			return it.not(it.strLess(a, b))
		}
	}
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		if !ok {
			unsup("symbolic float")
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.GTR:
			return x > y
		case token.LEQ:
			return x <= y
		case token.GEQ:
			return x >= y
		}
	}
	w, signed, ok := intInfo(t)
	if !ok {
		unsup("binop %s on %s", op, t)
	}
	x, c1 := a.(int64)
	y, c2 := b.(int64)
	if c1 && c2 {
		return it.intOp(op, w, signed, x, y, t2)
	}
	if op == token.SHL || op == token.SHR {
		w2, s2, _ := intInfo(t2)
		sb := it.i2t(b, w2)
		if s2 {
			if it.branch(it.t2b(it.st.Cmp(OSlt, sb, it.st.Const(w2, 0)))) {
				panic(it.rtPanic("runtime error: negative shift amount"))
			}
		}
		// widen or saturate to width w
		var sh *Term
		if w2 <= w {
			sh = it.st.Resize(sb, w, false)
		} else {
			big := it.st.Cmp(OUlt, it.st.Const(w2, uint64(w)-1), sb)
			sh = it.st.Ite(big, it.st.Const(w, uint64(w)), it.st.Resize(sb, w, false))
		}
		at := it.i2t(a, w)
		o := OShl
		if op == token.SHR {
			o = OLshr
			if signed {
				o = OAshr
			}
		}
		return it.t2i(it.st.Bin(o, at, sh), signed)
	}
	at, bt := it.i2t(a, w), it.i2t(b, w)
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return it.t2b(it.st.Cmp(lt, at, bt))
	case token.LEQ:
		return it.t2b(it.st.Cmp(le, at, bt))
	case token.GTR:
		return it.t2b(it.st.Cmp(lt, bt, at))
	case token.GEQ:
		return it.t2b(it.st.Cmp(le, bt, at))
	}
	var o Op
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		return it.t2i(it.st.Bin(OBAnd, at, it.st.BNot(bt)), signed)
	case token.QUO, token.REM:
		if it.branch(it.t2b(it.st.Eq(bt, it.st.Const(w, 0)))) {
			panic(it.rtPanic("runtime error: integer divide by zero"))
		}
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case signed:
			o = OSRem
		default:
			o = OURem
		}
	default:
		unsup("binop %s", op)
	}
	return it.t2i(it.st.Bin(o, at, bt), signed)
}

func (it *Interp) eqT(t, t2 types.Type, a, b Value) Value {
	// comparing interface with concrete
	_, i1 := under(t).(*types.Interface)
	_, i2 := under(t2).(*types.Interface)
	if i1 && !i2 {
		if b == nil {
			b = Iface{}
		} else if _, ok := b.(Iface); !ok {
			b = Iface{t2, b}
		}
	}
	if i2 && !i1 {
		if a == nil {
			a = Iface{}
		} else if _, ok := a.(Iface); !ok {
			a = Iface{t, a}
		}
	}
	return it.eq(a, b)
}

func (it *Interp) intOp(op token.Token, w uint8, signed bool, x, y int64, t2 types.Type) Value {
	ux, uy := uint64(x), uint64(y)
	switch op {
	case token.ADD:
		return wrapInt(x+y, w, signed)
	case token.SUB:
		return wrapInt(x-y, w, signed)
	case token.MUL:
		return wrapInt(x*y, w, signed)
	case token.QUO:
		if y == 0 {
			panic(it.rtPanic("runtime error: integer divide by zero"))
		}
		if signed {
			if y == -1 {
				return wrapInt(-x, w, signed)
			}
			return wrapInt(x/y, w, signed)
		}
		return int64(ux / uy)
	case token.REM:
		if y == 0 {
			panic(it.rtPanic("runtime error: integer divide by zero"))
		}
		if signed {
			if y == -1 {
				return int64(0)
			}
			return x % y
		}
		return int64(ux % uy)
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return wrapInt(x^y, w, signed)
	case token.AND_NOT:
		return x &^ y
	case token.SHL:
		_, s2, _ := intInfo(t2)
		if s2 && y < 0 {
			panic(it.rtPanic("runtime error: negative shift amount"))
		}
		if uy >= 64 {
			return int64(0)
		}
		return wrapInt(x<<uy, w, signed)
	case token.SHR:
		_, s2, _ := intInfo(t2)
		if s2 && y < 0 {
			panic(it.rtPanic("runtime error: negative shift amount"))
		}
		if signed {
			if uy >= 64 {
				uy = 63
			}
			return x >> uy
		}
		if uy >= 64 {
			return int64(0)
		}
		return int64(ux >> uy)
	case token.LSS:
		if signed {
			return x < y
		}
		return ux < uy
	case token.LEQ:
		if signed {
			return x <= y
		}
		return ux <= uy
	case token.GTR:
		if signed {
			return x > y
		}
		return ux > uy
	case token.GEQ:
		if signed {
			return x >= y
		}
		return ux >= uy
	}
	panic(unsupported{"intOp " + op.String()})
}

func (it *Interp) convert(from, to types.Type, v Value) Value {
	fu, tu := under(from), under(to)
	if w, s, ok := intInfo(to); ok {
		if fw, fs, ok := intInfo(from); ok {
			_ = fw
			switch x := v.(type) {
			case int64:
				return wrapInt(x, w, s)
			case *Term:
				return it.t2i(it.st.Resize(x, w, fs), s)
			case Ptr:
				unsup("pointer to integer conversion")
			}
		}
		if f, ok := v.(float64); ok {
			return wrapInt(int64(f), w, s)
		}
		if _, ok := v.(Ptr); ok {
			unsup("pointer to integer conversion")
		}
	}
	if isFloat(to) {
		switch x := v.(type) {
		case int64:
			if _, s, _ := intInfo(from); !s {
				return float64(uint64(x))
			}
			return float64(x)
		case float64:
			if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		}
		unsup("symbolic float conversion")
	}
	if isString(to) {
		switch x := v.(type) {
		case string, *SymStr:
			return v
		case Slice:
			et := under(fu.(*types.Slice).Elem()).(*types.Basic)
			it.checkUse(x.o)
			if it.par != nil {
				for i := 0; i < x.n; i++ {
					it.par.access(it, &x.a[i], x.o, false)
				}
			}
			if et.Kind() == types.Uint8 {
				return it.strFromBytes(x.a[:x.n])
			}
			rs := make([]rune, x.n)
			for i := range rs {
				k, ok := x.a[i].(int64)
				if !ok {
					return it.runesToStr(x.a[:x.n])
				}
				rs[i] = rune(k)
			}
			return string(rs)
		case int64:
			return string(rune(x))
		case *Term:
			return it.runesToStr([]Value{it.t2i(it.st.Resize(x, 32, true), true)})
		}
	}
	if st, ok := tu.(*types.Slice); ok {
		if isString(from) {
			et := under(st.Elem()).(*types.Basic)
			if et.Kind() == types.Uint8 {
				s, n := it.concLen(v)
				a := make([]Value, n)
				for i := range a {
					a[i] = it.t2i(it.strByte(s, i), false)
				}
				return Slice{a: a, n: n, o: it.newObj("[]byte(string)")}
			}
			if s, ok := v.(string); ok {
				var a []Value
				for _, r := range s {
					a = append(a, int64(r))
				}
				return Slice{a: a, n: len(a), o: it.newObj("[]rune(string)")}
			}
			var a []Value
			si := &strIter{s: v}
			for {
				t := it.strNext(si).(Tuple)
				if !it.branch(t[0]) {
					break
				}
				a = append(a, t[2])
			}
			return Slice{a: a, n: len(a), o: it.newObj("[]rune(string)")}
		}
		return v
	}
	switch tu.(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Array, *types.Interface:
		if _, ok := fu.(*types.Basic); ok {
			// unsafe.Pointer -> *T : keep, works only for same-shape reinterpretations
			return it.unsafeConv(v, to)
		}
		return v
	case *types.Basic:
		if tu.(*types.Basic).Kind() == types.UnsafePointer {
			return v
		}
		if isBool(to) {
			return v
		}
		if isFloat(to) {
			return v
		}
	}
	panic(unsupported{fmt.Sprintf("convert %s to %s", from, to)})
}

func (it *Interp) unsafeConv(v Value, to types.Type) Value {
	p, ok := v.(Ptr)
	if !ok {
		return v
	}
	if p.c == nil {
		return p
	}
	// *[]byte -> *string reinterpretation
	if pt, ok := under(to).(*types.Pointer); ok && isString(pt.Elem()) {
		if s, ok := (*p.c).(Slice); ok {
			c := new(Value)
			*c = it.strFromBytes(s.a[:s.n])
			return Ptr{c: c, o: it.newObj("unsafe string")}
		}
	}
	return p
}

func (it *Interp) runesToStr(rs []Value) Value {
	var out Value = ""
	for _, r := range rs {
		if k, ok := r.(int64); ok {
			out = it.strConcat(out, string(rune(k)))
			continue
		}
		t := r.(*Term)
		if it.branch(it.t2b(it.st.Cmp(OUlt, t, it.st.Const(32, 0x80)))) {
			out = it.strConcat(out, it.mkStr(it.st.Const(64, 1), []*Term{it.st.Resize(t, 8, false)}))
			continue
		}
		fn := it.findFunc("unicode/utf8", "AppendRune")
		s := it.callFn(fn, []Value{Slice{}, r}, nil).(Slice)
		out = it.strConcat(out, it.strFromBytes(s.a[:s.n]))
	}
	return out
}

var _ = utf8.RuneError
var _ = math.MaxInt64

// ---- builtins ----

func (it *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return it.strLen(x)
		case Slice:
			return int64(x.n)
		case *MapObj:
			if x == nil {
				return int64(0)
			}
			it.mapRead(x)
			return it.mapLen(x)
		case ArrayV:
			return int64(len(x))
		case Ptr:
			if p, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				return under(p.Elem()).(*types.Array).Len()
			}
			return int64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(len(x.a))
		case ArrayV:
			return int64(len(x))
		case Ptr:
			if p, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				return under(p.Elem()).(*types.Array).Len()
			}
			return int64(0)
		}
	case "append":
		return it.appendV(args[0], args[1], cc)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			it.checkUse(s.o)
			src = s.a[:s.n]
			if it.par != nil {
				for i := 0; i < min(dst.n, s.n); i++ {
					it.par.access(it, &s.a[i], s.o, false)
				}
			}
		case string, *SymStr:
			cs, n := it.concLen(s)
			for i := 0; i < n; i++ {
				src = append(src, it.t2i(it.strByte(cs, i), false))
			}
		}
		it.checkUse(dst.o)
		n := min(dst.n, len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = cp(src[i])
		}
		for i := 0; i < n; i++ {
			if it.par != nil {
				it.par.access(it, &dst.a[i], dst.o, true)
			}
			it.storeCell(&dst.a[i], dst.o, tmp[i])
		}
		return int64(n)
	case "delete":
		m, _ := args[0].(*MapObj)
		it.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				it.mapWrite(x)
				if len(x.ents) > 0 {
					it.setEnts(x, nil)
				}
			}
			return nil
		case Slice:
			et := under(cc.Args[0].Type()).(*types.Slice).Elem()
			for i := 0; i < x.n; i++ {
				if it.par != nil {
					it.par.access(it, &x.a[i], x.o, true)
				}
				it.storeCell(&x.a[i], x.o, it.zero(et))
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := it.binop(op, t, t, a, r)
			if cb, ok := c.(bool); ok {
				if cb {
					r = a
				}
				continue
			}
			v, ok := it.iteVT(c.(*Term), a, r, t)
			if !ok {
				unsup("min/max")
			}
			r = v
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		if it.recFr != nil && it.recFr.panicV != nil {
			v := it.recFr.panicV.v
			it.recFr.panicV = nil
			return v
		}
		return Iface{}
	case "panic":
		panic(targetPanic{v: args[0], msg: it.panicMsg(args[0])})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.c == nil {
			panic(it.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := it.concIntMax(args[1])
		switch p := args[0].(type) {
		case slData:
			if int(n) > len(p.s.a) {
				unsup("unsafe.String out of bounds")
			}
			return it.strFromBytes(p.s.a[:n])
		case strData:
			return it.strSlice(p.s, int64(0), args[1])
		case Ptr:
			if n == 0 {
				return ""
			}
		}
	case "StringData":
		return strData{args[0]}
	case "SliceData":
		return slData{args[0].(Slice)}
	case "Slice":
		switch p := args[0].(type) {
		case strData:
			s, m := it.concLen(p.s)
			n := it.concIntMax(args[1])
			if int(n) > m {
				unsup("unsafe.Slice out of bounds")
			}
			a := make([]Value, n)
			for i := range a {
				a[i] = it.t2i(it.strByte(s, i), false)
			}
			return Slice{a: a, n: int(n), o: it.newObj("unsafe.Slice")}
		case slData:
			n := it.concIntMax(args[1])
			return Slice{a: p.s.a, n: int(n), o: p.s.o}
		case Ptr:
			n := it.concIntMax(args[1])
			if n == 0 {
				return Slice{o: it.newObj("unsafe.Slice")}
			}
		}
	}
	panic(unsupported{fmt.Sprintf("builtin %s on %T", b.Name(), args[0])})
}

func (it *Interp) concIntMax(v Value) int64 { return it.concInt(v, 0, 64) }

func (it *Interp) appendV(av, bv Value, cc *ssa.CallCommon) Value {
	a := av.(Slice)
	var add []Value
	switch b := bv.(type) {
	case Slice:
		it.checkUse(b.o)
		if it.par != nil {
			for i := 0; i < b.n; i++ {
				it.par.access(it, &b.a[i], b.o, false)
			}
		}
		add = b.a[:b.n]
	case string, *SymStr:
		s, n := it.concLen(b)
		for i := 0; i < n; i++ {
			add = append(add, it.t2i(it.strByte(s, i), false))
		}
	default:
		unsup("append of %T", bv)
	}
	it.checkUse(a.o)
	if len(add) == 0 {
		return a
	}
	need := a.n + len(add)
	if need <= len(a.a) {
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = cp(add[i])
		}
		for i := range tmp {
			if it.par != nil {
				it.par.access(it, &a.a[a.n+i], a.o, true)
			}
			it.storeCell(&a.a[a.n+i], a.o, tmp[i])
		}
		return Slice{a: a.a, n: need, o: a.o}
	}
	nc := growCap(len(a.a), need)
	na := make([]Value, nc)
	if it.par != nil {
		for i := 0; i < a.n; i++ {
			it.par.access(it, &a.a[i], a.o, false)
		}
	}
	for i := 0; i < a.n; i++ {
		na[i] = cp(a.a[i])
	}
	for i := range add {
		na[a.n+i] = cp(add[i])
	}
	if nc > need {
		et := under(cc.Signature().Params().At(0).Type()).(*types.Slice).Elem()
		for i := need; i < nc; i++ {
			na[i] = it.zero(et)
		}
	}
	return Slice{a: na, n: need, o: it.newObj("append")}
}

// growCap follows the runtime's growth rule (without size-class rounding for small
// slices of pointer-sized elements it gives 1,2,4,8,...).
func growCap(old, need int) int {
	nc := old * 2
	if need > nc {
		return need
	}
	if old < 256 {
		return nc
	}
	for nc = old; nc < need; {
		nc += (nc + 768) / 4
	}
	return nc
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The part of package reflect that inspects values. A reflect.Value is a structure whose first
// field holds the value with its type; a reflect.Type is a native object, one per type.

var rtypeT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "reflect.rtype", nil), types.Typ[types.String], nil)

func rval(t types.Type, v Value) Value { return StructV{Iface{t, v}, Ptr{}, int64(0)} }

func rget(v Value) Iface {
	s, ok := v.(StructV)
	if !ok || len(s) != 3 {
		unsup("reflect.Value %T", v)
	}
	ifc, _ := s[0].(Iface)
	return ifc
}

func rkind(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Pointer:
		return reflect.Pointer
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	unsup("reflect.Kind of %s", t)
	return 0
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (it *Interp) rtype(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	key := t.String()
	no := it.rtypes[key]
	if no == nil {
		no = &nativeObj{name: "reflect.Type"}
		type F = func(it *Interp, a []Value) Value
		st := func() *types.Struct {
			s, ok := under(t).(*types.Struct)
			if !ok {
				panic(it.rtPanic("reflect: not a struct type"))
			}
			return s
		}
		no.methods = map[string]func(it *Interp, a []Value) Value{
			"Kind":     func(it *Interp, a []Value) Value { return int64(rkind(t)) },
			"NumField": func(it *Interp, a []Value) Value { return int64(st().NumFields()) },
			"String":   func(it *Interp, a []Value) Value { return typeName(t) },
			"Name": func(it *Interp, a []Value) Value {
				switch x := t.(type) {
				case *types.Named:
					return x.Obj().Name()
				case *types.Basic:
					return x.Name()
				}
				return ""
			},
			"PkgPath": func(it *Interp, a []Value) Value {
				if x, ok := t.(*types.Named); ok && x.Obj().Pkg() != nil {
					return x.Obj().Pkg().Path()
				}
				return ""
			},
			"Field": func(it *Interp, a []Value) Value {
				i, ok := a[0].(int64)
				if !ok {
					unsup("reflect.Type.Field of a symbolic index")
				}
				f := st().Field(int(i))
				rp := it.prog.ImportedPackage("reflect")
				r := it.zero(rp.Type("StructField").Type()).(StructV)
				r[0] = f.Name()
				if !f.Exported() && f.Pkg() != nil {
					r[1] = f.Pkg().Path()
				}
				r[2] = it.rtype(f.Type())
				r[3] = st().Tag(int(i))
				r[6] = f.Embedded()
				return r
			},
			"Elem": func(it *Interp, a []Value) Value {
				switch x := under(t).(type) {
				case *types.Pointer:
					return it.rtype(x.Elem())
				case *types.Slice:
					return it.rtype(x.Elem())
				case *types.Map:
					return it.rtype(x.Elem())
				}
				unsup("reflect.Type.Elem")
				return nil
			},
			"Comparable": func(it *Interp, a []Value) Value { return types.Comparable(t) },
		}
		it.rtypes[key] = no
	}
	return Iface{t: rtypeT, v: no}
}

// exported restricts Interface to values not reached through unexported fields.
type rmark struct{}

func (it *Interp) deepEq(t types.Type, a, b Value, depth int) Value {
	if depth > 6 {
		unsup("reflect.DeepEqual depth")
	}
	switch u := under(t).(type) {
	case *types.Basic, *types.Chan:
		return it.eq(a, b)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		return it.deepEqI(x, y, depth+1)
	case *types.Struct:
		var r Value = true
		x, y := a.(StructV), b.(StructV)
		for i := range x {
			r = it.and(r, it.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x.a == nil) != (y.a == nil) || x.n != y.n {
			return false
		}
		var r Value = true
		for i := 0; i < x.n; i++ {
			r = it.and(r, it.deepEq(u.Elem(), x.a[i], y.a[i], depth+1))
		}
		return r
	case *types.Pointer:
		x, y := a.(Ptr), b.(Ptr)
		if x.c == y.c {
			return true
		}
		if x.c == nil || y.c == nil {
			return false
		}
		return it.deepEq(u.Elem(), *x.c, *y.c, depth+1)
	case *types.Map:
		x, y := a.(*MapObj), b.(*MapObj)
		if x == nil || y == nil {
			return x == y
		}
		lx, ly := it.mapLen(x), it.mapLen(y)
		r := it.eq(lx, ly)
		for i := range x.ents {
			e := &x.ents[i]
			v, ok := it.mapGet(y, e.k, u.Elem())
			in := it.and(ok, it.deepEq(u.Elem(), e.v, v, depth+1))
			if e.p != nil {
				in = it.or(it.t2b(it.st.Not(e.p)), in)
			}
			r = it.and(r, in)
		}
		return r
	}
	unsup("reflect.DeepEqual of %s", t)
	return nil
}

func (it *Interp) deepEqI(x, y Iface, depth int) Value {
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if !it.sameType(x.t, y.t) {
		return false
	}
	return it.deepEq(x.t, x.v, y.v, depth)
}

func init() {
	type F = func(it *Interp, fn *ssa.Function, a []Value) Value
	add := func(k string, f F) { intrinsics["reflect."+k] = f }
	idx := func(v Value) int {
		i, ok := v.(int64)
		if !ok {
			unsup("reflect with a symbolic index")
		}
		return int(i)
	}
	unwrap := func(t types.Type, v Value) Value { return rval(t, cp(v)) }
	add("ValueOf", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		return rval(x.t, cp(x.v))
	})
	add("TypeOf", func(it *Interp, fn *ssa.Function, a []Value) Value { return it.rtype(a[0].(Iface).t) })
	add("DeepEqual", func(it *Interp, fn *ssa.Function, a []Value) Value { return it.deepEqI(a[0].(Iface), a[1].(Iface), 0) })
	add("Indirect", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		if p, ok := x.v.(Ptr); ok && rkind(x.t) == reflect.Pointer && p.c != nil {
			return unwrap(under(x.t).(*types.Pointer).Elem(), *p.c)
		}
		return a[0]
	})
	add("Value.Kind", func(it *Interp, fn *ssa.Function, a []Value) Value { return int64(rkind(rget(a[0]).t)) })
	add("Value.Type", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		if x.t == nil {
			panic(it.rtPanic("reflect: call of reflect.Value.Type on zero Value"))
		}
		return it.rtype(x.t)
	})
	add("Value.IsValid", func(it *Interp, fn *ssa.Function, a []Value) Value { return rget(a[0]).t != nil })
	add("Value.CanInterface", func(it *Interp, fn *ssa.Function, a []Value) Value { return a[0].(StructV)[2] == int64(0) })
	add("Value.NumField", func(it *Interp, fn *ssa.Function, a []Value) Value {
		s, ok := rget(a[0]).v.(StructV)
		if !ok {
			panic(it.rtPanic("reflect: call of reflect.Value.NumField on a value that is no struct"))
		}
		return int64(len(s))
	})
	add("Value.Field", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		s, ok := x.v.(StructV)
		if !ok {
			panic(it.rtPanic("reflect: call of reflect.Value.Field on a value that is no struct"))
		}
		i := idx(a[1])
		if i < 0 || i >= len(s) {
			panic(it.rtPanic("reflect: Field index out of range"))
		}
		f := under(x.t).(*types.Struct).Field(i)
		r := unwrap(f.Type(), s[i]).(StructV)
		r[2] = a[0].(StructV)[2]
		if !f.Exported() {
			r[2] = int64(1)
		}
		return r
	})
	add("Value.Interface", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		if x.t == nil {
			panic(it.rtPanic("reflect: call of reflect.Value.Interface on zero Value"))
		}
		if a[0].(StructV)[2] != int64(0) {
			panic(it.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		if rkind(x.t) == reflect.Interface {
			return cp(x.v)
		}
		return Iface{x.t, cp(x.v)}
	})
	add("Value.Elem", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		switch v := x.v.(type) {
		case Iface:
			return rval(v.t, cp(v.v))
		case Ptr:
			if v.c == nil {
				return rval(nil, nil)
			}
			return unwrap(under(x.t).(*types.Pointer).Elem(), *v.c)
		}
		panic(it.rtPanic("reflect: call of reflect.Value.Elem on another value"))
	})
	add("Value.IsNil", func(it *Interp, fn *ssa.Function, a []Value) Value {
		switch v := rget(a[0]).v.(type) {
		case Iface:
			return v.t == nil
		case Ptr:
			return v.c == nil
		case *MapObj:
			return v == nil
		case Slice:
			return v.a == nil
		}
		panic(it.rtPanic("reflect: call of reflect.Value.IsNil on another value"))
	})
	add("Value.String", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		if x.t == nil {
			return "<invalid Value>"
		}
		if rkind(x.t) == reflect.String {
			return x.v
		}
		return "<" + typeName(x.t) + " Value>"
	})
	scalar := func(it *Interp, fn *ssa.Function, a []Value) Value { return rget(a[0]).v }
	add("Value.Int", scalar)
	add("Value.Uint", scalar)
	add("Value.Bool", scalar)
	add("Value.Float", scalar)
	add("Value.Len", func(it *Interp, fn *ssa.Function, a []Value) Value {
		switch v := rget(a[0]).v.(type) {
		case Slice:
			return int64(v.n)
		case *MapObj:
			if v == nil {
				return int64(0)
			}
			return it.mapLen(v)
		case ArrayV:
			return int64(len(v))
		case string, *SymStr:
			return it.strLen(v)
		}
		panic(it.rtPanic("reflect: call of reflect.Value.Len on another value"))
	})
	add("Value.Index", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		switch v := x.v.(type) {
		case Slice:
			i := idx(a[1])
			if i < 0 || i >= v.n {
				panic(it.rtPanic("reflect: slice index out of range"))
			}
			return unwrap(under(x.t).(*types.Slice).Elem(), v.a[i])
		}
		unsup("reflect.Value.Index")
		return nil
	})
	add("Value.MapKeys", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		m, ok := x.v.(*MapObj)
		if !ok {
			panic(it.rtPanic("reflect: call of reflect.Value.MapKeys on a value that is no map"))
		}
		var out []Value
		if m != nil {
			kt := under(x.t).(*types.Map).Key()
			mi := it.newMapIter(m)
			for e := mi.next(it); e != nil; e = mi.next(it) {
				out = append(out, unwrap(kt, e.k))
			}
		}
		return Slice{a: out, n: len(out), o: it.newObj("reflect.MapKeys")}
	})
	add("Value.MapIndex", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, k := rget(a[0]), rget(a[1])
		m, ok := x.v.(*MapObj)
		if !ok {
			panic(it.rtPanic("reflect: call of reflect.Value.MapIndex on a value that is no map"))
		}
		mt := under(x.t).(*types.Map)
		if rkind(mt.Key()) == reflect.Interface && rkind(k.t) != reflect.Interface {
			k.v = Iface{k.t, k.v}
		}
		v, has := it.mapGet(m, k.v, mt.Elem())
		if !it.branch(has) {
			return rval(nil, nil)
		}
		return unwrap(mt.Elem(), v)
	})
	add("Value.MapRange", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x := rget(a[0])
		m, ok := x.v.(*MapObj)
		if !ok {
			panic(it.rtPanic("reflect: call of reflect.Value.MapRange on a value that is no map"))
		}
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := it.alloc(t, "reflect.MapIter")
		p.o.ext = &rmapIter{mi: it.newMapIter(m), mt: under(x.t).(*types.Map)}
		return p
	})
	add("MapIter.Next", func(it *Interp, fn *ssa.Function, a []Value) Value {
		r := a[0].(Ptr).o.ext.(*rmapIter)
		it.sideEffect()
		old := r.cur
		it.logIter(func() { r.cur = old })
		r.cur = nil
		if r.mi.m != nil {
			if e := r.mi.next(it); e != nil {
				c := *e
				r.cur = &c
			}
		}
		return r.cur != nil
	})
	add("MapIter.Key", func(it *Interp, fn *ssa.Function, a []Value) Value {
		r := a[0].(Ptr).o.ext.(*rmapIter)
		return unwrap(r.mt.Key(), r.cur.k)
	})
	add("MapIter.Value", func(it *Interp, fn *ssa.Function, a []Value) Value {
		r := a[0].(Ptr).o.ext.(*rmapIter)
		return unwrap(r.mt.Elem(), r.cur.v)
	})
}

type rmapIter struct {
	mi  *mapIter
	mt  *types.Map
	cur *mapEnt
}

// ---- formatting ----

// basicArg is a concrete basic value as a Go value of its kind.
func basicArg(t types.Type, v Value) (any, bool) {
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x, true
	case float64:
		if rkind(t) == reflect.Float32 {
			return float32(x), true
		}
		return x, true
	case int64:
		switch rkind(t) {
		case reflect.Int:
			return int(x), true
		case reflect.Int8:
			return int8(x), true
		case reflect.Int16:
			return int16(x), true
		case reflect.Int32:
			return int32(x), true
		case reflect.Int64:
			return x, true
		case reflect.Uint:
			return uint(x), true
		case reflect.Uint8:
			return uint8(x), true
		case reflect.Uint16:
			return uint16(x), true
		case reflect.Uint32:
			return uint32(x), true
		case reflect.Uint64:
			return uint64(x), true
		case reflect.Uintptr:
			return uintptr(x), true
		}
	}
	return nil, false
}

// goSyntax is %#v.
func (it *Interp) goSyntax(t types.Type, v Value, depth int) Value {
	if depth > 6 {
		unsup("%%#v depth")
	}
	if fn := it.lookupMethod(t, "GoString"); fn != nil {
		return it.callFn(fn, []Value{cp(v)}, nil)
	}
	if x, ok := v.(*Term); ok {
		if x.w == 0 {
			v = it.branch(x)
		} else {
			v = it.concretize(x, 0, 255)
		}
	}
	switch x := v.(type) {
	case string, *SymStr:
		return it.quote(x)
	case bool, int64, float64:
		if a, ok := basicArg(t, x); ok {
			return fmt.Sprintf("%#v", a)
		}
	case Iface:
		if x.t == nil {
			if depth == 0 {
				return "<nil>"
			}
			return typeName(t) + "(nil)"
		}
		return it.goSyntax(x.t, x.v, depth+1)
	case StructV:
		var out Value = typeName(t) + "{"
		st := under(t).(*types.Struct)
		for i := range x {
			if i > 0 {
				out = it.strConcat(out, ", ")
			}
			out = it.strConcat(out, st.Field(i).Name()+":")
			out = it.strConcat(out, it.goSyntax(st.Field(i).Type(), x[i], depth+1))
		}
		return it.strConcat(out, "}")
	case Slice:
		if x.a == nil {
			return typeName(t) + "(nil)"
		}
		if rkind(under(t).(*types.Slice).Elem()) == reflect.Uint8 {
			unsup("%%#v of bytes")
		}
		var out Value = typeName(t) + "{"
		for i := 0; i < x.n; i++ {
			if i > 0 {
				out = it.strConcat(out, ", ")
			}
			out = it.strConcat(out, it.goSyntax(under(t).(*types.Slice).Elem(), x.a[i], depth+1))
		}
		return it.strConcat(out, "}")
	case Ptr:
		if x.c == nil {
			return "(" + typeName(t) + ")(nil)"
		}
	}
	unsup("%%#v of %s", t)
	return nil
}

// quote is strconv.Quote; for symbolic bytes it is given for ASCII.
func (it *Interp) quote(s Value) Value {
	if r, ok := it.mapStr(s, strconv.Quote); ok {
		return r
	}
	it.asciiOnly("strconv.Quote", s)
	st := it.st
	c8 := func(b byte) *Term { return st.Const(8, uint64(b)) }
	n := it.strLenT(s)
	var out Value = "\""
	for i := 0; i < strMax(s); i++ {
		b := it.strByte(s, i)
		if b.isConst() {
			if st.Cmp(OUlt, st.Const(64, uint64(i)), n) == st.tru {
				q := strconv.Quote(string([]byte{byte(b.val)}))
				out = it.strConcat(out, q[1:len(q)-1])
				continue
			}
		}
		has := st.Cmp(OUlt, st.Const(64, uint64(i)), n)
		// the second byte of a two-byte escape, 0 if none
		esc := c8(0)
		for _, p := range []string{"\aa", "\bb", "\ff", "\nn", "\rr", "\tt", "\vv", "\"\"", "\\\\"} {
			esc = st.Ite(st.Eq(b, c8(p[0])), c8(p[1]), esc)
		}
		two := st.Not(st.Eq(esc, c8(0)))
		four := st.And(st.Not(two), st.Or(st.Cmp(OUlt, b, c8(0x20)), st.Cmp(OUle, c8(0x7f), b)))
		hex := func(d *Term) *Term {
			return st.Ite(st.Cmp(OUlt, d, c8(10)), st.Bin(OAdd, d, c8('0')), st.Bin(OAdd, d, c8('a'-10)))
		}
		any := st.Or(two, four)
		b0 := st.Ite(any, c8('\\'), b)
		b1 := st.Ite(two, esc, st.Ite(four, c8('x'), c8(0)))
		b2 := st.Ite(four, hex(st.Bin(OLshr, b, c8(4))), c8(0))
		b3 := st.Ite(four, hex(st.Bin(OBAnd, b, c8(15))), c8(0))
		k := st.Ite(four, st.Const(64, 4), st.Ite(two, st.Const(64, 2), st.Const(64, 1)))
		k = st.Ite(has, k, st.Const(64, 0))
		z := c8(0)
		piece := it.mkStr(k, []*Term{st.Ite(has, b0, z), st.Ite(has, b1, z), st.Ite(has, b2, z), st.Ite(has, b3, z)})
		out = it.strConcat(out, piece)
	}
	return it.strConcat(out, "\"")
}

var _ = strings.Join

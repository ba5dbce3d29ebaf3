package main

import (
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Library functions given directly as terms. The case and space functions are exact for
// concrete strings and for choices among concrete strings; for arbitrary bytes they are exact
// for ASCII, and the run notes the restriction.

// mapStr applies f to every alternative of a finite choice.
func (it *Interp) mapStr(v Value, f func(string) string) (Value, bool) {
	if s, ok := v.(string); ok {
		return f(s), true
	}
	as := it.altsOf(v)
	if as == nil {
		return nil, false
	}
	var r Value = f(as[0].s)
	var out []alt
	for i, x := range as {
		s := f(x.s)
		if i > 0 {
			var ok bool
			if r, ok = it.iteV(x.c, s, r); !ok {
				return nil, false
			}
		}
		dup := false
		for k := range out {
			if out[k].s == s {
				out[k].c = it.st.Or(out[k].c, x.c)
				dup = true
			}
		}
		if !dup {
			out = append(out, alt{x.c, s})
		}
	}
	if s, ok := r.(*SymStr); ok {
		r = &SymStr{n: s.n, b: s.b, alts: out}
	}
	return r, true
}

func (it *Interp) asciiOnly(what string, vs ...Value) {
	for _, v := range vs {
		for i := 0; i < strMax(v); i++ {
			b := it.strByte(v, i)
			if b.isConst() && b.val < 0x80 {
				continue
			}
			high := it.st.Cmp(OUle, it.st.Const(8, 0x80), b)
			if r, _ := it.feasible(high); r != Unsat {
				it.run.reduced(what + " is modelled for ASCII bytes only")
				return
			}
		}
	}
}

func (it *Interp) inRange(b *Term, lo, hi byte) *Term {
	return it.st.And(it.st.Cmp(OUle, it.st.Const(8, uint64(lo)), b), it.st.Cmp(OUle, b, it.st.Const(8, uint64(hi))))
}

func (it *Interp) foldByte(b *Term, lo, hi byte) *Term {
	return it.st.Ite(it.inRange(b, lo, hi), it.st.Bin(OBXor, b, it.st.Const(8, 0x20)), b)
}

func (it *Interp) foldStr(v Value, lower bool) Value {
	f, lo, hi := strings.ToUpper, byte('a'), byte('z')
	what := "strings.ToUpper"
	if lower {
		f, lo, hi, what = strings.ToLower, 'A', 'Z', "strings.ToLower"
	}
	if r, ok := it.mapStr(v, f); ok {
		return r
	}
	it.asciiOnly(what, v)
	b := make([]*Term, strMax(v))
	for i := range b {
		b[i] = it.foldByte(it.strByte(v, i), lo, hi)
	}
	return it.mkStr(it.strLenT(v), b)
}

// subStr is v[lo : lo+n] for terms within the string.
func (it *Interp) subStr(v Value, lo, n *Term) Value {
	m := strMax(v)
	b := make([]*Term, m)
	for i := range b {
		t := it.st.Const(8, 0)
		for k := 0; i+k < m; k++ {
			t = it.st.Ite(it.st.Eq(lo, it.st.Const(64, uint64(k))), it.strByte(v, i+k), t)
		}
		b[i] = it.st.Ite(it.st.Cmp(OUlt, it.st.Const(64, uint64(i)), n), t, it.st.Const(8, 0))
	}
	return it.mkStr(n, b)
}

func (it *Interp) trimStr(v Value, f func(string) string, in func(*Term) *Term, left, right bool, what string) Value {
	if r, ok := it.mapStr(v, f); ok {
		return r
	}
	it.asciiOnly(what, v)
	n := it.strLenT(v)
	m := strMax(v)
	lo, hi := it.st.Const(64, 0), it.st.Const(64, 0) // first kept, one past the last kept
	if left {
		lo = n
		for i := m - 1; i >= 0; i-- {
			has := it.st.Cmp(OUlt, it.st.Const(64, uint64(i)), n)
			lo = it.st.Ite(it.st.And(has, it.st.Not(in(it.strByte(v, i)))), it.st.Const(64, uint64(i)), lo)
		}
	}
	if right {
		for i := 0; i < m; i++ {
			has := it.st.Cmp(OUlt, it.st.Const(64, uint64(i)), n)
			hi = it.st.Ite(it.st.And(has, it.st.Not(in(it.strByte(v, i)))), it.st.Const(64, uint64(i+1)), hi)
		}
	} else {
		hi = n
	}
	none := it.st.Cmp(OUle, hi, lo)
	return it.subStr(v, it.st.Ite(none, it.st.Const(64, 0), lo), it.st.Ite(none, it.st.Const(64, 0), it.st.Bin(OSub, hi, lo)))
}

func (it *Interp) cutSet(what string, v Value) func(*Term) *Term {
	set, ok := v.(string)
	if !ok {
		unsup("%s with a symbolic set", what)
	}
	for i := 0; i < len(set); i++ {
		if set[i] >= 0x80 {
			unsup("%s with a set beyond ASCII", what)
		}
	}
	return func(b *Term) *Term {
		r := it.st.fls
		for i := 0; i < len(set); i++ {
			r = it.st.Or(r, it.st.Eq(b, it.st.Const(8, uint64(set[i]))))
		}
		return r
	}
}

// unixZero is the distance from the zero time to the Unix epoch.
var unixZero = new(big.Int).Mul(big.NewInt(62135596800), big.NewInt(1_000_000_000))

// intoPeriod is the time since the last multiple of d since the zero time.
func (it *Interp) intoPeriod(t *Term, d int64) *Term {
	off := new(big.Int).Mod(unixZero, big.NewInt(d)).Uint64()
	// instants are within a few centuries of 1970: shift by a whole number of periods to be positive
	k := (uint64(1) << 61) / uint64(d) * uint64(d)
	return it.st.Bin(OURem, it.st.Bin(OAdd, t, it.st.Const(64, off+k)), it.st.Const(64, uint64(d)))
}

func (it *Interp) floorDiv(t *Term, d int64) *Term {
	k := uint64(1) << 61 / uint64(d)
	return it.st.Bin(OSub, it.st.Bin(OUDiv, it.st.Bin(OAdd, t, it.st.Const(64, k*uint64(d))), it.st.Const(64, uint64(d))), it.st.Const(64, k))
}

func init() {
	type F = func(it *Interp, fn *ssa.Function, a []Value) Value
	add := func(k string, f F) { intrinsics[k] = f }
	add("strings.ToLower", func(it *Interp, fn *ssa.Function, a []Value) Value { return it.foldStr(a[0], true) })
	add("strings.ToUpper", func(it *Interp, fn *ssa.Function, a []Value) Value { return it.foldStr(a[0], false) })
	add("strings.EqualFold", func(it *Interp, fn *ssa.Function, a []Value) Value {
		xa, xb := it.altsOf(a[0]), it.altsOf(a[1])
		if xa != nil && xb != nil {
			r := it.st.fls
			for _, x := range xa {
				for _, y := range xb {
					if strings.EqualFold(x.s, y.s) {
						r = it.st.Or(r, it.st.And(x.c, y.c))
					}
				}
			}
			return it.t2b(r)
		}
		it.asciiOnly("strings.EqualFold", a...)
		r := it.st.Eq(it.strLenT(a[0]), it.strLenT(a[1]))
		for i := 0; i < max(strMax(a[0]), strMax(a[1])); i++ {
			r = it.st.And(r, it.st.Eq(it.foldByte(it.strByte(a[0], i), 'A', 'Z'), it.foldByte(it.strByte(a[1], i), 'A', 'Z')))
		}
		return it.t2b(r)
	})
	add("strings.TrimSpace", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.trimStr(a[0], strings.TrimSpace, it.cutSet("", "\t\n\v\f\r "), true, true, "strings.TrimSpace")
	})
	trim := func(name string, f func(s, set string) string, l, r bool) {
		add("strings."+name, func(it *Interp, fn *ssa.Function, a []Value) Value {
			in := it.cutSet("strings."+name, a[1])
			return it.trimStr(a[0], func(s string) string { return f(s, a[1].(string)) }, in, l, r, "strings."+name)
		})
	}
	trim("Trim", strings.Trim, true, true)
	trim("TrimLeft", strings.TrimLeft, true, false)
	trim("TrimRight", strings.TrimRight, false, true)

	add("time.Time.Unix", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.t2i(it.floorDiv(it.timeT(a[0]), int64(time.Second)), true)
	})
	add("time.Time.UnixMilli", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.t2i(it.floorDiv(it.timeT(a[0]), int64(time.Millisecond)), true)
	})
	add("time.Time.UnixMicro", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.t2i(it.floorDiv(it.timeT(a[0]), int64(time.Microsecond)), true)
	})
	add("time.Time.Nanosecond", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.t2i(it.intoPeriod(it.timeT(a[0]), int64(time.Second)), true)
	})
	period := func(v Value, what string) int64 {
		d, ok := v.(int64)
		if !ok {
			unsup("%s with a symbolic duration", what)
		}
		return d
	}
	add("time.Time.Truncate", func(it *Interp, fn *ssa.Function, a []Value) Value {
		d := period(a[1], "time.Truncate")
		if d <= 0 {
			return a[0]
		}
		t := it.timeT(a[0])
		return it.mkTime(it.t2i(it.st.Bin(OSub, t, it.intoPeriod(t, d)), true))
	})
	add("time.Time.Round", func(it *Interp, fn *ssa.Function, a []Value) Value {
		d := period(a[1], "time.Round")
		if d <= 0 {
			return a[0]
		}
		t := it.timeT(a[0])
		r := it.intoPeriod(t, d)
		down := it.st.Cmp(OUlt, it.st.Bin(OAdd, r, r), it.st.Const(64, uint64(d)))
		return it.mkTime(it.t2i(it.st.Ite(down, it.st.Bin(OSub, t, r), it.st.Bin(OAdd, t, it.st.Bin(OSub, it.st.Const(64, uint64(d)), r))), true))
	})
}

package main

import (
	"encoding/binary"
	"math/bits"
	"sort"
)

// Deciding feasibility. A condition is feasible when some model satisfies it together with
// the path condition: a verified assignment is as good a witness as the solver's. It is
// infeasible only on the solver's verdict (possibly a cached one over the same conjuncts)
// or when a finite-domain variable has no value left.

type bitset []uint64

func (b bitset) meets(c bitset) bool {
	for i := 0; i < len(b) && i < len(c); i++ {
		if b[i]&c[i] != 0 {
			return true
		}
	}
	return false
}

func (b bitset) or(c bitset) bitset {
	for len(b) < len(c) {
		b = append(b, 0)
	}
	for i := range c {
		b[i] |= c[i]
	}
	return b
}

// varsOf is the set of variables a term mentions.
func (s *Store) varsOf(t *Term) bitset {
	if t == nil || t.op == OConst {
		return nil
	}
	if t.vset != nil {
		return t.vset
	}
	var r bitset
	if t.op == OVar {
		r = make(bitset, t.ord/64+1)
		r[t.ord/64] = 1 << (t.ord % 64)
	} else {
		r = r.or(s.varsOf(t.a))
		r = r.or(s.varsOf(t.b))
		r = r.or(s.varsOf(t.c))
		if r == nil {
			r = bitset{}
		}
	}
	t.vset = r
	return r
}

type qres struct {
	res Result
	asg []asgn
}

type asgn struct {
	v   *Term
	val uint64
}

// slice returns the conjuncts of pc that (transitively) share variables with c.
func (it *Interp) slicePC(c *Term) []*Term {
	vs := append(bitset(nil), it.st.varsOf(c)...)
	n := len(it.pc)
	in := make([]bool, n)
	for again := true; again; {
		again = false
		for i, p := range it.pc {
			if in[i] {
				continue
			}
			pv := it.st.varsOf(p)
			if vs.meets(pv) {
				in[i] = true
				again = true
				vs = vs.or(pv)
			}
		}
	}
	var r []*Term
	for i, p := range it.pc {
		if in[i] {
			r = append(r, p)
		}
	}
	return r
}

func (it *Interp) withAsg(as []asgn) Model {
	m := make(Model, len(it.model)+len(as))
	for k, v := range it.model {
		m[k] = v
	}
	for _, a := range as {
		m[a.v.name] = a.val
	}
	return m
}

// feasible decides pc && c; on Sat the model satisfies both.
func (it *Interp) feasible(c *Term) (Result, Model) {
	if it.st.Eval(c, it.model) != 0 {
		return Sat, it.model
	}
	sl := it.slicePC(c)
	// a small change of the current model
	for _, as := range it.cands(c, true, 4) {
		m := it.withAsg(as)
		it.st.stamp++
		ok := it.st.eval(c, m) != 0
		for i := 0; ok && i < len(sl); i++ {
			ok = it.st.eval(sl[i], m) != 0
		}
		if ok {
			it.nWit++
			return Sat, m
		}
	}
	ids := make([]int, 0, len(sl)+1)
	for _, p := range sl {
		ids = append(ids, int(p.id))
	}
	sort.Ints(ids)
	key := make([]byte, 0, 4*len(ids)+4)
	last := -1
	for _, i := range ids {
		if i != last {
			key = binary.LittleEndian.AppendUint32(key, uint32(i))
		}
		last = i
	}
	key = binary.LittleEndian.AppendUint32(key, uint32(c.id))
	if r, ok := it.qcache[string(key)]; ok {
		it.nCache++
		if r.res != Sat {
			return r.res, nil
		}
		return Sat, it.withAsg(r.asg)
	}
	var q qres
	var m Model
	q.res, m = it.sol.Check(it.pc, c)
	if q.res == Sat {
		vs := append(bitset(nil), it.st.varsOf(c)...)
		for _, p := range sl {
			vs = vs.or(it.st.varsOf(p))
		}
		for i, w := range vs {
			for ; w != 0; w &= w - 1 {
				v := it.st.vars[i*64+bits.TrailingZeros64(w)]
				q.asg = append(q.asg, asgn{v, m[v.name]})
			}
		}
		m = it.withAsg(q.asg)
	}
	it.qcache[string(key)] = q
	return q.res, m
}

// cands proposes assignments that may make t have value v.
func (it *Interp) cands(t *Term, v bool, d int) [][]asgn {
	if (it.st.Eval(t, it.model) != 0) == v {
		return [][]asgn{nil}
	}
	if d == 0 {
		return nil
	}
	const lim = 6
	switch t.op {
	case OVar:
		x := uint64(0)
		if v {
			x = 1
		}
		return [][]asgn{{{t, x}}}
	case ONot:
		return it.cands(t.a, !v, d)
	case OAnd, OOr:
		if v == (t.op == OAnd) {
			xs := it.cands(t.a, v, d-1)
			if xs == nil {
				return nil
			}
			ys := it.cands(t.b, v, d-1)
			var r [][]asgn
			for _, x := range xs {
				for _, y := range ys {
					if len(r) < lim {
						r = append(r, append(append([]asgn(nil), x...), y...))
					}
				}
			}
			return r
		}
		r := it.cands(t.a, v, d-1)
		if len(r) < lim {
			r = append(r[:len(r):len(r)], it.cands(t.b, v, d-1)...)
		}
		return r
	case OIte:
		c := it.st.Eval(t.a, it.model) != 0
		in, out := t.b, t.c
		if !c {
			in, out = out, in
		}
		r := it.cands(in, v, d-1)
		for _, x := range it.cands(t.a, !c, d-1) {
			for _, y := range it.cands(out, v, d-1) {
				if len(r) < lim {
					r = append(r[:len(r):len(r)], append(append([]asgn(nil), x...), y...))
				}
			}
		}
		return r
	case OEq:
		a, b := t.a, t.b
		if a.isConst() {
			a, b = b, a
		}
		if a.op == OVar && b.isConst() {
			if v {
				return [][]asgn{{{a, b.val}}}
			}
			var r [][]asgn
			dm, ok := it.dom[a]
			if !ok {
				dm = fullDom(a.w)
			}
			for x := uint64(0); x < 64 && len(r) < lim; x++ {
				if dm>>x&1 == 1 && x != b.val {
					r = append(r, []asgn{{a, x}})
				}
			}
			return r
		}
		if t.a.w == 0 {
			x := it.st.Eval(t.b, it.model) != 0
			r := it.cands(t.a, x == v, d-1)
			y := it.st.Eval(t.a, it.model) != 0
			if len(r) < lim {
				r = append(r[:len(r):len(r)], it.cands(t.b, y == v, d-1)...)
			}
			return r
		}
	}
	return nil
}

// ---- finite domains ----

func fullDom(w uint8) uint64 {
	if w >= 6 {
		return ^uint64(0)
	}
	return 1<<(1<<w) - 1
}

type domUndo struct {
	v   *Term
	old uint64
	had bool
}

// narrow records that var v only takes values in mask.
func (it *Interp) narrow(v *Term, mask uint64) {
	old, had := it.dom[v]
	if !had {
		old = fullDom(v.w)
	}
	n := old & mask
	if n == old && had {
		return
	}
	it.domLog = append(it.domLog, domUndo{v, it.dom[v], had})
	it.dom[v] = n
}

func smallVar(t *Term) bool { return t.op == OVar && t.w > 0 && t.w <= 6 }

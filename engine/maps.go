package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// hashKey gives a comparable Go key for fully concrete map keys.
func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case string, int64, bool, float64:
		return x, true
	case Ptr:
		return x.c, true
	case Iface:
		if x.t == nil {
			return nil, true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		switch b := x.t.(type) {
		case *types.Basic:
			return [2]any{b.Kind(), k}, true
		}
		return [2]any{x.t.String(), k}, true
	case StructV:
		s := ""
		for _, f := range x {
			k, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T%v%d\x00", k, k, len(fmt.Sprint(k)))
		}
		return s, true
	}
	return nil, false
}

func (it *Interp) mapRead(m *MapObj) {
	it.checkUse(m.o)
	if it.par != nil {
		it.par.accessMap(it, m, false)
	}
}
func (it *Interp) mapWrite(m *MapObj) {
	it.checkUse(m.o)
	if it.par != nil {
		it.par.accessMap(it, m, true)
	}
}

// find returns the candidates whose key may equal k: index and condition.
func (it *Interp) mapCands(m *MapObj, k Value) (idx []int, conds []Value) {
	if ifc, ok := k.(Iface); ok && ifc.t != nil && !types.Comparable(ifc.t) {
		panic(it.rtPanic("runtime error: hash of unhashable type " + ifc.t.String()))
	}
	if m == nil {
		return
	}
	if len(m.ents) > 12 {
		if hk, ok := hashKey(k); ok {
			if m.idx == nil {
				all := true
				ix := map[any]int{}
				for i := range m.ents {
					h, ok := hashKey(m.ents[i].k)
					if !ok {
						all = false
						break
					}
					ix[h] = i
				}
				m.conc = all
				m.idx = ix
			}
			if m.conc {
				if i, ok := m.idx[hk]; ok {
					if pt := m.ents[i].p; pt != nil {
						return it.cand(i, pt)
					}
					return []int{i}, []Value{true}
				}
				return
			}
		}
	}
	for i := range m.ents {
		c := it.eq(m.ents[i].k, k)
		if pt := m.ents[i].p; pt != nil {
			c = it.and(c, pt)
		}
		switch x := c.(type) {
		case bool:
			if x {
				return []int{i}, []Value{true}
			}
		case *Term:
			switch it.simp(x, 6) {
			case 1:
				return []int{i}, []Value{true}
			case 0:
			default:
				idx = append(idx, i)
				conds = append(conds, c)
			}
		}
	}
	return
}

func (it *Interp) cand(i int, c *Term) ([]int, []Value) {
	switch it.simp(c, 6) {
	case 1:
		return []int{i}, []Value{true}
	case 0:
		return nil, nil
	}
	return []int{i}, []Value{c}
}

// mapSlot finds the one slot holding concretely this key, present or not, when no other
// slot can hold it.
func (it *Interp) mapSlot(m *MapObj, k Value) int {
	slot := -1
	for i := range m.ents {
		switch x := it.eq(m.ents[i].k, k).(type) {
		case bool:
			if x {
				if slot >= 0 {
					return -1
				}
				slot = i
			}
		default:
			return -1
		}
	}
	return slot
}

// mapLen is the number of present entries.
func (it *Interp) mapLen(m *MapObj) Value {
	n := int64(0)
	var sum *Term
	for i := range m.ents {
		pt := m.ents[i].p
		if pt != nil {
			switch it.simp(pt, 6) {
			case 0:
				continue
			case 1:
				pt = nil
			}
		}
		if pt == nil {
			n++
			continue
		}
		one := it.st.Ite(pt, it.st.Const(64, 1), it.st.Const(64, 0))
		if sum == nil {
			sum = one
		} else {
			sum = it.st.Ite(pt, it.st.Bin(OAdd, sum, it.st.Const(64, 1)), sum)
		}
	}
	if sum == nil {
		return n
	}
	return it.t2i(it.st.Bin(OAdd, sum, it.st.Const(64, uint64(n))), true)
}

// mapGet returns value and presence.
func (it *Interp) mapGet(m *MapObj, k Value, vt types.Type) (Value, Value) {
	if m != nil {
		it.mapRead(m)
	}
	idx, conds := it.mapCands(m, k)
	if len(idx) == 0 {
		return it.zero(vt), false
	}
	if conds[0] == true {
		return cp(m.ents[idx[0]].v), true
	}
	// merge scalar values
	r := it.zero(vt)
	var ok Value = false
	merged := true
	for j := len(idx) - 1; j >= 0; j-- {
		v, mok := it.iteVT(conds[j].(*Term), cp(m.ents[idx[j]].v), r, vt)
		if !mok {
			merged = false
			break
		}
		r = v
		ok = it.or(ok, conds[j])
	}
	if merged {
		return r, ok
	}
	// fork
	ts := make([]*Term, 0, len(idx)+1)
	miss := it.st.tru
	for _, c := range conds {
		t := c.(*Term)
		ts = append(ts, it.st.And(miss, t))
		miss = it.st.And(miss, it.st.Not(t))
	}
	ts = append(ts, miss)
	i := it.decide(ts, nil)
	if i < len(idx) {
		return cp(m.ents[idx[i]].v), true
	}
	return it.zero(vt), false
}

// mapPos decides at which entry k is, -1 if absent.
func (it *Interp) mapPos(m *MapObj, k Value) int {
	idx, conds := it.mapCands(m, k)
	if len(idx) == 0 {
		return -1
	}
	if conds[0] == true {
		return idx[0]
	}
	ts := make([]*Term, 0, len(idx)+1)
	miss := it.st.tru
	for _, c := range conds {
		t := c.(*Term)
		ts = append(ts, it.st.And(miss, t))
		miss = it.st.And(miss, it.st.Not(t))
	}
	ts = append(ts, miss)
	i := it.decide(ts, nil)
	if i < len(idx) {
		return idx[i]
	}
	return -1
}

func (it *Interp) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		panic(it.rtPanic("assignment to entry in nil map"))
	}
	it.mapWrite(m)
	i := it.mapSlot(m, k)
	if i < 0 {
		if it.mapSetAlts(m, k, v) {
			return
		}
		i = it.mapPos(m, k)
	}
	if i >= 0 {
		ne := make([]mapEnt, len(m.ents))
		copy(ne, m.ents)
		ne[i].v = v
		ne[i].p = nil
		it.setEnts(m, ne)
		return
	}
	it.nextEnt++
	ne := make([]mapEnt, len(m.ents)+1)
	copy(ne, m.ents)
	ne[len(m.ents)] = mapEnt{id: it.nextEnt, k: cp(k), v: v}
	it.setEnts(m, ne)
}

// mapSetAlts sets the entry of a key that is one of a few strings without forking: every
// alternative becomes a conditional entry. Only when all keys present are concrete.
func (it *Interp) mapSetAlts(m *MapObj, k, v Value) bool {
	ks, ok := k.(*SymStr)
	if !ok || ks.alts == nil || len(ks.alts) > 6 || it.par != nil {
		return false
	}
	ne := append([]mapEnt(nil), m.ents...)
	n := 0
	for _, a := range ks.alts {
		r := it.simp(a.c, 6)
		if r == 0 {
			continue
		}
		n++
		slot := -1
		for i := range m.ents {
			s, ok := m.ents[i].k.(string)
			if !ok {
				return false
			}
			if s == a.s {
				if slot >= 0 {
					return false
				}
				slot = i
			}
		}
		if slot < 0 {
			it.nextEnt++
			e := mapEnt{id: it.nextEnt, k: a.s, v: cp(v)}
			if r != 1 {
				e.p = a.c
			}
			ne = append(ne, e)
			continue
		}
		old := &ne[slot]
		if r == 1 {
			old.v, old.p = cp(v), nil
			continue
		}
		nv, ok := it.iteAny(a.c, cp(v), old.v, m.vt)
		if !ok {
			return false
		}
		old.v = nv
		if old.p != nil {
			old.p = it.st.Or(old.p, a.c)
			if old.p == it.st.tru {
				old.p = nil
			}
		}
	}
	it.setEnts(m, ne)
	return true
}

func (it *Interp) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	it.mapWrite(m)
	i := it.mapSlot(m, k)
	if i < 0 {
		i = it.mapPos(m, k)
	}
	if i < 0 {
		return
	}
	ne := make([]mapEnt, 0, len(m.ents))
	ne = append(ne, m.ents[:i]...)
	ne = append(ne, m.ents[i+1:]...)
	it.setEnts(m, ne)
}

// ---- iteration ----

type mapIter struct {
	m    *MapObj
	todo []int64
}

// order returns the entry ids in the order they will be visited, except in permutation
// mode where the next one is picked at each step.
func (it *Interp) newMapIter(m *MapObj) *mapIter {
	mi := &mapIter{m: m}
	if m == nil {
		return mi
	}
	it.mapRead(m)
	n := len(m.ents)
	for i := range m.ents {
		mi.todo = append(mi.todo, m.ents[i].id)
	}
	if n >= 2 && it.mapMode == 1 && !it.noTrail {
		if it.ordBit == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				mi.todo[i], mi.todo[j] = mi.todo[j], mi.todo[i]
			}
		}
	}
	return mi
}

func (mi *mapIter) next(it *Interp) *mapEnt {
	for len(mi.todo) > 0 {
		k := 0
		if it.mapMode == 2 && len(mi.todo) > 1 && !it.noTrail {
			// drop vanished entries first
			live := mi.todo[:0:0]
			for _, id := range mi.todo {
				if mi.ent(id) != nil {
					live = append(live, id)
				}
			}
			mi.setTodo(it, live)
			if len(live) == 0 {
				return nil
			}
			k = it.choice(len(live), "order")
		}
		id := mi.todo[k]
		nt := make([]int64, 0, len(mi.todo)-1)
		nt = append(nt, mi.todo[:k]...)
		nt = append(nt, mi.todo[k+1:]...)
		mi.setTodo(it, nt)
		if e := mi.ent(id); e != nil {
			if e.p == nil || it.branch(it.t2b(e.p)) {
				return e
			}
		}
	}
	return nil
}

func (mi *mapIter) setTodo(it *Interp, todo []int64) {
	old := mi.todo
	it.logIter(func() { mi.todo = old })
	mi.todo = todo
}

func (mi *mapIter) ent(id int64) *mapEnt {
	for i := range mi.m.ents {
		if mi.m.ents[i].id == id {
			return &mi.m.ents[i]
		}
	}
	return nil
}

func (it *Interp) mapNext(mi *mapIter, x *ssa.Next) Value {
	tt := x.Type().(*types.Tuple)
	if mi.m != nil {
		it.mapRead(mi.m)
		if e := mi.next(it); e != nil {
			return Tuple{true, cp(e.k), cp(e.v)}
		}
	}
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return it.zero(t)
	}
	return Tuple{false, z(1), z(2)}
}

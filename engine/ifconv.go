package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: a branch on a symbolic condition whose two sides only compute values and
// meet again is executed on both sides, and the phis at the meeting point become
// if-then-else terms.

type region struct {
	join   *ssa.BasicBlock
	blocks []*ssa.BasicBlock // topological order, without the branching block and the join
}

// postdominators by iteration over bitsets (functions are small).
func ipdoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	w := (n + 64) / 64
	full := make([]uint64, w)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := make([]uint64, w)
			if len(b.Succs) > 0 {
				copy(cur, full)
				for _, s := range b.Succs {
					for k := range cur {
						cur[k] &= pd[s.Index][k]
					}
				}
			}
			cur[i/64] |= 1 << (i % 64)
			for k := range cur {
				if cur[k] != pd[i][k] {
					changed = true
				}
			}
			pd[i] = cur
		}
	}
	out := make([]int, n)
	has := func(i, j int) bool { return pd[i][j/64]&(1<<(j%64)) != 0 }
	for i := range out {
		out[i] = -1
		for j := 0; j < n; j++ {
			if j == i || !has(i, j) {
				continue
			}
			// j is immediate if every other strict postdominator of i postdominates j
			ok := true
			for k := 0; k < n; k++ {
				if k != i && k != j && has(i, k) && !has(j, k) {
					ok = false
					break
				}
			}
			if ok {
				out[i] = j
				break
			}
		}
	}
	return out
}

const maxRegion = 24

func (fi *fnInfo) regionOf(b *ssa.BasicBlock) *region {
	if fi.regions == nil {
		fi.regions = map[int]*region{}
	}
	if r, ok := fi.regions[b.Index]; ok {
		return r
	}
	fi.regions[b.Index] = nil
	if fi.ipd == nil {
		fi.ipd = ipdoms(fi.fn)
	}
	j := fi.ipd[b.Index]
	if j < 0 {
		return nil
	}
	join := fi.fn.Blocks[j]
	if join == b {
		return nil
	}
	// depth-first: collect blocks between, fail on cycles or impure instructions
	state := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	ok := true
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		if !ok || x == join {
			return
		}
		if x == b {
			ok = false
			return
		}
		switch state[x] {
		case 1:
			ok = false
			return
		case 2:
			return
		}
		state[x] = 1
		if len(state) > maxRegion {
			ok = false
			return
		}
		for _, ins := range x.Instrs {
			if !pureKind(ins) {
				ok = false
				return
			}
		}
		for _, s := range x.Succs {
			visit(s)
		}
		state[x] = 2
		order = append(order, x)
	}
	for _, s := range b.Succs {
		visit(s)
	}
	if !ok {
		return nil
	}
	// entries only through b
	for _, x := range order {
		for _, p := range x.Preds {
			if p != b && state[p] != 2 {
				return nil
			}
		}
	}
	for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
		order[i], order[k] = order[k], order[i]
	}
	r := &region{join: join, blocks: order}
	fi.regions[b.Index] = r
	return r
}

func pureKind(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.IndexAddr, *ssa.Index, *ssa.Convert:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL || x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "min" || b.Name() == "max")
	}
	return false
}

// convert executes the region; ok reports success, in which case the join's phis are set.
func (it *Interp) ifConvert(fr *frame, b *ssa.BasicBlock, c *Term) (*ssa.BasicBlock, bool) {
	r := fr.fi.regionOf(b)
	if r == nil {
		return nil, false
	}
	type edge struct{ from, to *ssa.BasicBlock }
	g := map[edge]*Term{}
	add := func(f, t *ssa.BasicBlock, c *Term) {
		e := edge{f, t}
		if o, ok := g[e]; ok {
			c = it.st.Or(o, c)
		}
		g[e] = c
	}
	add(b, b.Succs[0], c)
	add(b, b.Succs[1], it.st.Not(c))
	trap := it.st.fls
	phis := func(x *ssa.BasicBlock, commit bool) bool {
		instrs := fr.fi.blocks[x.Index]
		k := 0
		var vals []Value
		for ; k < len(instrs); k++ {
			phi, ok := instrs[k].ins.(*ssa.Phi)
			if !ok {
				break
			}
			var v Value
			first := true
			for i, p := range x.Preds {
				eg, ok := g[edge{p, x}]
				if !ok || eg == it.st.fls {
					continue
				}
				pv := it.get(fr, &instrs[k].op[i])
				if first {
					v, first = pv, false
					continue
				}
				nv, ok := it.iteVT(eg, pv, v, phi.Type())
				if !ok {
					if sameLeaf(pv, v) {
						continue
					}
					return false
				}
				v = nv
			}
			if first {
				return false
			}
			vals = append(vals, v)
		}
		for j := 0; j < k; j++ {
			fr.env[instrs[j].dst] = vals[j]
		}
		return true
	}
	for _, x := range r.blocks {
		gx := it.st.fls
		for _, p := range x.Preds {
			if eg, ok := g[edge{p, x}]; ok {
				gx = it.st.Or(gx, eg)
			}
		}
		if gx == it.st.fls {
			continue
		}
		if !phis(x, false) {
			return nil, false
		}
		instrs := fr.fi.blocks[x.Index]
		for k := range instrs {
			ci := &instrs[k]
			switch y := ci.ins.(type) {
			case *ssa.Phi:
			case *ssa.Jump:
				add(x, x.Succs[0], gx)
			case *ssa.If:
				cv := it.get(fr, &ci.op[0])
				ct := it.b2t(cv)
				add(x, x.Succs[0], it.st.And(gx, ct))
				add(x, x.Succs[1], it.st.And(gx, it.st.Not(ct)))
			case *ssa.Index:
				s := it.get(fr, &ci.op[0])
				i := it.normIdx(it.get(fr, &ci.op[1]), y.Index.Type())
				switch s.(type) {
				case string, *SymStr:
				default:
					return nil, false
				}
				n := it.strLenT(s)
				it64 := it.i2t(i, 64)
				trap = it.st.Or(trap, it.st.And(gx, it.st.Not(it.st.Cmp(OUlt, it64, n))))
				if k, ok := i.(int64); ok {
					if k < 0 || k >= int64(strMax(s)) {
						fr.env[ci.dst] = int64(0)
					} else {
						fr.env[ci.dst] = it.t2i(it.strByte(s, int(k)), false)
					}
				} else {
					if strMax(s) == 0 {
						return nil, false
					}
					rr := it.strByte(s, 0)
					for q := 1; q < strMax(s); q++ {
						rr = it.st.Ite(it.st.Eq(it64, it.st.Const(64, uint64(q))), it.strByte(s, q), rr)
					}
					fr.env[ci.dst] = it.t2i(rr, false)
				}
			case *ssa.IndexAddr:
				i := it.normIdx(it.get(fr, &ci.op[1]), y.Index.Type())
				k, ok := i.(int64)
				sl, ok2 := it.get(fr, &ci.op[0]).(Slice)
				if !ok || !ok2 || k < 0 || k >= int64(sl.n) {
					return nil, false
				}
				fr.env[ci.dst] = Ptr{c: &sl.a[k], o: sl.o}
			case *ssa.Convert:
				_, _, ok1 := intInfo(y.X.Type())
				_, _, ok2 := intInfo(y.Type())
				if !ok1 || !ok2 {
					return nil, false
				}
				it.step(fr, ci)
			default:
				if !it.pureStep(fr, ci) {
					return nil, false
				}
			}
		}
	}
	if trap != it.st.fls && it.simp(trap, 6) != 0 {
		if res, _ := it.sol.Check(it.pc, trap); res != Unsat {
			return nil, false
		}
	}
	if !phis(r.join, true) {
		return nil, false
	}
	return r.join, true
}

var _ = types.Typ

package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Region merging: from a branch on a symbolic condition to the block where all paths meet
// again, every path is executed and the resulting states are merged into one.

type mregion struct {
	join int
	phiT *types.Tuple // phis of the join, then live
	live []int
}

func (it *Interp) mregionOf(fr *frame, b *ssa.BasicBlock) *mregion {
	if r, ok := it.mregs[b]; ok {
		return r
	}
	if it.mregs == nil {
		it.mregs = map[*ssa.BasicBlock]*mregion{}
	}
	it.mregs[b] = nil
	fi := fr.fi
	if fi.ipd == nil {
		fi.ipd = ipdoms(fi.fn)
	}
	j := fi.ipd[b.Index]
	if j < 0 || j == b.Index {
		return nil
	}
	join := fi.fn.Blocks[j]
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), b.Succs...)
	var nexts []*ssa.Next
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == join || seen[x] {
			continue
		}
		seen[x] = true
		for _, ins := range x.Instrs {
			switch y := ins.(type) {
			case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Return:
				return nil
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					return nil
				}
			case *ssa.Next:
				nexts = append(nexts, y)
			}
		}
		todo = append(todo, x.Succs...)
	}
	// an iterator advanced inside must not be used after the join
	for _, n := range nexts {
		rg, ok := n.Iter.(*ssa.Range)
		if !ok {
			return nil
		}
		if seen[rg.Block()] {
			continue
		}
		r := map[*ssa.BasicBlock]bool{}
		todo = append(todo[:0], join)
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if r[x] || x == rg.Block() {
				continue
			}
			r[x] = true
			todo = append(todo, x.Succs...)
		}
		if r[n.Block()] {
			return nil
		}
	}
	var vars []*types.Var
	for _, ins := range join.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vars = append(vars, types.NewVar(token.NoPos, nil, "", p.Type()))
	}
	// values defined inside that are visible after the join (loops only)
	reach := map[*ssa.BasicBlock]bool{}
	todo = append(todo[:0], join)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if reach[x] {
			continue
		}
		reach[x] = true
		todo = append(todo, x.Succs...)
	}
	var live []int
	for _, x := range fi.fn.Blocks {
		if !seen[x] || !x.Dominates(join) {
			continue
		}
		for _, ins := range x.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, ref := range *v.Referrers() {
				if reach[ref.Block()] {
					sl, ok := fi.slot[v]
					if !ok {
						return nil
					}
					live = append(live, sl)
					vars = append(vars, types.NewVar(token.NoPos, nil, "", v.Type()))
					break
				}
			}
		}
	}
	m := &mregion{join: j, live: live}
	if len(vars) > 0 {
		m.phiT = types.NewTuple(vars...)
	}
	it.mregs[b] = m
	return m
}

// phiTuple is the values of a block's phis when it is entered from prev.
func (it *Interp) phiTuple(fr *frame, block, prev int) Value {
	instrs := fr.fi.blocks[block]
	var vals Tuple
	edge := -1
	for i, p := range fr.fi.fn.Blocks[block].Preds {
		if p.Index == prev {
			edge = i
			break
		}
	}
	for k := range instrs {
		if _, ok := instrs[k].ins.(*ssa.Phi); !ok {
			break
		}
		if prev == -2 {
			vals = append(vals, fr.env[instrs[k].dst])
		} else {
			vals = append(vals, it.get(fr, &instrs[k].op[edge]))
		}
	}
	if vals == nil {
		return nil
	}
	return vals
}

const maxRegionPaths = 200

// regionMerge executes from the branch at the end of b to the join. ok false: not applicable.
func (it *Interp) regionMerge(fr *frame, b *ssa.BasicBlock, c *Term) (int, int, bool) {
	if it.noRegion || it.par != nil || it.noMerge || it.noTrail || it.simp(c, 6) >= 0 {
		return 0, 0, false
	}
	m := it.mregionOf(fr, b)
	if m == nil {
		return 0, 0, false
	}
	var rt types.Type
	if m.phiT != nil {
		rt = m.phiT
	}
	snap := append([]Value(nil), fr.env...)
	v := it.mergeExec(mergeKey{fr.fi.fn, b.Index}, rt, maxRegionPaths, func() Value {
		copy(fr.env, snap)
		nb, pv := it.branchBlock(fr, b, c)
		r := it.execFrom(fr, nb, pv, m.join)
		if len(m.live) > 0 {
			t, _ := r.(Tuple)
			for _, sl := range m.live {
				t = append(t, fr.env[sl])
			}
			return t
		}
		return r
	})
	if m.phiT != nil {
		t := v.(Tuple)
		instrs := fr.fi.blocks[m.join]
		np := len(t) - len(m.live)
		for i := range t[:np] {
			fr.env[instrs[i].dst] = t[i]
		}
		for i, sl := range m.live {
			fr.env[sl] = t[np+i]
		}
	}
	return m.join, -2, true
}

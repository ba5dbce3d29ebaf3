package main

import (
	"fmt"
	"go/types"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions ----

const (
	decBranch = iota
	decMerged
	decNoMerge
)

type Dec struct {
	kind   uint8
	forced bool
	choice int32
	paths  [][]Dec
	memo   *mergeMemo
}

// mergeMemo is the result of an already merged call, valid for terms of one store.
type mergeMemo struct {
	st  *Store
	res Value
	nc  int
}

type useMemo struct {
	ex *Explorer
	m  *mergeMemo
}

// scalarRes: the value contains only terms and constants.
func scalarRes(v Value) bool {
	switch x := v.(type) {
	case nil, bool, int64, *Term, string, *SymStr:
		return true
	case Ptr:
		return x.c == nil
	case Slice:
		return x.o == nil
	case *MapObj:
		return x == nil
	case Iface:
		return x.t == nil || scalarRes(x.v)
	case Tuple:
		for _, e := range x {
			if !scalarRes(e) {
				return false
			}
		}
		return true
	case StructV:
		for _, e := range x {
			if !scalarRes(e) {
				return false
			}
		}
		return true
	}
	return false
}

const (
	exUninit = iota
	exActive
	exPass
)

// Explorer enumerates the paths of one activation: the whole harness (root), or one
// function call whose paths are merged back into a single symbolic result.
type Explorer struct {
	parent   *Explorer
	key      mergeKey
	mode     int
	mustPass bool
	prefix   []Dec
	trace    []Dec
	conds    []*Term
	replay   [][]Dec // recorded paths (when re-running an already merged call)
	replayI  int
	queue    []workItem
	nPaths   int
	assumed  bool
}

type workItem struct {
	prefix []Dec
	model  Model
}

// ---- shared run state ----

type Violation struct {
	Harness string     `json:"harness"`
	Kind    string     `json:"kind"`
	Msg     string     `json:"msg"`
	Inputs  []InputVal `json:"inputs"`
	Replay  string     `json:"replay,omitempty"`
	Trail   []string   `json:"schedule,omitempty"`
	OK      bool       `json:"reproduced"`
}

type InputVal struct {
	Kind string `json:"k"`
	Name string `json:"n,omitempty"`
	I    int64  `json:"i"`
	S    []int  `json:"s,omitempty"`
}

type ObsVal struct {
	Name string `json:"n"`
	Val  string `json:"v"`
}

type Sample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []ObsVal   `json:"obs"`
	ordDep bool
}

type Run struct {
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []workItem
	active    int
	stop      bool
	deadline  time.Time
	Harness   string
	Viol      []Violation
	violKeys  map[string]int
	Covers    map[string]int
	Reduced   map[string]int
	Paths     int
	DeadPaths int
	BadPaths  int
	Decisions int
	Steps     int64
	Queries   int
	Unknowns  int
	SolverT   time.Duration
	Merged    int
	MergedP   int
	Asserts   int
	Funcs     map[string]bool
	Samples   []Sample
	Hangs     []Violation
	maxViol   int
	fnDecs    map[string]int
	traces    map[string]bool // interleavings asked about
	OrdEvents int
	OrdPairs  int
}

func NewRun(h string, deadline time.Time) *Run {
	r := &Run{Harness: h, deadline: deadline, violKeys: map[string]int{}, Covers: map[string]int{}, Reduced: map[string]int{}, Funcs: map[string]bool{}, maxViol: 12, fnDecs: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

// snapshot copies the results so far; the caller holds the lock.
func (r *Run) snapshot() *Run {
	c := NewRun(r.Harness, r.deadline)
	c.stop = true
	c.Viol = append(c.Viol, r.Viol...)
	c.Samples = append(c.Samples, r.Samples...)
	c.Hangs = append(c.Hangs, r.Hangs...)
	for k, v := range r.Covers {
		c.Covers[k] = v
	}
	for k, v := range r.Reduced {
		c.Reduced[k] = v
	}
	for k := range r.Funcs {
		c.Funcs[k] = true
	}
	c.Paths, c.DeadPaths, c.BadPaths, c.Steps, c.Merged, c.MergedP, c.Asserts = r.Paths, r.DeadPaths, r.BadPaths, r.Steps, r.Merged, r.MergedP, r.Asserts
	c.Decisions, c.Queries, c.Unknowns, c.SolverT = r.Decisions, r.Queries, r.Unknowns, r.SolverT
	c.OrdEvents, c.OrdPairs = r.OrdEvents, r.OrdPairs
	return c
}

func (r *Run) push(w workItem) {
	r.mu.Lock()
	r.queue = append(r.queue, w)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) pop() (workItem, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return workItem{}, false
		}
		if n := len(r.queue); n > 0 {
			w := r.queue[n-1]
			r.queue[n-1] = workItem{}
			r.queue = r.queue[:n-1]
			r.active++
			return w, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return workItem{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.queue) == 0 {
		r.cond.Broadcast()
	}
	if !r.stop && time.Now().After(r.deadline) {
		r.stop = true
		r.Reduced["time budget exhausted with unexplored paths"]++
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) reduced(msg string) {
	r.mu.Lock()
	r.Reduced[msg]++
	r.mu.Unlock()
}

// ---- trail ----

type trailEnt struct {
	c    *Value
	old  Value
	o    *Obj
	m    *MapObj
	ents []mapEnt
	undo func()
	iter bool       // the position of an iterator
	t    types.Type // of the cell, if known
}

func (it *Interp) rollback(mark int) {
	for i := len(it.trail) - 1; i >= mark; i-- {
		e := &it.trail[i]
		switch {
		case e.c != nil:
			*e.c = e.old
		case e.m != nil:
			e.m.ents = e.ents
			e.m.idx = nil
		default:
			e.undo()
		}
		*e = trailEnt{}
	}
	it.trail = it.trail[:mark]
}

func (it *Interp) setCell(c *Value, o *Obj, v Value) {
	if !it.noTrail {
		it.trail = append(it.trail, trailEnt{c: c, old: *c, o: o, t: it.storeT})
	}
	*c = v
}

func (it *Interp) setEnts(m *MapObj, ents []mapEnt) {
	if !it.noTrail {
		it.trail = append(it.trail, trailEnt{m: m, ents: m.ents, o: m.o})
	}
	m.ents = ents
	m.idx = nil
}

func (it *Interp) logIter(f func()) {
	if !it.noTrail {
		it.trail = append(it.trail, trailEnt{undo: f, iter: true})
	}
}

func (it *Interp) logUndo(o *Obj, f func()) {
	if !it.noTrail {
		it.trail = append(it.trail, trailEnt{o: o, undo: f})
	}
}

func sameLeaf(a, b Value) bool {
	switch x := a.(type) {
	case Slice:
		y, ok := b.(Slice)
		return ok && x.o == y.o && x.n == y.n && len(x.a) == len(y.a) && (len(x.a) == 0 || &x.a[0] == &y.a[0])
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && sameLeaf(x.v, y.v)
	case StructV, ArrayV, Tuple:
		return false
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case bool, int64, float64, string, *Term, *SymStr, *MapObj, *Closure, nil:
		switch b.(type) {
		case StructV, ArrayV, Tuple, Slice, Iface:
			return false
		}
		return a == b
	}
	return false
}

func sameEnts(a, b []mapEnt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].id != b[i].id || a[i].p != b[i].p || !sameLeaf(a[i].v, b[i].v) {
			return false
		}
	}
	return true
}

// effects are the changes a local path makes to objects older than it.
type effects struct {
	cells   map[*Value]cellEff
	cellOrd []*Value
	maps    map[*MapObj][]mapEnt
	mapOrd  []*MapObj
}

type cellEff struct {
	o *Obj
	t types.Type
	v Value
}

func (e *effects) none() bool { return e == nil || len(e.cellOrd) == 0 && len(e.mapOrd) == 0 }

// netEffect collects how objects older than seqMark differ from their state at mark.
// New objects put into a pool are dropped, which a pool may do at any time; what happens to the
// objects that already sat there counts.
func (it *Interp) netEffect(mark int, seqMark int64, before map[*Obj]bool) (*effects, string) {
	if len(before) > 0 {
		after := it.pooled()
		for o := range before {
			if !after[o] {
				return nil, "pool item taken"
			}
		}
	}
	var eff *effects
	var seenC map[*Value]bool
	var seenM map[*MapObj]bool
	for i := mark; i < len(it.trail); i++ {
		e := &it.trail[i]
		if e.iter || e.o != nil && (e.o.seq > seqMark) {
			continue
		}
		if e.c != nil && it.poolCells[e.c] {
			continue
		}
		if eff == nil {
			eff = &effects{cells: map[*Value]cellEff{}, maps: map[*MapObj][]mapEnt{}}
		}
		switch {
		case e.c != nil:
			if seenC[e.c] {
				continue
			}
			if seenC == nil {
				seenC = map[*Value]bool{}
			}
			seenC[e.c] = true
			if !sameLeaf(e.old, *e.c) {
				switch (*e.c).(type) {
				case StructV, ArrayV, Tuple:
					return nil, "aggregate write"
				}
				switch e.old.(type) {
				case StructV, ArrayV, Tuple:
					return nil, "aggregate write"
				}
				if !it.mergeableResult(*e.c, seqMark) {
					return nil, "write of a new object"
				}
				eff.cells[e.c] = cellEff{e.o, e.t, *e.c}
				eff.cellOrd = append(eff.cellOrd, e.c)
			}
		case e.m != nil:
			if seenM[e.m] {
				continue
			}
			if seenM == nil {
				seenM = map[*MapObj]bool{}
			}
			seenM[e.m] = true
			if !sameEnts(e.ents, e.m.ents) {
				for k := range e.m.ents {
					if !it.mergeableResult(e.m.ents[k].k, seqMark) || !it.mergeableResult(e.m.ents[k].v, seqMark) {
						return nil, "map write of a new object"
					}
				}
				eff.maps[e.m] = e.m.ents
				eff.mapOrd = append(eff.mapOrd, e.m)
			}
		default:
			return nil, "effect"
		}
	}
	return eff, ""
}

// sameShapeU is sameShape for values whose type may be unknown.
func (it *Interp) sameShapeU(a, b Value, t types.Type) bool {
	if sameLeaf(a, b) {
		return true
	}
	if t != nil {
		return it.sameShape(a, b, t)
	}
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return true
		case *Term:
			return y.w == 0
		}
	case *Term:
		switch y := b.(type) {
		case bool:
			return x.w == 0
		case int64:
			return x.w > 0
		case *Term:
			return x.w == y.w
		}
	case int64:
		y, ok := b.(*Term)
		return ok && y.w > 0
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
			return true
		}
	case StructV:
		y, ok := b.(StructV)
		return ok && len(x) == 0 && len(y) == 0
	}
	return false
}

func (it *Interp) iteAny(c *Term, a, b Value, t types.Type) (Value, bool) {
	if sameLeaf(a, b) {
		return a, true
	}
	if t != nil {
		return it.iteVT(c, a, b, t)
	}
	if x, ok := a.(StructV); ok && len(x) == 0 {
		return a, true
	}
	return it.iteV(c, a, b)
}

func (it *Interp) sameKey(a, b *mapEnt) bool {
	if a.id == b.id || sameLeaf(a.k, b.k) {
		return true
	}
	x, ok1 := hashKey(a.k)
	y, ok2 := hashKey(b.k)
	return ok1 && ok2 && x == y
}

func findKey(it *Interp, ents []mapEnt, e *mapEnt) *mapEnt {
	for i := range ents {
		if ents[i].id == e.id {
			return &ents[i]
		}
	}
	for i := range ents {
		if it.sameKey(&ents[i], e) {
			return &ents[i]
		}
	}
	return nil
}

func (e *effects) ents(m *MapObj) []mapEnt {
	if e != nil {
		if x, ok := e.maps[m]; ok {
			return x
		}
	}
	return m.ents
}

func (e *effects) cell(c *Value) Value {
	if e != nil {
		if x, ok := e.cells[c]; ok {
			return x.v
		}
	}
	return *c
}

// sameEffShape: the effects of two outcomes can be merged into one state.
func (it *Interp) sameEffShape(a, b *effects) bool {
	for _, e := range []*effects{a, b} {
		if e == nil {
			continue
		}
		for _, c := range e.cellOrd {
			if !it.sameShapeU(a.cell(c), b.cell(c), e.cells[c].t) {
				return false
			}
		}
		for _, m := range e.mapOrd {
			xb := b.ents(m)
			xa := a.ents(m)
			for i := range xa {
				if o := findKey(it, xb, &xa[i]); o != nil && !it.sameShapeU(xa[i].v, o.v, m.vt) {
					return false
				}
			}
		}
	}
	return true
}

// applyEffects writes the merged effects of the outcomes.
func (it *Interp) applyEffects(outs []outcome) {
	type cw struct {
		c *Value
		o *Obj
		v Value
	}
	type mw struct {
		m    *MapObj
		ents []mapEnt
	}
	var cws []cw
	var mws []mw
	seenC := map[*Value]bool{}
	seenM := map[*MapObj]bool{}
	for i := range outs {
		e := outs[i].eff
		if e == nil {
			continue
		}
		for _, c := range e.cellOrd {
			if seenC[c] {
				continue
			}
			seenC[c] = true
			ce := e.cells[c]
			v := it.mergeTree(outs, 0, func(o *outcome) Value { return o.eff.cell(c) }, ce.t)
			cws = append(cws, cw{c, ce.o, v})
		}
		for _, m := range e.mapOrd {
			if seenM[m] {
				continue
			}
			seenM[m] = true
			keys := append([]mapEnt(nil), m.ents...)
			base := len(keys)
			for j := range outs {
				es := outs[j].eff.ents(m)
				for k := range es {
					if findKey(it, keys, &es[k]) == nil {
						keys = append(keys, es[k])
					}
				}
			}
			var ents []mapEnt
			for k := range keys {
				key := &keys[k]
				dflt := key.v
				if k < base {
					// a value some outcome has
					for j := range outs {
						if x := findKey(it, outs[j].eff.ents(m), key); x != nil {
							dflt = x.v
							break
						}
					}
				}
				pv := it.mergeTree(outs, 0, func(o *outcome) Value {
					x := findKey(it, o.eff.ents(m), key)
					if x == nil {
						return false
					}
					if x.p == nil {
						return true
					}
					return x.p
				}, types.Typ[types.Bool])
				pt := it.b2t(pv)
				if pt == it.st.fls {
					continue
				}
				v := it.mergeTree(outs, 0, func(o *outcome) Value {
					if x := findKey(it, o.eff.ents(m), key); x != nil {
						return x.v
					}
					return dflt
				}, m.vt)
				ne := mapEnt{id: key.id, k: key.k, v: v}
				if k >= base {
					it.nextEnt++
					ne.id = it.nextEnt
				}
				if pt != it.st.tru {
					ne.p = pt
				}
				ents = append(ents, ne)
			}
			mws = append(mws, mw{m, ents})
		}
	}
	for _, w := range cws {
		it.setCell(w.c, w.o, w.v)
	}
	for _, w := range mws {
		it.setEnts(w.m, w.ents)
	}
}

// ---- path condition ----

type knownEnt struct {
	t *Term
}

func (it *Interp) pushPC(t *Term) {
	if t == it.st.tru {
		return
	}
	it.pc = append(it.pc, t)
	it.addKnown(t, true)
}

func (it *Interp) addKnown(t *Term, v bool) {
	if t.op == ONot {
		it.addKnown(t.a, !v)
		return
	}
	if _, ok := it.known[t]; ok {
		return
	}
	it.known[t] = v
	it.knownLog = append(it.knownLog, t)
	if v && t.op == OAnd {
		it.addKnown(t.a, true)
		it.addKnown(t.b, true)
	}
	if !v && t.op == OOr {
		it.addKnown(t.a, false)
		it.addKnown(t.b, false)
	}
	if t.op == OEq {
		x, y := t.a, t.b
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && smallVar(x) {
			if v {
				it.narrow(x, 1<<y.val)
			} else {
				it.narrow(x, ^(uint64(1) << y.val))
			}
		}
	}
	if v && t.op == OEq {
		// x = const: other constants are excluded via simp
		if t.a.isConst() && !t.b.isConst() {
			it.addVal(t.b, t.a)
		} else if t.b.isConst() && !t.a.isConst() {
			it.addVal(t.a, t.b)
		}
	}
}

func (it *Interp) addVal(t, c *Term) {
	if _, ok := it.vals[t]; ok {
		return
	}
	it.vals[t] = c
	it.valsLog = append(it.valsLog, t)
}

func (it *Interp) truncPC(pcn, kn, vn, dn int) {
	it.pc = it.pc[:pcn]
	for i := len(it.knownLog) - 1; i >= kn; i-- {
		delete(it.known, it.knownLog[i])
	}
	it.knownLog = it.knownLog[:kn]
	for i := len(it.valsLog) - 1; i >= vn; i-- {
		delete(it.vals, it.valsLog[i])
	}
	it.valsLog = it.valsLog[:vn]
	for i := len(it.domLog) - 1; i >= dn; i-- {
		if u := it.domLog[i]; u.had {
			it.dom[u.v] = u.old
		} else {
			delete(it.dom, u.v)
		}
	}
	it.domLog = it.domLog[:dn]
}

// simp decides a condition from known facts: 1 true, 0 false, -1 unknown.
func (it *Interp) simp(t *Term, d int) int {
	if t.op == OConst {
		return int(t.val)
	}
	if v, ok := it.known[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if d == 0 {
		return -1
	}
	switch t.op {
	case ONot:
		r := it.simp(t.a, d-1)
		if r >= 0 {
			return 1 - r
		}
	case OAnd:
		x := it.simp(t.a, d-1)
		if x == 0 {
			return 0
		}
		y := it.simp(t.b, d-1)
		if y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
	case OOr:
		x := it.simp(t.a, d-1)
		if x == 1 {
			return 1
		}
		y := it.simp(t.b, d-1)
		if y == 1 {
			return 1
		}
		if x == 0 && y == 0 {
			return 0
		}
	case OEq:
		x, y := t.a, t.b
		if v, ok := it.vals[x]; ok {
			x = v
		}
		if v, ok := it.vals[y]; ok {
			y = v
		}
		if x.isConst() && y.isConst() {
			if x.val == y.val {
				return 1
			}
			return 0
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && smallVar(x) {
			if dm, ok := it.dom[x]; ok {
				if dm>>y.val&1 == 0 {
					return 0
				}
				if dm == 1<<y.val {
					return 1
				}
			}
		}
	case OUlt, OUle:
		x, y := t.a, t.b
		if v, ok := it.vals[x]; ok {
			x = v
		}
		if v, ok := it.vals[y]; ok {
			y = v
		}
		if x.isConst() && y.isConst() {
			if t.op == OUlt && x.val < y.val || t.op == OUle && x.val <= y.val {
				return 1
			}
			return 0
		}
	case OIte:
		if t.w == 0 {
			c := it.simp(t.a, d-1)
			if c == 1 {
				return it.simp(t.b, d-1)
			}
			if c == 0 {
				return it.simp(t.c, d-1)
			}
		}
	}
	return -1
}

// ---- deciding ----

func (it *Interp) resolve(ex *Explorer) *Explorer {
	switch ex.mode {
	case exActive:
		return ex
	case exPass:
		return it.resolve(ex.parent)
	}
	p := it.resolve(ex.parent)
	if len(p.trace) < len(p.prefix) {
		d := p.prefix[len(p.trace)]
		switch d.kind {
		case decNoMerge:
			p.trace = append(p.trace, d)
			ex.mode = exPass
			return p
		case decMerged:
			ex.mode = exActive
			if d.memo != nil && d.memo.st == it.st {
				panic(useMemo{ex, d.memo})
			}
			ex.replay = d.paths
			ex.replayI = 0
			ex.prefix = d.paths[0]
			return ex
		}
		panic(unsupported{"internal: replay divergence at merge of " + ex.key.String()})
	}
	if ex.mustPass || it.noMerge || it.noMergeFn[ex.key] >= 2 {
		p.trace = append(p.trace, Dec{kind: decNoMerge})
		ex.mode = exPass
		return p
	}
	ex.mode = exActive
	ex.prefix = nil
	return ex
}

func (it *Interp) branch(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		switch it.simp(x, 6) {
		case 1:
			return true
		case 0:
			return false
		}
		return it.decide([]*Term{x, it.st.Not(x)}, nil) == 0
	}
	panic(unsupported{fmt.Sprintf("branch on %T", v)})
}

// decide picks one of the mutually exclusive, jointly exhaustive conditions.
// free, if set, is a fresh variable that alone determines the choice.
func (it *Interp) decide(conds []*Term, free *Term) int {
	ex := it.resolve(it.ex)
	if pos := len(ex.trace); pos < len(ex.prefix) {
		d := ex.prefix[pos]
		if d.kind != decBranch || int(d.choice) >= len(conds) {
			panic(unsupported{"internal: replay divergence at branch"})
		}
		ex.trace = append(ex.trace, d)
		c := conds[d.choice]
		if d.forced {
			it.addKnown(c, true)
		} else {
			it.pushPC(c)
			ex.conds = append(ex.conds, c)
		}
		return int(d.choice)
	}
	it.nDec++
	if it.profile {
		it.profDec[it.curFn()]++
	}
	first := -1
	for i, c := range conds {
		if it.st.Eval(c, it.model) != 0 {
			first = i
			break
		}
	}
	if first < 0 {
		panic(unsupported{"internal: model satisfies no alternative"})
	}
	nAlt := 0
	for i, c := range conds {
		if i == first || c == it.st.fls || it.simp(c, 6) == 0 {
			continue
		}
		var mdl Model
		if free != nil {
			mdl = make(Model, len(it.model)+1)
			for k, v := range it.model {
				mdl[k] = v
			}
			mdl[free.name] = uint64(i)
		} else {
			res, m := it.feasible(c)
			if res == Unsat {
				continue
			}
			if res == Unknown {
				it.run.reduced("solver answered unknown for a branch")
				continue
			}
			mdl = m
		}
		nAlt++
		pre := make([]Dec, len(ex.trace)+1)
		copy(pre, ex.trace)
		pre[len(ex.trace)] = Dec{kind: decBranch, choice: int32(i)}
		w := workItem{prefix: pre, model: mdl}
		if ex.parent == nil {
			it.run.push(w)
		} else {
			ex.queue = append(ex.queue, w)
		}
	}
	d := Dec{kind: decBranch, choice: int32(first), forced: nAlt == 0}
	ex.trace = append(ex.trace, d)
	if d.forced {
		it.addKnown(conds[first], true)
	} else {
		it.pushPC(conds[first])
		ex.conds = append(ex.conds, conds[first])
	}
	return first
}

// choice introduces a scheduling variable with n values.
func (it *Interp) choice(n int, why string) int {
	if n <= 1 {
		return 0
	}
	v := it.st.Var(8, fmt.Sprintf("c %d", it.nChoice))
	it.nChoice++
	if why == "order" {
		it.ordDep = true
	}
	conds := make([]*Term, n)
	for i := range conds {
		conds[i] = it.st.Eq(v, it.st.Const(8, uint64(i)))
	}
	// keep the variable in range without a query
	if it.model[v.name] >= uint64(n) {
		m := make(Model, len(it.model)+1)
		for k, x := range it.model {
			m[k] = x
		}
		m[v.name] = 0
		it.model = m
	}
	return it.decide(conds, v)
}

// concretize forks over the values lo..hi of t (t must lie in that range under pc).
func (it *Interp) concretize(t *Term, lo, hi int64) int64 {
	if t.isConst() {
		return sext(t.val, t.w)
	}
	if v, ok := it.vals[t]; ok {
		return sext(v.val, v.w)
	}
	if hi-lo > 300 {
		unsup("concretization over too wide a range")
	}
	conds := make([]*Term, 0, hi-lo+2)
	rest := it.st.tru
	for k := lo; k <= hi; k++ {
		c := it.st.Eq(t, it.st.Const(t.w, uint64(k)))
		conds = append(conds, c)
		rest = it.st.And(rest, it.st.Not(c))
	}
	conds = append(conds, rest)
	i := it.decide(conds, nil)
	if i == len(conds)-1 {
		unsup("value outside the concretization range")
	}
	return lo + int64(i)
}

// assume adds a constraint to the path.
func (it *Interp) assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{"assume"})
		}
		return
	case *Term:
		switch it.simp(x, 6) {
		case 1:
			return
		case 0:
			panic(pathEnd{"assume"})
		}
		ex := it.resolve(it.ex)
		if pos := len(ex.trace); pos < len(ex.prefix) {
			d := ex.prefix[pos]
			if d.kind != decBranch {
				panic(unsupported{"internal: replay divergence at assumption"})
			}
			ex.trace = append(ex.trace, d)
			if d.choice != 0 {
				panic(pathEnd{"assume"})
			}
		} else {
			if it.st.Eval(x, it.model) == 0 {
				res, m := it.feasible(x)
				if res == Unknown {
					it.run.reduced("solver answered unknown for an assumption")
				}
				if res != Sat {
					ex.trace = append(ex.trace, Dec{kind: decBranch, choice: 1})
					panic(pathEnd{"assume"})
				}
				it.model = m
			}
			ex.trace = append(ex.trace, Dec{kind: decBranch})
		}
		it.pushPC(x)
		ex.conds = append(ex.conds, x)
		ex.assumed = true
		return
	}
	panic("assume")
}

// fresh reports whether execution has passed the replayed prefix.
func (it *Interp) fresh() bool {
	for e := it.ex; ; e = e.parent {
		if e.mode == exActive {
			return e.replay == nil && len(e.trace) >= len(e.prefix)
		}
	}
}

// sideEffect is called by operations that must not be undone by local merging.
func (it *Interp) sideEffect() {
	var outer *Explorer
	for e := it.ex; e.parent != nil; e = e.parent {
		switch e.mode {
		case exUninit:
			e.mustPass = true
		case exActive:
			outer = e
		}
	}
	if outer != nil {
		panic(mergeAbort{outer, "side effect"})
	}
}

// pooled lists the objects currently sitting in a sync.Pool.
func (it *Interp) pooled() map[*Obj]bool {
	var r map[*Obj]bool
	for c := range it.poolCells {
		s, ok := (*c).(Slice)
		if !ok {
			continue
		}
		for _, v := range s.a[:s.n] {
			if ifc, ok := v.(Iface); ok {
				v = ifc.v
			}
			var o *Obj
			switch x := v.(type) {
			case *MapObj:
				o = x.o
			case Slice:
				o = x.o
			case Ptr:
				o = x.o
			}
			if o != nil {
				if r == nil {
					r = map[*Obj]bool{}
				}
				r[o] = true
			}
		}
	}
	return r
}

// ---- merging calls ----

type outcome struct {
	conds []*Term
	trace []Dec
	res   Value
	dead  bool
	model Model
	eff   *effects
}

func (it *Interp) protect(ex *Explorer, body func() Value) (res Value, pan any) {
	depth, frames := it.depth, len(it.stack)
	defer func() {
		if r := recover(); r != nil {
			if ex.mode != exActive {
				panic(r)
			}
			it.depth = depth
			it.stack = it.stack[:frames]
			pan = r
		}
	}()
	res = body()
	return
}

const maxLocalPaths = 600

func (it *Interp) callMerged(fn *ssa.Function, args, fv []Value) Value {
	return it.mergeExec(mergeKey{fn, -1}, resultType(fn.Signature), maxLocalPaths, func() Value { return it.runFunc(fn, args, fv) })
}

type mergeKey struct {
	fn    *ssa.Function
	block int // of a region, -1 for a call
}

func (k mergeKey) String() string {
	if k.block < 0 {
		return k.fn.String()
	}
	return fmt.Sprintf("%s/%d", k.fn, k.block)
}

// mergeExec explores every path of body and merges results and effects into one state.
func (it *Interp) mergeExec(key mergeKey, rt types.Type, limit int, body func() Value) Value {
	ex := &Explorer{parent: it.ex, key: key}
	parentEx := it.ex
	it.ex = ex
	mark, seqMark := len(it.trail), it.seq
	before := it.pooled()
	pcn, kn, vn, dn := len(it.pc), len(it.knownLog), len(it.valsLog), len(it.domLog)
	nc := it.nChoice
	ncMax := nc
	steps0, stepsMax := it.steps, it.steps
	model0 := it.model
	var outs []outcome
	abort := func(why string) Value {
		it.truncPC(pcn, kn, vn, dn)
		it.rollback(mark)
		it.nChoice = nc
		it.total += int64(it.steps - steps0)
		it.steps = steps0
		it.model = model0
		it.noMergeFn[key]++
		if it.profile {
			it.profAbort[key.String()+": "+why]++
		}
		p := it.resolve(parentEx)
		if len(p.trace) < len(p.prefix) {
			panic(unsupported{"internal: merge aborted in replay: " + key.String() + ": " + why})
		}
		p.trace = append(p.trace, Dec{kind: decNoMerge})
		ex.mode = exPass
		it.ex = ex
		r := body()
		it.ex = parentEx
		return r
	}
	for {
		res, pan := it.protect(ex, body)
		if ex.mode != exActive {
			it.ex = parentEx
			return res
		}
		it.ex = ex
		switch p := pan.(type) {
		case nil:
			eff, why := it.netEffect(mark, seqMark, before)
			if why != "" {
				return abort(why)
			}
			if !it.mergeableResult(res, seqMark) {
				return abort("result refers to new objects")
			}
			outs = append(outs, outcome{append([]*Term(nil), ex.conds...), append([]Dec(nil), ex.trace...), res, false, it.model, eff})
		case pathEnd:
			outs = append(outs, outcome{append([]*Term(nil), ex.conds...), append([]Dec(nil), ex.trace...), nil, true, nil, nil})
		case mergeAbort:
			if p.ex == ex {
				return abort(p.why)
			}
			panic(p)
		case useMemo:
			if p.ex != ex {
				panic(p)
			}
			it.truncPC(pcn, kn, vn, dn)
			it.rollback(mark)
			it.nChoice = p.m.nc
			it.total += int64(it.steps - steps0)
			it.steps = steps0
			it.model = model0
			it.ex = parentEx
			pe := it.resolve(parentEx)
			pe.trace = append(pe.trace, pe.prefix[len(pe.trace)])
			return p.m.res
		case targetPanic:
			return abort("panic")
		case unsupported:
			return abort("unsupported: " + p.msg)
		default:
			panic(pan)
		}
		ex.nPaths++
		// undo and go to the next local path
		it.truncPC(pcn, kn, vn, dn)
		it.rollback(mark)
		ncMax = max(ncMax, it.nChoice)
		it.nChoice = nc
		stepsMax = max(stepsMax, it.steps)
		it.total += int64(it.steps - steps0)
		it.steps = steps0
		ex.trace = nil
		ex.conds = nil
		if ex.replay != nil {
			ex.replayI++
			if ex.replayI >= len(ex.replay) {
				break
			}
			ex.prefix = ex.replay[ex.replayI]
			it.model = model0
			continue
		}
		if ex.nPaths > limit {
			return abort("too many local paths")
		}
		if n := len(ex.queue); n > 0 {
			w := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.prefix = w.prefix
			it.model = w.model
			continue
		}
		break
	}
	it.model = model0
	it.nChoice = ncMax
	it.total -= int64(stepsMax - steps0)
	it.steps = stepsMax
	it.ex = parentEx
	p := it.resolve(parentEx)
	mergedAt := len(p.trace)
	if len(p.trace) < len(p.prefix) {
		p.trace = append(p.trace, p.prefix[len(p.trace)])
	} else {
		d := Dec{kind: decMerged}
		for _, o := range outs {
			d.paths = append(d.paths, o.trace)
		}
		p.trace = append(p.trace, d)
		it.run.mu.Lock()
		it.run.Merged++
		it.run.MergedP += len(outs)
		it.run.mu.Unlock()
	}
	// dead paths: assume that one of the live ones is taken
	anyDead := false
	live := outs[:0:0]
	for _, o := range outs {
		if o.dead {
			anyDead = true
		} else {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		panic(pathEnd{"assume"})
	}
	if anyDead || ex.assumed {
		ct := it.st.fls
		for _, o := range live {
			k := it.st.tru
			for _, x := range o.conds {
				k = it.st.And(k, x)
			}
			ct = it.st.Or(ct, k)
		}
		if len(p.trace) >= len(p.prefix) && it.st.Eval(ct, it.model) == 0 {
			// fresh: use a live path's model
			for _, o := range live {
				if o.model != nil {
					it.model = o.model
					break
				}
			}
		}
		it.assume(it.t2b(ct))
	}
	// group by shape
	var groups [][]int
	for i := range live {
		placed := false
		for g := range groups {
			fits := true
			for _, k := range groups[g] {
				o := &live[k]
				if rt != nil && !it.sameShape(o.res, live[i].res, rt) || !it.sameEffShape(o.eff, live[i].eff) {
					fits = false
					break
				}
				if o.eff.none() && live[i].eff.none() {
					break // results alone: transitive
				}
			}
			if fits {
				groups[g] = append(groups[g], i)
				placed = true
				break
			}
		}
		if !placed {
			groups = append(groups, []int{i})
		}
	}
	if ex.replay == nil && len(live) > 1 {
		st := it.fitStat[key]
		if len(groups) == len(live) {
			st[0]++
		} else {
			st[1] += len(live) - len(groups)
		}
		it.fitStat[key] = st
		if st[0] >= 24 && st[0] > 4*st[1] {
			it.noMergeFn[key] = 16
			if it.profile {
				it.profAbort[key.String()+": nothing merges"]++
			}
		}
	}
	gsel := 0
	if len(groups) > 1 {
		conds := make([]*Term, len(groups))
		member := make([]int, len(live))
		for g := range groups {
			for _, i := range groups[g] {
				member[i] = g
			}
		}
		for i := range live {
			live[i].model = nil
		}
		for g := range groups {
			for i := range live {
				if member[i] == g {
					live[i].dead = true // reuse flag: in group
				} else {
					live[i].dead = false
				}
			}
			conds[g] = it.b2t(it.mergeTree(live, 0, func(o *outcome) Value { return o.dead }, types.Typ[types.Bool]))
		}
		gsel = it.decide(conds, nil)
	}
	sel := make([]outcome, 0, len(groups[gsel]))
	for _, i := range groups[gsel] {
		sel = append(sel, live[i])
	}
	it.applyEffects(sel)
	noEff := true
	for i := range outs {
		if !outs[i].eff.none() {
			noEff = false
		}
	}
	var out Value
	if rt != nil {
		out = it.mergeTree(sel, 0, func(o *outcome) Value { return o.res }, rt)
	}
	if noEff && len(groups) == 1 && !anyDead && !ex.assumed && scalarRes(out) {
		if d := &p.trace[mergedAt]; d.memo == nil || d.memo.st != it.st {
			d.memo = &mergeMemo{st: it.st, res: out, nc: ncMax}
		}
	}
	return out
}

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// mergeTree rebuilds the local decision tree as nested if-then-else.
func (it *Interp) mergeTree(outs []outcome, d int, f func(*outcome) Value, t types.Type) Value {
	if len(outs) == 1 {
		return f(&outs[0])
	}
	// group by the condition at depth d, in order of appearance
	var order []*Term
	groups := map[*Term][]outcome{}
	for _, o := range outs {
		var c *Term
		if d < len(o.conds) {
			c = o.conds[d]
		}
		if _, ok := groups[c]; !ok {
			order = append(order, c)
		}
		groups[c] = append(groups[c], o)
	}
	if len(order) == 1 {
		if order[0] == nil {
			// identical condition sequences: cannot happen
			return f(&outs[0])
		}
		return it.mergeTree(outs, d+1, f, t)
	}
	var r Value
	for i := len(order) - 1; i >= 0; i-- {
		v := it.mergeTree(groups[order[i]], d+1, f, t)
		if r == nil {
			r = v
			continue
		}
		c := order[i]
		if c == nil {
			panic(unsupported{"internal: merge tree"})
		}
		m, ok := it.iteAny(c, v, r, t)
		if !ok {
			panic(unsupported{fmt.Sprintf("internal: unmergeable result %T/%T", v, r)})
		}
		r = m
	}
	return r
}

func (it *Interp) sameShape(a, b Value, t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Tuple:
		x, y := a.(Tuple), b.(Tuple)
		for i := range x {
			if !it.sameShape(x[i], y[i], u.At(i).Type()) {
				return false
			}
		}
		return true
	case *types.Struct:
		x, y := a.(StructV), b.(StructV)
		for i := range x {
			if !it.sameShape(x[i], y[i], u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Basic:
		return true
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return it.sameType(x.t, y.t) && it.sameShape(x.v, y.v, x.t)
	}
	return sameLeaf(a, b)
}

// mergeableResult: only scalars, strings and references to objects that existed before the call.
func (it *Interp) mergeableResult(v Value, seqMark int64) bool {
	switch x := v.(type) {
	case nil, bool, int64, *Term, string, *SymStr:
		return true
	case Ptr:
		return x.c == nil || x.o != nil && x.o.seq <= seqMark
	case Slice:
		return x.o == nil || x.o.seq <= seqMark
	case *MapObj:
		return x == nil || x.o.seq <= seqMark
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil || it.mergeableResult(x.v, seqMark)
	case Tuple:
		for _, e := range x {
			if !it.mergeableResult(e, seqMark) {
				return false
			}
		}
		return true
	case StructV:
		for _, e := range x {
			if !it.mergeableResult(e, seqMark) {
				return false
			}
		}
		return true
	}
	return false
}

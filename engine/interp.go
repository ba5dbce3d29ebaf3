package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Interp struct {
	poolCells map[*Value]bool
	prog      *ssa.Program
	st        *Store
	sol       *Solver
	run       *Run

	globals   map[*ssa.Global]*Ptr
	inited    map[*ssa.Package]bool
	infos     map[*ssa.Function]*fnInfo
	noMergeFn map[mergeKey]int
	fitStat   map[mergeKey][2]int

	// path state
	ex       *Explorer
	trail    []trailEnt
	noTrail  bool
	seq      int64
	pc       []*Term
	known    map[*Term]bool
	knownLog []*Term
	dom      map[*Term]uint64
	domLog   []domUndo
	storeT   types.Type // of the value being stored
	mregs    map[*ssa.BasicBlock]*mregion
	noRegion bool
	qcache   map[string]qres
	nWit     int
	nCache   int
	vals     map[*Term]*Term
	valsLog  []*Term
	model    Model
	nChoice  int
	nDec     int
	steps    int
	maxSteps int
	tick     int
	total    int64
	depth    int
	stack    []*ssa.Function
	inputs   []input
	obs      []obsEnt
	ordDep   bool
	mapMode  int
	ordBit   int // -1 undecided
	clock    Value
	rtypes   map[string]*nativeObj
	noMerge  bool
	params   map[string]int64
	nextEnt  int64
	par      *parState
	parLog   []string
	recFr    *frame

	profile   bool
	profDec   map[string]int
	profAbort map[string]int
	funcs     map[*ssa.Function]bool
	msets     map[string]*ssa.Function
	fnByName  map[string]*ssa.Function
}

type input struct {
	kind string
	name string
	v    Value
}
type obsEnt struct {
	name string
	v    Value
	t    types.Type
}

func NewInterp(prog *ssa.Program, run *Run) *Interp {
	st := NewStore()
	return &Interp{rtypes: map[string]*nativeObj{}, prog: prog, st: st, sol: NewSolver(st), run: run,
		globals: map[*ssa.Global]*Ptr{}, inited: map[*ssa.Package]bool{}, infos: map[*ssa.Function]*fnInfo{},
		noMergeFn: map[mergeKey]int{}, fitStat: map[mergeKey][2]int{}, known: map[*Term]bool{}, vals: map[*Term]*Term{}, dom: map[*Term]uint64{}, qcache: map[string]qres{}, maxSteps: 4000000,
		profDec: map[string]int{}, profAbort: map[string]int{}, funcs: map[*ssa.Function]bool{}, msets: map[string]*ssa.Function{}}
}

// ---- per-function compilation ----

type opnd struct {
	idx int // >=0 register
	val Value
	g   *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	dst int
	op  []opnd
}

type fnInfo struct {
	fn     *ssa.Function
	n      int
	blocks [][]cinstr
	nparam int
	merge  bool
	defers bool
	intr   intrinsic
	site   map[ssa.Instruction]string
	slot   map[ssa.Value]int

	ipd     []int
	regions map[int]*region
}

func (it *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := it.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn}
	it.infos[fn] = fi
	if r := it.override(fn); r != nil {
		// redirected to a model function
		ri := *it.info(r)
		*fi = ri
		return fi
	}
	fi.intr = lookupIntrinsic(fn)
	if fn.Blocks == nil || fi.intr != nil {
		return fi
	}
	slot := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		slot[p] = n
		n++
	}
	fi.nparam = n
	for _, f := range fn.FreeVars {
		slot[f] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				slot[v] = n
				n++
			}
		}
	}
	fi.n = n
	fi.slot = slot
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	calls, ifs := false, false
	for bi, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slot[v]
			}
			for _, o := range ins.Operands(nil) {
				if *o == nil {
					ci.op = append(ci.op, opnd{idx: -1})
					continue
				}
				ci.op = append(ci.op, it.mkOpnd(*o, slot))
			}
			switch x := ins.(type) {
			case *ssa.If:
				ifs = true
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					calls = true
				}
			case *ssa.Lookup, *ssa.IndexAddr, *ssa.Index:
				calls = true
			}
			fi.blocks[bi] = append(fi.blocks[bi], ci)
		}
	}
	fi.defers = fn.Recover != nil || hasDefer(fn)
	fi.merge = (ifs || calls) && mergeCandidate(fn)
	return fi
}

func mergeCandidate(fn *ssa.Function) bool {
	if fn.Pkg != nil && strings.HasPrefix(fn.Name(), "H_") {
		return false
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		switch u := under(fn.Signature.Results().At(i).Type()).(type) {
		case *types.Basic:
			if u.Info()&(types.IsFloat|types.IsComplex) != 0 {
				return false
			}
		case *types.Pointer, *types.Interface, *types.Struct, *types.Slice, *types.Map:
		default:
			return false
		}
	}
	return true
}

func (it *Interp) mkOpnd(v ssa.Value, slot map[ssa.Value]int) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{idx: -1, val: it.constVal(x)}
	case *ssa.Global:
		return opnd{idx: -1, g: x}
	case *ssa.Function:
		return opnd{idx: -1, val: &Closure{fn: x}}
	case *ssa.Builtin:
		return opnd{idx: -1, val: x}
	}
	i, ok := slot[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %v", v.Name(), v.Parent()))
	}
	return opnd{idx: i}
}

func (it *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := under(t).(*types.TypeParam); ok {
			return nil
		}
		return it.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
		case u.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return wrapInt(i, w, s)
			}
			if i, ok := constant.Uint64Val(v); ok {
				return int64(i)
			}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		case u.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		}
	}
	panic(unsupported{"const " + c.String()})
}

// ---- frames ----

type frame struct {
	fi     *fnInfo
	env    []Value
	defers []deferred
	panicV *targetPanic
	recov  bool
	caller *frame
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Value
	args  []Value
	isBlt *ssa.Builtin
}

func (it *Interp) get(fr *frame, o *opnd) Value {
	if o.idx >= 0 {
		return fr.env[o.idx]
	}
	if o.g != nil {
		return *it.global(o.g)
	}
	return o.val
}

func (it *Interp) newObj(site string) *Obj {
	if it.noTrail {
		return &Obj{seq: 0, site: site}
	}
	it.seq++
	return &Obj{seq: it.seq, site: site}
}

func (it *Interp) alloc(t types.Type, site string) Ptr {
	v := it.zero(t)
	c := new(Value)
	*c = v
	return Ptr{c: c, o: it.newObj(site)}
}

func (it *Interp) global(g *ssa.Global) *Ptr {
	if p, ok := it.globals[g]; ok {
		return p
	}
	it.initPkg(g.Pkg)
	if p, ok := it.globals[g]; ok {
		return p
	}
	return it.mkGlobal(g)
}

func (it *Interp) mkGlobal(g *ssa.Global) *Ptr {
	c := new(Value)
	*c = it.zero(g.Type().(*types.Pointer).Elem())
	p := &Ptr{c: c, o: &Obj{seq: 0, site: "global " + g.String()}}
	it.globals[g] = p
	return p
}

func (it *Interp) initPkg(pkg *ssa.Package) {
	if it.inited[pkg] {
		return
	}
	it.inited[pkg] = true
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := it.globals[g]; !ok {
				it.mkGlobal(g)
			}
		}
	}
	init := pkg.Func("init")
	if init == nil || skipInit[pkg.Pkg.Path()] {
		return
	}
	saveTrail, saveEx, saveSteps := it.noTrail, it.ex, it.steps
	savePar := it.par
	it.par = nil
	it.noTrail = true
	it.ex = &Explorer{mode: exActive}
	frames, depth := len(it.stack), it.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				it.stack = it.stack[:frames]
				it.depth = depth
				switch x := r.(type) {
				case unsupported:
					if isTarget(pkg.Pkg.Path()) {
						it.run.reduced("init of " + pkg.Pkg.Path() + ": " + x.msg)
					}
				case targetPanic:
					it.run.reduced("init of " + pkg.Pkg.Path() + ": panic " + x.msg)
				default:
					panic(r)
				}
			}
		}()
		it.runFunc(init, nil, nil)
	}()
	it.noTrail, it.ex, it.steps = saveTrail, saveEx, saveSteps
	it.par = savePar
}

func isTarget(path string) bool {
	return strings.HasPrefix(path, "github.com/oarkflow/permission") || strings.HasPrefix(path, "verif/")
}

func (it *Interp) curFn() string {
	if n := len(it.stack); n > 0 {
		return it.stack[n-1].String()
	}
	return ""
}

func (it *Interp) rtPanic(msg string) targetPanic {
	return targetPanic{v: Iface{t: runtimeErrT, v: msg}, msg: msg}
}

// runtimeErrT is the dynamic type given to run-time error panics.
var runtimeErrT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtime.Error", nil), types.Typ[types.String], nil)

// ---- calls ----

func (it *Interp) call(fnv Value, args []Value) Value {
	switch f := fnv.(type) {
	case *Closure:
		if f == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference (nil func)"))
		}
		return it.callFn(f.fn, args, f.fv)
	case *Native:
		return f.f(it, args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", fnv)})
}

func (it *Interp) callFn(fn *ssa.Function, args, fv []Value) Value {
	if fn.Synthetic == "package initializer" {
		return nil // packages are initialised on first use
	}
	fi := it.info(fn)
	if fi.intr != nil {
		return fi.intr(it, fn, args)
	}
	if fi.blocks == nil {
		panic(unsupported{"no body: " + fn.String()})
	}
	if fi.merge && !it.noMerge && !it.noTrail && it.par == nil {
		return it.callMerged(fn, args, fv)
	}
	return it.runFunc(fn, args, fv)
}

func (it *Interp) runFunc(fn *ssa.Function, args, fv []Value) Value {
	fi := it.info(fn)
	it.depth++
	if it.depth > 900 {
		panic(hang{"call depth exceeds 900 in " + fn.String()})
	}
	it.stack = append(it.stack, fn)
	if !it.funcs[fn] {
		it.funcs[fn] = true
	}
	fr := &frame{fi: fi, env: make([]Value, fi.n)}
	copy(fr.env, args)
	copy(fr.env[fi.nparam:], fv)
	var res Value
	if fi.defers {
		res = it.runWithDefers(fr)
	} else {
		res = it.exec(fr, 0)
	}
	it.stack = it.stack[:len(it.stack)-1]
	it.depth--
	return res
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				return true
			}
		}
	}
	return false
}

func (it *Interp) runWithDefers(fr *frame) (res Value) {
	frames, depth, ex := len(it.stack), it.depth, it.ex
	var pan *targetPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					pan = &tp
					it.stack = it.stack[:frames]
					it.depth = depth
					it.ex = ex
					return
				}
				panic(r)
			}
		}()
		res = it.exec(fr, 0)
	}()
	if pan == nil {
		return res
	}
	fr.panicV = pan
	it.runDefers(fr)
	if fr.panicV != nil {
		panic(*fr.panicV)
	}
	// recovered
	if fr.fi.fn.Recover != nil {
		return it.exec(fr, fr.fi.fn.Recover.Index)
	}
	rt := resultType(fr.fi.fn.Signature)
	if rt == nil {
		return nil
	}
	return it.zero(rt)
}

func (it *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		frames, depth, ex := len(it.stack), it.depth, it.ex
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.panicV = &tp
						it.stack = it.stack[:frames]
						it.depth = depth
						it.ex = ex
						return
					}
					panic(r)
				}
			}()
			if d.isBlt != nil {
				it.builtin(fr, d.isBlt, d.args, d.call)
				return
			}
			save := it.recoverFrame()
			it.setRecoverFrame(fr)
			it.call(d.fn, d.args)
			it.setRecoverFrame(save)
		}()
	}
}

func (it *Interp) recoverFrame() *frame     { return it.recFr }
func (it *Interp) setRecoverFrame(f *frame) { it.recFr = f }

// prepareCall evaluates callee and arguments.
func (it *Interp) prepareCall(fr *frame, cc *ssa.CallCommon, op []opnd) (Value, []Value, *ssa.Builtin) {
	if cc.IsInvoke() {
		recv := it.get(fr, &op[0])
		ifc, ok := recv.(Iface)
		if !ok || ifc.t == nil {
			if !ok && recv != nil {
				unsup("invoke on %T", recv)
			}
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		args := make([]Value, 0, len(op))
		if nm, ok := ifc.v.(*nativeObj); ok {
			f := nm.method(cc.Method.Name())
			for i := 1; i < len(op); i++ {
				args = append(args, cp(it.get(fr, &op[i])))
			}
			return f, args, nil
		}
		if ifc.t == runtimeErrT && cc.Method.Name() == "Error" {
			s := ifc.v
			return &Native{"Error", func(*Interp, []Value) Value { return s }}, nil, nil
		}
		fn := it.method(ifc.t, cc.Method)
		args = append(args, cp(ifc.v))
		for i := 1; i < len(op); i++ {
			args = append(args, cp(it.get(fr, &op[i])))
		}
		return &Closure{fn: fn}, args, nil
	}
	args := make([]Value, 0, len(op))
	for i := 1; i < len(op); i++ {
		args = append(args, cp(it.get(fr, &op[i])))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, args, b
	}
	return it.get(fr, &op[0]), args, nil
}

func (it *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	key := t.String() + "|" + m.Id()
	if fn, ok := it.msets[key]; ok {
		return fn
	}
	ssaMu.Lock()
	sel := it.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var fn *ssa.Function
	if sel != nil {
		fn = it.prog.MethodValue(sel)
	}
	ssaMu.Unlock()
	if fn == nil {
		unsup("no method %s on %s", m.Name(), t)
	}
	it.msets[key] = fn
	return fn
}

// lookupMethod finds a method by name, nil if absent.
func (it *Interp) lookupMethod(t types.Type, name string) *ssa.Function {
	key := t.String() + "||" + name
	if fn, ok := it.msets[key]; ok {
		return fn
	}
	ssaMu.Lock()
	sel := it.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	var fn *ssa.Function
	if sel != nil {
		fn = it.prog.MethodValue(sel)
	}
	ssaMu.Unlock()
	it.msets[key] = fn
	return fn
}

// ---- memory ----

func (it *Interp) checkUse(o *Obj) {}

func (it *Interp) load(p Value) Value {
	switch x := p.(type) {
	case Ptr:
		if x.c == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		if it.par != nil {
			it.par.access(it, x.c, x.o, false)
		}
		return cp(*x.c)
	case symPtr:
		return it.symLoad(x)
	case strData:
		return it.t2i(it.strByte(x.s, 0), false)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (it *Interp) store(p Value, v Value) {
	switch x := p.(type) {
	case Ptr:
		if x.c == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		if it.par != nil {
			it.par.access(it, x.c, x.o, true)
		}
		it.storeCell(x.c, x.o, v)
		return
	case symPtr:
		it.symStore(x, v)
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

func (it *Interp) storeCell(c *Value, o *Obj, v Value) {
	switch y := v.(type) {
	case StructV:
		if dst, ok := (*c).(StructV); ok && len(dst) == len(y) {
			var st *types.Struct
			if it.storeT != nil {
				st, _ = under(it.storeT).(*types.Struct)
			}
			t := it.storeT
			for i := range y {
				it.storeT = nil
				if st != nil {
					it.storeT = st.Field(i).Type()
				}
				it.storeCell(&dst[i], o, y[i])
			}
			it.storeT = t
			return
		}
		it.setCell(c, o, cp(v))
		return
	case ArrayV:
		if dst, ok := (*c).(ArrayV); ok && len(dst) == len(y) {
			t := it.storeT
			it.storeT = nil
			if t != nil {
				if at, ok := under(t).(*types.Array); ok {
					it.storeT = at.Elem()
				}
			}
			for i := range y {
				it.storeCell(&dst[i], o, y[i])
			}
			it.storeT = t
			return
		}
		it.setCell(c, o, cp(v))
		return
	}
	it.setCell(c, o, v)
}

// symPtr is the address of an element at a symbolic index.
type symPtr struct {
	a []Value
	i *Term
	o *Obj
	t types.Type
}

func (it *Interp) symLoad(p symPtr) Value {
	r := cp(p.a[0])
	for k := 1; k < len(p.a); k++ {
		v, ok := it.iteVT(it.st.Eq(p.i, it.st.Const(64, uint64(k))), p.a[k], r, p.t)
		if !ok {
			i := it.concretize(p.i, 0, int64(len(p.a)-1))
			return cp(p.a[i])
		}
		r = v
	}
	return r
}

func (it *Interp) symStore(p symPtr, v Value) {
	i := it.concretize(p.i, 0, int64(len(p.a)-1))
	it.storeCell(&p.a[i], p.o, v)
}

// ---- execution ----

func (it *Interp) exec(fr *frame, block int) Value { return it.execFrom(fr, block, -1, -1) }

// execFrom runs from a block, entered from prev (-2: its phis are already set), to the
// return of the function, or up to the entry of block stop, whose phi values are returned.
func (it *Interp) execFrom(fr *frame, block, prev, stop int) Value {
	fi := fr.fi
	for {
		if block == stop {
			return it.phiTuple(fr, block, prev)
		}
		instrs := fi.blocks[block]
		// phis first, in parallel
		k := 0
		if prev == -2 {
			for k < len(instrs) {
				if _, ok := instrs[k].ins.(*ssa.Phi); !ok {
					break
				}
				k++
			}
		} else if len(instrs) > 0 {
			if _, ok := instrs[0].ins.(*ssa.Phi); ok {
				edge := -1
				for i, p := range fi.fn.Blocks[block].Preds {
					if p.Index == prev {
						edge = i
						break
					}
				}
				var tmp [8]Value
				vals := tmp[:0]
				for k < len(instrs) {
					if _, ok := instrs[k].ins.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, it.get(fr, &instrs[k].op[edge]))
					k++
				}
				for j := 0; j < k; j++ {
					fr.env[instrs[j].dst] = vals[j]
				}
			}
		}
		next := -1
		for ; k < len(instrs); k++ {
			ci := &instrs[k]
			it.steps++
			switch x := ci.ins.(type) {
			case *ssa.If:
				b := fi.fn.Blocks[block]
				c := it.get(fr, &ci.op[0])
				if t, ok := c.(*Term); ok {
					nb, pv, ok := it.regionMerge(fr, b, t)
					if !ok {
						nb, pv = it.branchBlock(fr, b, t)
					}
					next = nb
					block = pv
				} else if c.(bool) {
					next = b.Succs[0].Index
				} else {
					next = b.Succs[1].Index
				}
			case *ssa.Jump:
				next = fi.fn.Blocks[block].Succs[0].Index
			case *ssa.Return:
				switch len(ci.op) {
				case 0:
					return nil
				case 1:
					return cp(it.get(fr, &ci.op[0]))
				}
				t := make(Tuple, len(ci.op))
				for i := range ci.op {
					t[i] = cp(it.get(fr, &ci.op[i]))
				}
				return t
			case *ssa.RunDefers:
				it.runDefers(fr)
				if fr.panicV != nil {
					p := *fr.panicV
					fr.panicV = nil
					panic(p)
				}
			case *ssa.Panic:
				v := it.get(fr, &ci.op[0])
				panic(targetPanic{v: v, msg: it.panicMsg(v)})
			default:
				it.step(fr, ci)
				_ = x
			}
		}
		it.tick++
		if it.tick&0xfff == 0 {
			if !it.run.deadline.IsZero() && time.Now().After(it.run.deadline) {
				panic(unsupported{"time budget exhausted inside a path"})
			}
		}
		if it.steps > it.maxSteps {
			panic(hang{fmt.Sprintf("more than %d instructions on one path (in %s)", it.maxSteps, it.curFn())})
		}
		prev = block
		block = next
	}
}

// branchBlock decides an If on a symbolic condition. Chains of pure blocks that share a
// target (short-circuit conditions) are evaluated as one condition.
// It returns the successor to take and the block control comes from.
func (it *Interp) branchBlock(fr *frame, b *ssa.BasicBlock, c *Term) (int, int) {
	switch it.simp(c, 6) {
	case 1:
		return b.Succs[0].Index, b.Index
	case 0:
		return b.Succs[1].Index, b.Index
	}
	if it.par == nil {
		if j, ok := it.ifConvert(fr, b, c); ok {
			return j.Index, -2
		}
		// try to extend: cond (c) ? T : F
		cond := c
		cur := b
		T, F := b.Succs[0], b.Succs[1]
		for n := 0; n < 12; n++ {
			ext := false
			// F is a pure block testing c2 with T as one target: c || c2
			if t2, other, ok := it.pureTest(fr, F, cur, T); ok {
				// t2: condition under which F goes to T
				cond = it.st.Or(cond, t2)
				cur, F = F, other
				ext = true
			} else if t2, other, ok := it.pureTest(fr, T, cur, F); ok {
				// T tests; goes to F under t2 : stay in T' when c && !t2
				cond = it.st.And(cond, it.st.Not(t2))
				cur, T = T, other
				ext = true
			}
			if !ext {
				break
			}
		}
		if cur != b {
			if it.branch(it.t2b(cond)) {
				return T.Index, it.edgeFrom(T, cur, b)
			}
			return F.Index, it.edgeFrom(F, cur, b)
		}
	}
	if it.branch(c) {
		return b.Succs[0].Index, b.Index
	}
	return b.Succs[1].Index, b.Index
}

func (it *Interp) edgeFrom(t, cur, b *ssa.BasicBlock) int {
	for _, p := range t.Preds {
		if p == cur {
			return cur.Index
		}
	}
	return b.Index
}

// pureTest evaluates block x speculatively if it only computes a condition: single
// predecessor, no effects, no traps, ending in an If with target among its successors.
// The phis of target must not distinguish x from pred. Returns the condition of going to target.
func (it *Interp) pureTest(fr *frame, x, pred, target *ssa.BasicBlock) (*Term, *ssa.BasicBlock, bool) {
	if x == target || len(x.Preds) != 1 || len(x.Succs) != 2 || x.Preds[0] != pred {
		return nil, nil, false
	}
	var other *ssa.BasicBlock
	neg := false
	switch {
	case x.Succs[0] == target && x.Succs[1] != target:
		other = x.Succs[1]
	case x.Succs[1] == target && x.Succs[0] != target:
		other, neg = x.Succs[0], true
	default:
		return nil, nil, false
	}
	// phis in target: values along pred and x must agree
	for _, ins := range target.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var a, b ssa.Value
		for i, p := range target.Preds {
			if p == pred {
				a = phi.Edges[i]
			}
			if p == x {
				b = phi.Edges[i]
			}
		}
		if a != b {
			ca, ok1 := a.(*ssa.Const)
			cb, ok2 := b.(*ssa.Const)
			if !(ok1 && ok2 && ca.Value != nil && cb.Value != nil && constant.Compare(ca.Value, token.EQL, cb.Value)) {
				return nil, nil, false
			}
		}
	}
	instrs := fr.fi.blocks[x.Index]
	if len(instrs) > 14 {
		return nil, nil, false
	}
	for i := range instrs[:len(instrs)-1] {
		if !it.pureStep(fr, &instrs[i]) {
			return nil, nil, false
		}
	}
	ci := &instrs[len(instrs)-1]
	if _, ok := ci.ins.(*ssa.If); !ok {
		return nil, nil, false
	}
	t := it.b2t(it.get(fr, &ci.op[0]))
	if neg {
		t = it.st.Not(t)
	}
	return t, other, true
}

// pureStep executes one instruction if it has no effect and cannot trap or fork.
func (it *Interp) pureStep(fr *frame, ci *cinstr) bool {
	switch x := ci.ins.(type) {
	case *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
		if _, ok := x.(*ssa.FieldAddr); ok {
			p, ok := it.get(fr, &ci.op[0]).(Ptr)
			if !ok || p.c == nil || p.o != nil && p.o.poison != "" {
				return false
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := it.get(fr, &ci.op[0]).(Ptr)
			if !ok || p.c == nil || p.o != nil && p.o.poison != "" {
				return false
			}
		case token.NOT, token.SUB, token.XOR:
		default:
			return false
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			a, b := it.get(fr, &ci.op[0]), it.get(fr, &ci.op[1])
			switch a.(type) {
			case bool, int64, *Term, string, *SymStr, Ptr:
			case Iface:
				y, ok := b.(Iface)
				if !ok {
					return false
				}
				xx := a.(Iface)
				if xx.t != nil && y.t != nil && !types.Comparable(xx.t) {
					return false
				}
				switch xx.v.(type) {
				case Slice, *Closure, *MapObj, StructV, ArrayV:
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" && b.Name() != "min" && b.Name() != "max" {
			return false
		}
		if v, ok := it.get(fr, &ci.op[1]).(*MapObj); ok && v != nil {
			return false
		}
	case *ssa.DebugRef:
	default:
		return false
	}
	it.step(fr, ci)
	return true
}

func (it *Interp) panicMsg(v Value) string {
	if ifc, ok := v.(Iface); ok {
		if ifc.t != nil {
			if s, ok := ifc.v.(string); ok {
				return s
			}
			return "panic value of type " + ifc.t.String()
		}
		return "nil"
	}
	return show(v)
}

func (it *Interp) site(ci *cinstr, fr *frame) string {
	return fr.fi.fn.String() + "/" + ci.ins.(ssa.Value).Name()
}

func (it *Interp) step(fr *frame, ci *cinstr) {
	switch x := ci.ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[ci.dst] = it.alloc(x.Type().(*types.Pointer).Elem(), x.Comment)
	case *ssa.UnOp:
		fr.env[ci.dst] = it.unop(x, it.get(fr, &ci.op[0]))
	case *ssa.BinOp:
		fr.env[ci.dst] = it.binop(x.Op, x.X.Type(), x.Y.Type(), it.get(fr, &ci.op[0]), it.get(fr, &ci.op[1]))
	case *ssa.Call:
		fn, args, blt := it.prepareCall(fr, &x.Call, ci.op)
		if blt != nil {
			fr.env[ci.dst] = it.builtin(fr, blt, args, &x.Call)
			return
		}
		fr.env[ci.dst] = it.call(fn, args)
	case *ssa.Defer:
		fn, args, blt := it.prepareCall(fr, &x.Call, ci.op)
		fr.defers = append(fr.defers, deferred{call: &x.Call, fn: fn, args: args, isBlt: blt})
	case *ssa.Go:
		unsup("go statement in %s", fr.fi.fn)
	case *ssa.Store:
		it.storeT = x.Val.Type()
		it.store(it.get(fr, &ci.op[0]), it.get(fr, &ci.op[1]))
		it.storeT = nil
	case *ssa.FieldAddr:
		p := it.get(fr, &ci.op[0])
		pp, ok := p.(Ptr)
		if !ok {
			unsup("field address through %T", p)
		}
		if pp.c == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		it.checkUse(pp.o)
		s, ok := (*pp.c).(StructV)
		if !ok {
			unsup("field address of %T in %s", *pp.c, fr.fi.fn)
		}
		fr.env[ci.dst] = Ptr{c: &s[x.Field], o: pp.o}
	case *ssa.Field:
		s, ok := it.get(fr, &ci.op[0]).(StructV)
		if !ok {
			unsup("field of %T", it.get(fr, &ci.op[0]))
		}
		fr.env[ci.dst] = cp(s[x.Field])
	case *ssa.IndexAddr:
		fr.env[ci.dst] = it.indexAddr(x, it.get(fr, &ci.op[0]), it.get(fr, &ci.op[1]))
	case *ssa.Index:
		a, i := it.get(fr, &ci.op[0]), it.normIdx(it.get(fr, &ci.op[1]), x.Index.Type())
		switch s := a.(type) {
		case string, *SymStr:
			fr.env[ci.dst] = it.strIndex(s, i)
		case ArrayV:
			if k, ok := i.(int64); ok {
				if k < 0 || k >= int64(len(s)) {
					panic(it.rtPanic("runtime error: index out of range"))
				}
				fr.env[ci.dst] = cp(s[k])
			} else {
				it.bounds(i.(*Term), len(s))
				fr.env[ci.dst] = it.symLoad(symPtr{a: s, i: i.(*Term), t: x.Type()})
			}
		default:
			unsup("index of %T", a)
		}
	case *ssa.Slice:
		fr.env[ci.dst] = it.slice(x, fr, ci)
	case *ssa.MakeSlice:
		n := it.concInt(it.get(fr, &ci.op[0]), 0, 64)
		c := it.concInt(it.get(fr, &ci.op[1]), 0, 64)
		if n < 0 || n > c {
			panic(it.rtPanic("runtime error: makeslice: len out of range"))
		}
		if c > 1<<16 {
			unsup("make slice of %d", c)
		}
		a := make([]Value, c)
		et := under(x.Type()).(*types.Slice).Elem()
		for i := range a {
			a[i] = it.zero(et)
		}
		fr.env[ci.dst] = Slice{a: a, n: int(n), o: it.newObj("make " + x.Type().String())}
	case *ssa.MakeMap:
		fr.env[ci.dst] = &MapObj{o: it.newObj("map " + x.Type().String()), vt: under(x.Type()).(*types.Map).Elem()}
	case *ssa.MapUpdate:
		m, _ := it.get(fr, &ci.op[0]).(*MapObj)
		it.mapSet(m, it.get(fr, &ci.op[1]), cp(it.get(fr, &ci.op[2])))
	case *ssa.Lookup:
		a := it.get(fr, &ci.op[0])
		switch m := a.(type) {
		case string, *SymStr:
			fr.env[ci.dst] = it.strIndex(m, it.normIdx(it.get(fr, &ci.op[1]), x.Index.Type()))
		case *MapObj:
			vt := under(x.X.Type()).(*types.Map).Elem()
			v, ok := it.mapGet(m, it.get(fr, &ci.op[1]), vt)
			if x.CommaOk {
				fr.env[ci.dst] = Tuple{v, ok}
			} else {
				fr.env[ci.dst] = v
			}
		default:
			unsup("lookup in %T", a)
		}
	case *ssa.Range:
		a := it.get(fr, &ci.op[0])
		switch m := a.(type) {
		case *MapObj:
			fr.env[ci.dst] = it.newMapIter(m)
		case string, *SymStr:
			fr.env[ci.dst] = &strIter{s: m}
		default:
			unsup("range over %T", a)
		}
	case *ssa.Next:
		switch i := it.get(fr, &ci.op[0]).(type) {
		case *mapIter:
			fr.env[ci.dst] = it.mapNext(i, x)
		case *strIter:
			fr.env[ci.dst] = it.strNext(i)
		default:
			unsup("next of %T", i)
		}
	case *ssa.Extract:
		fr.env[ci.dst] = it.get(fr, &ci.op[0]).(Tuple)[x.Index]
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: x.X.Type(), v: cp(it.get(fr, &ci.op[0]))}
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = it.get(fr, &ci.op[0])
	case *ssa.ChangeType:
		fr.env[ci.dst] = it.get(fr, &ci.op[0])
	case *ssa.Convert:
		fr.env[ci.dst] = it.convert(x.X.Type(), x.Type(), it.get(fr, &ci.op[0]))
	case *ssa.MultiConvert:
		fr.env[ci.dst] = it.convert(x.X.Type(), x.Type(), it.get(fr, &ci.op[0]))
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.TypeAssert:
		fr.env[ci.dst] = it.typeAssert(x, it.get(fr, &ci.op[0]))
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.op); i++ {
			c.fv = append(c.fv, it.get(fr, &ci.op[i]))
		}
		fr.env[ci.dst] = c
	default:
		unsup("instruction %T in %s", ci.ins, fr.fi.fn)
	}
}

// normIdx brings an index operand to 64-bit.
func (it *Interp) normIdx(v Value, t types.Type) Value {
	if tm, ok := v.(*Term); ok && tm.w != 64 {
		_, signed, _ := intInfo(t)
		return it.t2i(it.st.Resize(tm, 64, signed), true)
	}
	return v
}

func (it *Interp) bounds(i *Term, n int) {
	if !it.branch(it.t2b(it.st.Cmp(OUlt, i, it.st.Const(64, uint64(n))))) {
		panic(it.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n)))
	}
}

func (it *Interp) concInt(v Value, lo, hi int64) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return it.concretize(x, lo, hi)
	case nil:
		return 0
	}
	panic(unsupported{fmt.Sprintf("concInt %T", v)})
}

func (it *Interp) indexAddr(x *ssa.IndexAddr, a, i Value) Value {
	i = it.normIdx(i, x.Index.Type())
	var cells []Value
	var o *Obj
	var et types.Type
	switch s := a.(type) {
	case Slice:
		it.checkUse(s.o)
		cells, o = s.a[:s.n], s.o
		et = under(x.X.Type()).(*types.Slice).Elem()
	case Ptr:
		if s.c == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		it.checkUse(s.o)
		arr, ok := (*s.c).(ArrayV)
		if !ok {
			unsup("index address into %T", *s.c)
		}
		cells, o = arr, s.o
		et = under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Elem()
	default:
		unsup("index address of %T", a)
	}
	if k, ok := i.(int64); ok {
		if k < 0 || k >= int64(len(cells)) {
			panic(it.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, len(cells))))
		}
		return Ptr{c: &cells[k], o: o}
	}
	t := i.(*Term)
	it.bounds(t, len(cells))
	if _, isStruct := under(et).(*types.Struct); isStruct {
		k := it.concretize(t, 0, int64(len(cells)-1))
		return Ptr{c: &cells[k], o: o}
	}
	if it.par != nil {
		k := it.concretize(t, 0, int64(len(cells)-1))
		return Ptr{c: &cells[k], o: o}
	}
	return symPtr{a: cells, i: t, o: o, t: et}
}

func (it *Interp) slice(x *ssa.Slice, fr *frame, ci *cinstr) Value {
	a := it.get(fr, &ci.op[0])
	opt := func(k int, v ssa.Value) Value {
		if v == nil {
			return nil
		}
		return it.normIdx(it.get(fr, &ci.op[k]), v.Type())
	}
	// operands: X, Low, High, Max (absent ones are nil operands)
	lo, hi, mx := opt(1, x.Low), opt(2, x.High), opt(3, x.Max)
	switch s := a.(type) {
	case string, *SymStr:
		return it.strSlice(s, lo, hi)
	case Slice:
		it.checkUse(s.o)
		return it.sliceCells(s.a, s.n, s.o, lo, hi, mx)
	case Ptr:
		if s.c == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		arr := (*s.c).(ArrayV)
		return it.sliceCells(arr, len(arr), s.o, lo, hi, mx)
	}
	panic(unsupported{fmt.Sprintf("slice of %T", a)})
}

func (it *Interp) sliceCells(a []Value, n int, o *Obj, lo, hi, mx Value) Value {
	l, h, m := int64(0), int64(n), int64(len(a))
	rangeOf := func(v Value, top int64) int64 {
		if t, ok := v.(*Term); ok {
			if !it.branch(it.t2b(it.st.Cmp(OUle, t, it.st.Const(64, uint64(top))))) {
				panic(it.rtPanic("runtime error: slice bounds out of range"))
			}
			return it.concretize(t, 0, top)
		}
		return v.(int64)
	}
	if mx != nil {
		m = rangeOf(mx, int64(len(a)))
	}
	if hi != nil {
		h = rangeOf(hi, m)
	}
	if lo != nil {
		l = rangeOf(lo, h)
	}
	if m < 0 || m > int64(len(a)) || h < 0 || h > m || l < 0 || l > h {
		panic(it.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, len(a))))
	}
	return Slice{a: a[l:m:m], n: int(h - l), o: o}
}

func (it *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	ifc, ok := v.(Iface)
	if !ok {
		if v == nil {
			ifc = Iface{}
		} else {
			unsup("type assert on %T", v)
		}
	}
	match := false
	if ifc.t != nil {
		if itf, ok := under(x.AssertedType).(*types.Interface); ok {
			if no, isN := ifc.v.(*nativeObj); isN {
				match = true
				for i := 0; i < itf.NumMethods(); i++ {
					if no.methods[itf.Method(i).Name()] == nil {
						match = false
					}
				}
			} else if ifc.t == runtimeErrT {
				match = itf.NumMethods() == 0 || itf.NumMethods() == 1 && itf.Method(0).Name() == "Error"
			} else {
				ssaMu.Lock()
				match = types.Implements(ifc.t, itf)
				ssaMu.Unlock()
			}
		} else {
			match = it.sameType(ifc.t, x.AssertedType)
		}
	}
	var out Value
	if match {
		if _, ok := under(x.AssertedType).(*types.Interface); ok {
			out = ifc
		} else {
			out = cp(ifc.v)
		}
	} else {
		if !x.CommaOk {
			d := "nil"
			if ifc.t != nil {
				d = ifc.t.String()
			}
			panic(it.rtPanic("interface conversion: interface is " + d + ", not " + x.AssertedType.String()))
		}
		out = it.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{out, match}
	}
	return out
}

// ---- string iteration ----

type strIter struct {
	s Value
	i int
}

func (it *Interp) strNext(i *strIter) Value {
	n := it.strLenT(i.s)
	if !it.branch(it.t2b(it.st.Cmp(OUlt, it.st.Const(64, uint64(i.i)), n))) {
		return Tuple{false, int64(0), int64(0)}
	}
	pos := i.i
	b := it.strByte(i.s, pos)
	it.logIter(func() { i.i = pos })
	if it.branch(it.t2b(it.st.Cmp(OUlt, b, it.st.Const(8, 0x80)))) {
		i.i++
		return Tuple{true, int64(pos), it.t2i(it.st.Resize(b, 32, false), true)}
	}
	fn := it.findFunc("unicode/utf8", "DecodeRuneInString")
	r := it.callFn(fn, []Value{it.strSlice(i.s, int64(pos), nil)}, nil).(Tuple)
	sz := it.concInt(r[1], 1, 4)
	i.i += int(sz)
	return Tuple{true, int64(pos), r[0]}
}

func (it *Interp) findFunc(pkg, name string) *ssa.Function {
	p := it.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	f := p.Func(name)
	if f == nil {
		unsup("function %s.%s not found", pkg, name)
	}
	return f
}

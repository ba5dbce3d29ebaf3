package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- locks ----

// leafCell is the last scalar cell inside a synchronisation object; the lock state lives there.
func leafCell(p Ptr) Ptr {
	c := p.c
	for {
		switch s := (*c).(type) {
		case StructV:
			if len(s) == 0 {
				unsup("empty lock struct")
			}
			c = &s[len(s)-1]
			continue
		}
		return Ptr{c: c, o: p.o}
	}
}

func (it *Interp) lockPtr(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		unsup("lock through %T", v)
	}
	if p.c == nil {
		panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	return leafCell(p)
}

func (it *Interp) deadlock(what string) {
	if it.fresh() {
		it.violation("deadlock", what, it.model)
	}
	panic(pathEnd{"deadlock"})
}

func (it *Interp) lock(v Value, write, try bool) bool {
	p := it.lockPtr(v)
	if it.par != nil && !it.noTrail {
		return it.par.lock(it, p, write, try)
	}
	s := (*p.c).(int64)
	if write && s != 0 || !write && s < 0 {
		if try {
			return false
		}
		it.deadlock("lock acquired twice by one goroutine in " + it.caller())
	}
	n := s + 1
	if write {
		n = -1
	}
	it.setCell(p.c, p.o, n)
	return true
}

func (it *Interp) unlock(v Value, write bool) {
	p := it.lockPtr(v)
	if it.par != nil && !it.noTrail {
		it.par.syncPoint(it, "unlock")
	}
	s := (*p.c).(int64)
	if write && s != -1 || !write && s <= 0 {
		// the runtime's fatal error cannot be recovered
		if it.fresh() {
			it.violation("panic", "unlock of unlocked mutex in "+it.caller(), it.model)
		}
		panic(pathEnd{"unlock"})
	}
	n := s - 1
	if write {
		n = 0
	}
	if it.par != nil {
		it.par.tr.lock(it.par.cur.id, p.c, false, write, it.caller())
	}
	it.setCell(p.c, p.o, n)
}

func (it *Interp) caller() string {
	for i := len(it.stack) - 1; i >= 0; i-- {
		if f := it.stack[i]; f.Synthetic == "" {
			return f.String()
		}
	}
	return "?"
}

func addSyncIntrinsics() {
	add := func(k string, f intrinsic) { intrinsics[k] = f }
	for _, t := range []string{"Mutex", "RWMutex"} {
		add("sync."+t+".Lock", func(it *Interp, fn *ssa.Function, a []Value) Value { it.lock(a[0], true, false); return nil })
		add("sync."+t+".Unlock", func(it *Interp, fn *ssa.Function, a []Value) Value { it.unlock(a[0], true); return nil })
		add("sync."+t+".TryLock", func(it *Interp, fn *ssa.Function, a []Value) Value { return it.lock(a[0], true, true) })
	}
	add("sync.RWMutex.RLock", func(it *Interp, fn *ssa.Function, a []Value) Value { it.lock(a[0], false, false); return nil })
	add("sync.RWMutex.RUnlock", func(it *Interp, fn *ssa.Function, a []Value) Value { it.unlock(a[0], false); return nil })
	add("sync.RWMutex.TryRLock", func(it *Interp, fn *ssa.Function, a []Value) Value { return it.lock(a[0], false, true) })

	// sync.Once: done flag in the leaf cell
	add("sync.Once.Do", func(it *Interp, fn *ssa.Function, a []Value) Value {
		p := it.lockPtr(a[0])
		it.syncObj(p.c)
		if (*p.c).(int64) == 0 {
			it.setCell(p.c, p.o, int64(1))
			it.call(a[1], nil)
			it.relObj(p.c)
		}
		return nil
	})

	// sync.Pool: reuse is last-in first-out and always happens when the pool holds an item
	add("sync.Pool.Get", func(it *Interp, fn *ssa.Function, a []Value) Value {
		pp := a[0].(Ptr)
		if pp.c == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		st := (*pp.c).(StructV)
		c := &st[1]
		if it.par != nil {
			it.par.poolGet(it, c)
		}
		if items, ok := (*c).(Slice); ok && items.n > 0 {
			v := items.a[items.n-1]
			na := append([]Value(nil), items.a[:items.n-1]...)
			it.setCell(c, pp.o, Slice{a: na, n: len(na), o: pp.o})
			return v
		}
		nf := st[len(st)-1]
		if f, ok := nf.(*Closure); ok && f == nil {
			return Iface{}
		}
		return it.call(nf, nil)
	})
	add("sync.Pool.Put", func(it *Interp, fn *ssa.Function, a []Value) Value {
		pp := a[0].(Ptr)
		if pp.c == nil {
			panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		if ifc, ok := a[1].(Iface); ok && ifc.t == nil {
			return nil
		}
		st := (*pp.c).(StructV)
		c := &st[1]
		if it.par != nil {
			it.par.poolPut(it, c)
		}
		var items []Value
		if s, ok := (*c).(Slice); ok {
			items = append(items, s.a[:s.n]...)
		}
		items = append(items, a[1])
		if it.poolCells == nil {
			it.poolCells = map[*Value]bool{}
		}
		it.poolCells[c] = true
		it.setCell(c, pp.o, Slice{a: items, n: len(items), o: pp.o})
		return nil
	})

	add("maps.clone", func(it *Interp, fn *ssa.Function, a []Value) Value {
		ifc := a[0].(Iface)
		m, _ := ifc.v.(*MapObj)
		if m == nil {
			return a[0]
		}
		it.mapRead(m)
		n := &MapObj{o: it.newObj("maps.Clone"), vt: m.vt}
		for _, e := range m.ents {
			n.ents = append(n.ents, mapEnt{id: e.id, k: e.k, v: cp(e.v), p: e.p})
		}
		return Iface{t: ifc.t, v: n}
	})
	add("sync.WaitGroup.Add", nop)
	add("sync.WaitGroup.Done", nop)
	add("sync.WaitGroup.Wait", nop)

	// sync/atomic types and functions
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Pointer", "Value", "Uintptr"} {
		pre := "sync/atomic." + t + "."
		add(pre+"Load", func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.atomicCell(a[0])
			it.syncObj(p.c)
			return it.fromAtomic(fn, *p.c)
		})
		add(pre+"Store", func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.atomicCell(a[0])
			it.syncObj(p.c)
			it.setCell(p.c, p.o, a[1])
			it.relObj(p.c)
			return nil
		})
		add(pre+"Swap", func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.atomicCell(a[0])
			it.syncObj(p.c)
			old := it.fromAtomic(fn, *p.c)
			it.setCell(p.c, p.o, a[1])
			it.relObj(p.c)
			return old
		})
		add(pre+"CompareAndSwap", func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.atomicCell(a[0])
			it.syncObj(p.c)
			cur := *p.c
			if _, ok := a[1].(bool); ok {
				if k, ok := cur.(int64); ok {
					cur = k != 0
				}
			}
			if it.branch(it.eq(cur, a[1])) {
				it.setCell(p.c, p.o, a[2])
				it.relObj(p.c)
				return true
			}
			return false
		})
		add(pre+"Add", func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.atomicCell(a[0])
			it.syncObj(p.c)
			t := fn.Signature.Results().At(0).Type()
			w, s, _ := intInfo(t)
			nv := it.t2i(it.st.Bin(OAdd, it.i2t(*p.c, w), it.i2t(a[1], w)), s)
			it.setCell(p.c, p.o, nv)
			it.relObj(p.c)
			return nv
		})
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer", "Uintptr"} {
		add("sync/atomic.Load"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.plainPtr(a[0])
			it.syncObj(p.c)
			return *p.c
		})
		add("sync/atomic.Store"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.plainPtr(a[0])
			it.syncObj(p.c)
			it.setCell(p.c, p.o, a[1])
			it.relObj(p.c)
			return nil
		})
		add("sync/atomic.CompareAndSwap"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.plainPtr(a[0])
			it.syncObj(p.c)
			if it.branch(it.eq(*p.c, a[1])) {
				it.setCell(p.c, p.o, a[2])
				it.relObj(p.c)
				return true
			}
			return false
		})
		add("sync/atomic.Add"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.plainPtr(a[0])
			it.syncObj(p.c)
			w, s, _ := intInfo(fn.Signature.Results().At(0).Type())
			nv := it.t2i(it.st.Bin(OAdd, it.i2t(*p.c, w), it.i2t(a[1], w)), s)
			it.setCell(p.c, p.o, nv)
			it.relObj(p.c)
			return nv
		})
	}
}

func (it *Interp) plainPtr(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		unsup("atomic through %T", v)
	}
	if p.c == nil {
		panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	return p
}

func (it *Interp) atomicCell(v Value) Ptr {
	p := it.plainPtr(v)
	s, ok := (*p.c).(StructV)
	if !ok {
		return p
	}
	return Ptr{c: &s[len(s)-1], o: p.o}
}

func (it *Interp) fromAtomic(fn *ssa.Function, v Value) Value {
	t := fn.Signature.Results().At(0).Type()
	if isBool(t) {
		if k, ok := v.(int64); ok {
			return k != 0
		}
	}
	return v
}

// syncObj: a scheduling point and an operation on an internally synchronised object.
func (it *Interp) syncObj(c *Value) {
	if it.par != nil && !it.noTrail {
		it.par.syncPoint(it, "sync")
		it.par.tr.sync(it.par.cur.id, c, false, it.caller())
	}
}

// relObj: the operation published something.
func (it *Interp) relObj(c *Value) {
	if it.par != nil && !it.noTrail {
		it.par.tr.sync(it.par.cur.id, c, true, it.caller())
	}
}

// ---- concurrent maps (xsync.MapOf, oarkflow/maps.Map, sync.Map) as ideal linearizable maps ----

func (it *Interp) cmap(v Value) (*MapObj, *Value) {
	p, ok := v.(Ptr)
	if !ok {
		unsup("concurrent map %T", v)
	}
	if p.c == nil {
		panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	s, ok := (*p.c).(StructV)
	if !ok {
		unsup("concurrent map representation %T", *p.c)
	}
	m, ok := s[0].(*MapObj)
	if !ok || m == nil {
		m = &MapObj{o: p.o}
		it.setCell(&s[0], p.o, m)
	}
	return m, &s[0]
}

// cmapOp is an operation on a concurrent map; one that may change it publishes.
func (it *Interp) cmapOp(v Value) *MapObj {
	m, c := it.cmap(v)
	it.syncObj(c)
	it.relObj(c)
	return m
}

// cmapRd is an operation that only reads.
func (it *Interp) cmapRd(v Value) *MapObj {
	m, c := it.cmap(v)
	it.syncObj(c)
	return m
}

// raw map operations that bypass race tracking (the map synchronises internally)
func (it *Interp) rawGet(m *MapObj, k Value, vt types.Type) (Value, Value) {
	par := it.par
	it.par = nil
	defer func() { it.par = par }()
	return it.mapGet(m, k, vt)
}
func (it *Interp) rawSet(m *MapObj, k, v Value) {
	par := it.par
	it.par = nil
	defer func() { it.par = par }()
	it.mapSet(m, k, v)
}
func (it *Interp) rawDel(m *MapObj, k Value) {
	par := it.par
	it.par = nil
	defer func() { it.par = par }()
	it.mapDelete(m, k)
}
func (it *Interp) rawIter(m *MapObj) *mapIter {
	par := it.par
	it.par = nil
	defer func() { it.par = par }()
	return it.newMapIter(m)
}

// mapArgs returns the key and value types of the instantiated map a method belongs to.
func mapArgs(fn *ssa.Function) (k, v types.Type) {
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := t.(*types.Named)
	return n.TypeArgs().At(0), n.TypeArgs().At(1)
}

func addMapIntrinsics() {
	add := func(k string, f intrinsic) { intrinsics[k] = f }
	ctor := func(it *Interp, fn *ssa.Function, a []Value) Value {
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		p := it.alloc(pt.Elem(), "concurrent map")
		s := (*p.c).(StructV)
		s[0] = &MapObj{o: p.o}
		return p
	}
	add("github.com/oarkflow/xsync.NewMap", ctor)
	add("github.com/oarkflow/xsync.NewMapOfWithHasher", ctor)
	add("github.com/oarkflow/maps.New", ctor)
	ops := map[string]intrinsic{
		"Get": func(it *Interp, fn *ssa.Function, a []Value) Value {
			_, vt := mapArgs(fn)
			v, ok := it.rawGet(it.cmapRd(a[0]), a[1], vt)
			return Tuple{v, ok}
		},
		"Set": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.rawSet(it.cmapOp(a[0]), a[1], a[2])
			return nil
		},
		"GetOrSet": func(it *Interp, fn *ssa.Function, a []Value) Value {
			_, vt := mapArgs(fn)
			m := it.cmapOp(a[0])
			v, ok := it.rawGet(m, a[1], vt)
			if it.branch(ok) {
				return Tuple{v, true}
			}
			it.rawSet(m, a[1], a[2])
			return Tuple{a[2], false}
		},
		"GetAndSet": func(it *Interp, fn *ssa.Function, a []Value) Value {
			_, vt := mapArgs(fn)
			m := it.cmapOp(a[0])
			v, ok := it.rawGet(m, a[1], vt)
			b := it.branch(ok)
			it.rawSet(m, a[1], a[2])
			if b {
				return Tuple{v, true}
			}
			return Tuple{a[2], false}
		},
		"GetOrCompute": func(it *Interp, fn *ssa.Function, a []Value) Value {
			_, vt := mapArgs(fn)
			m := it.cmapOp(a[0])
			v, ok := it.rawGet(m, a[1], vt)
			if it.branch(ok) {
				return Tuple{v, true}
			}
			nv := it.call(a[2], nil)
			it.rawSet(m, a[1], nv)
			return Tuple{nv, false}
		},
		"Compute": func(it *Interp, fn *ssa.Function, a []Value) Value {
			_, vt := mapArgs(fn)
			m := it.cmapOp(a[0])
			v, ok := it.rawGet(m, a[1], vt)
			b := it.branch(ok)
			r := it.call(a[2], []Value{v, b}).(Tuple)
			if it.branch(r[1]) {
				it.rawDel(m, a[1])
				if !b {
					v = it.zero(vt)
				}
				return Tuple{v, false}
			}
			it.rawSet(m, a[1], r[0])
			return Tuple{r[0], true}
		},
		"GetAndDelete": cmapGetDel,
		"GetAndDel":    cmapGetDel,
		"Del": func(it *Interp, fn *ssa.Function, a []Value) Value {
			m := it.cmapOp(a[0])
			if fn.Signature.Variadic() {
				ks := a[1].(Slice)
				for i := 0; i < ks.n; i++ {
					it.rawDel(m, ks.a[i])
				}
				return nil
			}
			it.rawDel(m, a[1])
			return nil
		},
		"ForEach": cmapRange,
		"Clear": func(it *Interp, fn *ssa.Function, a []Value) Value {
			m := it.cmapOp(a[0])
			if len(m.ents) > 0 {
				it.setEnts(m, nil)
			}
			return nil
		},
		"Size": func(it *Interp, fn *ssa.Function, a []Value) Value { return it.mapLen(it.cmapRd(a[0])) },
		"Len":  func(it *Interp, fn *ssa.Function, a []Value) Value { return it.mapLen(it.cmapRd(a[0])) },
		"Keys": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.cmapList(a[0], func(e *mapEnt) Value { return cp(e.k) })
		},
		"Values": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.cmapList(a[0], func(e *mapEnt) Value { return cp(e.v) })
		},
		"AsMap": func(it *Interp, fn *ssa.Function, a []Value) Value {
			m := it.cmapRd(a[0])
			return &MapObj{o: it.newObj("AsMap"), ents: append([]mapEnt(nil), m.ents...)}
		},
		"Clone": func(it *Interp, fn *ssa.Function, a []Value) Value {
			m := it.cmapRd(a[0])
			pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
			p := it.alloc(pt.Elem(), "concurrent map")
			(*p.c).(StructV)[0] = &MapObj{o: p.o, ents: append([]mapEnt(nil), m.ents...)}
			return p
		},
		"Grow":      nop,
		"SetHasher": nop,
	}
	for n, f := range ops {
		add("github.com/oarkflow/xsync.MapOf."+n, f)
		add("github.com/oarkflow/maps.Map."+n, f)
	}
	// sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	sm := func(n string, f intrinsic) { add("sync.Map."+n, f) }
	sm("Load", func(it *Interp, fn *ssa.Function, a []Value) Value {
		v, ok := it.rawGet(it.cmapRd(a[0]), a[1], anyT)
		return Tuple{v, ok}
	})
	sm("Store", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.rawSet(it.cmapOp(a[0]), a[1], a[2])
		return nil
	})
	sm("LoadOrStore", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m := it.cmapOp(a[0])
		v, ok := it.rawGet(m, a[1], anyT)
		if it.branch(ok) {
			return Tuple{v, true}
		}
		it.rawSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	sm("LoadAndDelete", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m := it.cmapOp(a[0])
		v, ok := it.rawGet(m, a[1], anyT)
		it.rawDel(m, a[1])
		return Tuple{v, ok}
	})
	sm("Delete", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.rawDel(it.cmapOp(a[0]), a[1])
		return nil
	})
	sm("Range", cmapRange)
	sm("Clear", ops["Clear"])
}

func cmapGetDel(it *Interp, fn *ssa.Function, a []Value) Value {
	_, vt := mapArgs(fn)
	m := it.cmapOp(a[0])
	v, ok := it.rawGet(m, a[1], vt)
	b := it.branch(ok)
	if b {
		it.rawDel(m, a[1])
	}
	return Tuple{v, b}
}

func cmapRange(it *Interp, fn *ssa.Function, a []Value) Value {
	m := it.cmapRd(a[0])
	mi := it.rawIter(m)
	for {
		e := mi.next(it)
		if e == nil {
			return nil
		}
		if it.par != nil {
			it.cmapRd(a[0])
		}
		if !it.branch(it.call(a[1], []Value{cp(e.k), cp(e.v)})) {
			return nil
		}
	}
}

func (it *Interp) cmapList(v Value, f func(e *mapEnt) Value) Value {
	m := it.cmapRd(v)
	mi := it.rawIter(m)
	var out []Value
	for {
		e := mi.next(it)
		if e == nil {
			break
		}
		out = append(out, f(e))
	}
	if len(out) == 0 {
		return Slice{}
	}
	return Slice{a: out, n: len(out), o: it.newObj("list")}
}

// ---- threads ----

type thread struct {
	id     int
	fn     Value
	resume chan bool // false: die
	done   bool
	block  *blockOn
	pan    any
	stack  []*ssa.Function
	depth  int
	recFr  *frame
	held   int
}

type blockOn struct {
	p     Ptr
	write bool
}

type parState struct {
	ths      []*thread
	cur      *thread
	back     chan struct{}
	preempt  int
	tr       *tracer
	waitW    map[*Value]int
	seqMark  int64
	switched int
}

type killThread struct{}

func (p *parState) enabled(t *thread) bool {
	if t.done {
		return false
	}
	if t.block == nil {
		return true
	}
	s := (*t.block.p.c).(int64)
	if t.block.write {
		return s == 0
	}
	return s >= 0 && p.waitW[t.block.p.c] == 0
}

func (it *Interp) runPar(preempt int, fs []Value) {
	if it.par != nil {
		unsup("nested nd.Par")
	}
	p := &parState{preempt: preempt, tr: newTracer(len(fs)), waitW: map[*Value]int{}, seqMark: it.seq, back: make(chan struct{})}
	for i, f := range fs {
		t := &thread{id: i, fn: f, resume: make(chan bool), depth: it.depth, stack: append([]*ssa.Function(nil), it.stack...)}
		p.ths = append(p.ths, t)
	}
	it.par = p
	it.ordDep = true
	it.parLog = nil
	mStack, mDepth, mRec := it.stack, it.depth, it.recFr
	for _, t := range p.ths {
		t := t
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killThread); !ok {
						t.pan = r
					}
				}
				t.done = true
				p.back <- struct{}{}
			}()
			if !<-t.resume {
				panic(killThread{})
			}
			it.call(t.fn, nil)
		}()
	}
	finish := func() {
		for _, t := range p.ths {
			if !t.done {
				t.resume <- false
				<-p.back
			}
		}
		it.par = nil
		it.stack, it.depth, it.recFr = mStack, mDepth, mRec
	}
	defer func() {
		if r := recover(); r != nil {
			finish()
			panic(r)
		}
	}()
	for {
		var en []*thread
		all := true
		for _, t := range p.ths {
			if !t.done {
				all = false
			}
			if p.enabled(t) {
				en = append(en, t)
			}
		}
		if all {
			break
		}
		if len(en) == 0 {
			it.deadlock("all goroutines blocked on locks")
		}
		k := it.choice(len(en), "sched")
		p.run(it, en[k])
	}
	finish()
	it.decideOrders(p.tr, len(p.ths))
}

// run lets t proceed until it yields, blocks or finishes.
func (p *parState) run(it *Interp, t *thread) {
	p.cur = t
	it.stack, it.depth, it.recFr = t.stack, t.depth, t.recFr
	t.resume <- true
	<-p.back
	t.stack, t.depth, t.recFr = it.stack, it.depth, it.recFr
	if t.pan != nil {
		pn := t.pan
		t.pan = nil
		panic(pn)
	}
}

// park returns control to the scheduler; called on the thread's goroutine.
func (p *parState) park(t *thread) {
	p.back <- struct{}{}
	if !<-t.resume {
		panic(killThread{})
	}
}

// syncPoint may preempt the current thread before a synchronisation operation.
func (p *parState) syncPoint(it *Interp, what string) {
	t := p.cur
	others := 0
	for _, o := range p.ths {
		if o != t && p.enabled(o) {
			others++
		}
	}
	if others == 0 || p.preempt <= 0 {
		return
	}
	if it.choice(2, "sched") == 1 {
		p.preempt--
		it.parLog = append(it.parLog, fmt.Sprintf("goroutine %d preempted before %s in %s", t.id, what, it.caller()))
		p.park(t)
	}
}

func (p *parState) lock(it *Interp, l Ptr, write, try bool) bool {
	t := p.cur
	p.syncPoint(it, "lock")
	for {
		s := (*l.c).(int64)
		if write && s == 0 || !write && s >= 0 && p.waitW[l.c] == 0 {
			break
		}
		if try {
			return false
		}
		if write {
			p.waitW[l.c]++
		}
		t.block = &blockOn{l, write}
		it.parLog = append(it.parLog, fmt.Sprintf("goroutine %d blocks in %s", t.id, it.caller()))
		p.park(t)
		t.block = nil
		if write {
			p.waitW[l.c]--
		}
	}
	n := (*l.c).(int64) + 1
	if write {
		n = -1
	}
	p.tr.lock(t.id, l.c, true, write, it.caller())
	it.setCell(l.c, l.o, n)
	return true
}

func (p *parState) poolPut(it *Interp, c *Value) {
	p.syncPoint(it, "pool put")
	i := p.tr.add(event{th: p.cur.id, kind: evPut, obj: p.tr.id(c), at: it.caller(), edge: -1})
	p.tr.put[c] = append(p.tr.put[c], i)
}

// poolGet takes the item put last; whoever put it did so before.
func (p *parState) poolGet(it *Interp, c *Value) {
	p.syncPoint(it, "pool get")
	e := event{th: p.cur.id, kind: evGet, obj: p.tr.id(c), at: it.caller(), edge: -1}
	if l := p.tr.put[c]; len(l) > 0 {
		if last := l[len(l)-1]; p.tr.evs[last].th != p.cur.id {
			e.edge = last
		}
		p.tr.put[c] = l[:len(l)-1]
	}
	p.tr.add(e)
}

func (p *parState) access(it *Interp, c *Value, o *Obj, write bool) {
	switch s := (*c).(type) {
	case StructV:
		for i := range s {
			p.access(it, &s[i], o, write)
		}
		return
	case ArrayV:
		for i := range s {
			p.access(it, &s[i], o, write)
		}
		return
	}
	p.tr.access(p.cur.id, c, write, "memory", it.caller())
}

func (p *parState) accessMap(it *Interp, m *MapObj, write bool) {
	p.tr.access(p.cur.id, m, write, "a map", it.caller())
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func short(f string) string {
	return strings.ReplaceAll(f, "github.com/oarkflow/permission", "permission")
}

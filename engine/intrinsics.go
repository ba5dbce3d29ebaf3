package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(it *Interp, fn *ssa.Function, args []Value) Value

// nativeObj is an engine-implemented value with methods.
type nativeObj struct {
	name    string
	methods map[string]func(it *Interp, args []Value) Value
}

func (n *nativeObj) method(name string) *Native {
	f := n.methods[name]
	if f == nil {
		unsup("method %s of %s", name, n.name)
	}
	return &Native{name, f}
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "log": true, "log/slog": true, "reflect": true, "encoding/json": true,
	"time": true, "fmt": true, "context": true, "sync": true, "sync/atomic": true, "internal/poll": true, "internal/godebug": true,
	"log/internal": true, "log/slog/internal": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "io/fs": true,
	"github.com/oarkflow/xsync": true, "github.com/oarkflow/maps": true,
}

// fnKey names a function independent of instantiation: path.Name or path.Recv.Name.
func fnKey(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		pkg = ob.Pkg().Path()
	}
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if pkg == "" && n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Path()
			}
			return pkg + "." + n.Obj().Name() + "." + o.Name()
		}
		return pkg + ".?." + o.Name()
	}
	return pkg + "." + o.Name()
}

var overrides = map[string]string{
	"strings.Index": "Index", "internal/stringslite.Index": "Index",
	"strings.IndexByte": "IndexByte", "internal/stringslite.IndexByte": "IndexByte", "internal/bytealg.IndexByteString": "IndexByte",
	"strings.LastIndex": "LastIndex", "strings.LastIndexByte": "LastIndexByte", "internal/bytealg.LastIndexByteString": "LastIndexByte",
	"strings.Contains": "Contains", "strings.ContainsRune": "ContainsRune", "strings.ContainsAny": "ContainsAny", "strings.Count": "Count",
	"strings.HasPrefix": "HasPrefix", "internal/stringslite.HasPrefix": "HasPrefix",
	"strings.HasSuffix": "HasSuffix", "internal/stringslite.HasSuffix": "HasSuffix",
	"strings.TrimPrefix": "TrimPrefix", "internal/stringslite.TrimPrefix": "TrimPrefix",
	"strings.TrimSuffix": "TrimSuffix", "internal/stringslite.TrimSuffix": "TrimSuffix",
	"strings.Split": "Split", "strings.SplitN": "SplitN", "strings.Join": "Join", "strings.Cut": "Cut", "internal/stringslite.Cut": "Cut",
	"strings.Repeat": "Repeat", "strings.Compare": "Compare", "strings.Clone": "Clone", "internal/stringslite.Clone": "Clone",
	"internal/bytealg.CompareString": "Compare", "cmp.Compare": "",
}

func (it *Interp) override(fn *ssa.Function) *ssa.Function {
	n, ok := overrides[fnKey(fn)]
	if !ok || n == "" || fn.Parent() != nil {
		return nil
	}
	return it.findFunc("verif/harness/rt", n)
}

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Parent() != nil || fn.Synthetic != "" && fn.Origin() == nil {
		// wrappers, thunks and bound methods run as generated
		return nil
	}
	k := fnKey(fn)
	if i, ok := intrinsics[k]; ok {
		return i
	}
	return nil
}

func constStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	unsup("symbolic name")
	return ""
}

func (it *Interp) newVar(w uint8) *Term {
	v := it.st.Var(w, fmt.Sprintf("v %d", len(it.inputs))+"_"+fmt.Sprint(w))
	return v
}

func (it *Interp) assumeRange(t *Term, lo, hi int64) {
	c := it.st.And(it.st.Cmp(OSle, it.st.Const(t.w, uint64(lo)), t), it.st.Cmp(OSle, t, it.st.Const(t.w, uint64(hi))))
	it.assumeInput(c, t, uint64(lo))
}

// enumVar is a fresh variable with values 0..n-1.
func (it *Interp) enumVar(n int) *Term {
	w := uint8(1)
	for 1<<w < n {
		w++
	}
	v := it.newVar(w)
	c := it.st.tru
	for i := n; i < 1<<w; i++ {
		c = it.st.And(c, it.st.Not(it.st.Eq(v, it.st.Const(w, uint64(i)))))
	}
	if c != it.st.tru {
		it.assumeInput(c, v, 0)
	}
	return v
}

// assumeInput adds a constraint on a fresh variable, for which val is a witness.
func (it *Interp) assumeInput(c *Term, v *Term, val uint64) {
	if it.st.Eval(c, it.model) == 0 {
		m := make(Model, len(it.model)+1)
		for k, x := range it.model {
			m[k] = x
		}
		m[v.name] = val & maskb(v.w)
		it.model = m
	}
	it.pushPC(c)
	if ex := it.resolve(it.ex); true {
		ex.conds = append(ex.conds, c)
	}
}

func (it *Interp) addInput(kind, name string, v Value) {
	it.inputs = append(it.inputs, input{kind, name, v})
}

func init() {
	intrinsics = map[string]intrinsic{
		"verif/harness/nd.Bool": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			v := it.newVar(0)
			it.addInput("bool", constStr(a[0]), v)
			return v
		},
		"verif/harness/nd.Byte": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			v := it.newVar(8)
			it.addInput("int", constStr(a[0]), v)
			return v
		},
		"verif/harness/nd.Int": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			lo, hi := a[1].(int64), a[2].(int64)
			if lo == hi {
				it.addInput("int", constStr(a[0]), lo)
				return lo
			}
			if n := int(hi - lo + 1); n <= 16 {
				e := it.enumVar(n)
				v := it.st.Const(64, uint64(lo))
				for i := 1; i < n; i++ {
					v = it.st.Ite(it.st.Eq(e, it.st.Const(e.w, uint64(i))), it.st.Const(64, uint64(lo+int64(i))), v)
				}
				it.addInput("int", constStr(a[0]), v)
				return v
			}
			v := it.newVar(64)
			it.assumeRange(v, lo, hi)
			it.addInput("int", constStr(a[0]), v)
			return v
		},
		"verif/harness/nd.Choice": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			n := a[1].(int64)
			if n <= 1 {
				it.addInput("int", constStr(a[0]), int64(0))
				return int64(0)
			}
			if n > 64 {
				unsup("nd.Choice among more than 64")
			}
			v := it.enumVar(int(n))
			it.addInput("int", constStr(a[0]), it.st.Resize(v, 64, false))
			conds := make([]*Term, n)
			for i := range conds {
				conds[i] = it.st.Eq(v, it.st.Const(v.w, uint64(i)))
			}
			return int64(it.decide(conds, v))
		},
		"verif/harness/nd.Str": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			mx := int(a[1].(int64))
			n := it.newVar(64)
			s := &SymStr{n: n}
			it.assumeRange(n, 0, int64(mx))
			base := len(it.inputs)
			for i := 0; i < mx; i++ {
				b := it.st.Var(8, fmt.Sprintf("v %d.%d", base, i))
				s.b = append(s.b, b)
				// zero beyond the length
				it.assumeInput(it.st.Or(it.st.Cmp(OUlt, it.st.Const(64, uint64(i)), n), it.st.Eq(b, it.st.Const(8, 0))), b, 0)
			}
			it.addInput("str", constStr(a[0]), s)
			return s
		},
		"verif/harness/nd.Pick": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			sl := a[1].(Slice)
			if sl.n == 0 {
				unsup("nd.Pick with no choices")
			}
			if sl.n == 1 {
				it.addInput("str", constStr(a[0]), sl.a[0])
				return sl.a[0]
			}
			v := it.enumVar(sl.n)
			var alts []alt
			r := sl.a[0]
			for i := 0; i < sl.n; i++ {
				c := it.st.Eq(v, it.st.Const(v.w, uint64(i)))
				if i > 0 {
					r, _ = it.iteV(c, sl.a[i], r)
				}
				if s, ok := sl.a[i].(string); ok {
					alts = append(alts, alt{c, s})
				}
			}
			if s, ok := r.(*SymStr); ok && len(alts) == sl.n {
				var u []alt
				for _, x := range alts {
					dup := false
					for k := range u {
						if u[k].s == x.s {
							u[k].c = it.st.Or(u[k].c, x.c)
							dup = true
						}
					}
					if !dup {
						u = append(u, x)
					}
				}
				s.alts = u
			}
			it.addInput("str", constStr(a[0]), r)
			return r
		},
		"verif/harness/nd.Assume": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.assume(a[0])
			return nil
		},
		"verif/harness/nd.Assert": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			it.assertV(a[0], constStr(a[1]))
			return nil
		},
		"verif/harness/nd.Cover": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			it.cover(constStr(a[0]), true)
			return nil
		},
		"verif/harness/nd.CoverIf": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			it.cover(constStr(a[1]), a[0])
			return nil
		},
		"verif/harness/nd.Observe": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			ifc := a[1].(Iface)
			it.obs = append(it.obs, obsEnt{constStr(a[0]), ifc.v, ifc.t})
			return nil
		},
		"verif/harness/nd.MapOrder": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			it.mapMode = int(a[0].(int64))
			if it.mapMode == 1 {
				it.ordBit = it.choice(2, "order")
			}
			return nil
		},
		"verif/harness/nd.P": func(it *Interp, fn *ssa.Function, a []Value) Value {
			if v, ok := it.params[constStr(a[0])]; ok {
				return v
			}
			return a[1]
		},
		"verif/harness/nd.Symbolic": func(it *Interp, fn *ssa.Function, a []Value) Value { return true },
		"verif/harness/nd.Advance": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.advance(a[0])
			return nil
		},
		"verif/harness/nd.Par": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sideEffect()
			fs := a[1].(Slice)
			it.runPar(int(a[0].(int64)), fs.a[:fs.n])
			return nil
		},

		// ---- errors ----
		"errors.Is": nil,

		// ---- strings.Builder ----
		"strings.Builder.WriteString": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sbAppend(a[0], a[1])
			return Tuple{it.strLen(a[1]), Iface{}}
		},
		"strings.Builder.WriteByte": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.sbAppend(a[0], it.mkStr(it.st.Const(64, 1), []*Term{it.i2t(a[1], 8)}))
			return Iface{}
		},
		"strings.Builder.WriteRune": func(it *Interp, fn *ssa.Function, a []Value) Value {
			s := it.runesToStr([]Value{a[1]})
			it.sbAppend(a[0], s)
			return Tuple{it.strLen(s), Iface{}}
		},
		"strings.Builder.Write": func(it *Interp, fn *ssa.Function, a []Value) Value {
			sl := a[1].(Slice)
			it.sbAppend(a[0], it.strFromBytes(sl.a[:sl.n]))
			return Tuple{int64(sl.n), Iface{}}
		},
		"strings.Builder.String": func(it *Interp, fn *ssa.Function, a []Value) Value { return it.sbGet(a[0]) },
		"strings.Builder.Len":    func(it *Interp, fn *ssa.Function, a []Value) Value { return it.strLen(it.sbGet(a[0])) },
		"strings.Builder.Cap":    func(it *Interp, fn *ssa.Function, a []Value) Value { return int64(64) },
		"strings.Builder.Grow":   func(it *Interp, fn *ssa.Function, a []Value) Value { return nil },
		"strings.Builder.Reset": func(it *Interp, fn *ssa.Function, a []Value) Value {
			p := it.sbCell(a[0])
			it.setCell(p.c, p.o, "")
			return nil
		},

		// ---- fmt ----
		"fmt.Sprintf": func(it *Interp, fn *ssa.Function, a []Value) Value { return it.sprintf(a[0], a[1].(Slice), nil) },
		"fmt.Errorf": func(it *Interp, fn *ssa.Function, a []Value) Value {
			var wrapped []Value
			s := it.sprintf(a[0], a[1].(Slice), &wrapped)
			return it.mkError(s, wrapped)
		},
		"fmt.Sprint": func(it *Interp, fn *ssa.Function, a []Value) Value { return it.sprint(a[0].(Slice), false) },
		"fmt.Sprintln": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.strConcat(it.sprint(a[0].(Slice), true), "\n")
		},
		"fmt.Println": func(it *Interp, fn *ssa.Function, a []Value) Value { return Tuple{int64(0), Iface{}} },
		"fmt.Printf":  func(it *Interp, fn *ssa.Function, a []Value) Value { return Tuple{int64(0), Iface{}} },
		"fmt.Print":   func(it *Interp, fn *ssa.Function, a []Value) Value { return Tuple{int64(0), Iface{}} },
		"log.Println": nop, "log.Printf": nop, "log.Print": nop,

		// ---- sort ----
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// ---- runtime ----
		"runtime.Callers":      func(it *Interp, fn *ssa.Function, a []Value) Value { return int64(0) },
		"runtime.Gosched":      nop,
		"runtime.KeepAlive":    nop,
		"runtime.GC":           nop,
		"runtime.NumCPU":       func(it *Interp, fn *ssa.Function, a []Value) Value { return int64(8) },
		"runtime.GOMAXPROCS":   func(it *Interp, fn *ssa.Function, a []Value) Value { return int64(8) },
		"runtime.NumGoroutine": func(it *Interp, fn *ssa.Function, a []Value) Value { return int64(1) },

		// ---- time ----
		"time.Now": func(it *Interp, fn *ssa.Function, a []Value) Value { return it.mkTime(it.clock) },
		"time.ParseDuration": func(it *Interp, fn *ssa.Function, a []Value) Value {
			t, ok := a[0].(string)
			if !ok {
				unsup("ParseDuration of a symbolic string")
			}
			d, err := time.ParseDuration(t)
			if err != nil {
				return Tuple{int64(0), it.mkError(err.Error(), nil)}
			}
			return Tuple{int64(d), Iface{}}
		},
		"time.Sleep": func(it *Interp, fn *ssa.Function, a []Value) Value {
			it.advance(a[0])
			return nil
		},
		"time.Since": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.t2i(it.st.Bin(OSub, it.i2t(it.clock, 64), it.timeT(a[0])), true)
		},
		"time.Until": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.t2i(it.st.Bin(OSub, it.timeT(a[0]), it.i2t(it.clock, 64)), true)
		},
		"time.Time.Add": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.mkTime(it.t2i(it.st.Bin(OAdd, it.timeT(a[0]), it.i2t(a[1], 64)), true))
		},
		"time.Time.Sub": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.t2i(it.st.Bin(OSub, it.timeT(a[0]), it.timeT(a[1])), true)
		},
		"time.Time.After": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.t2b(it.st.Cmp(OSlt, it.timeT(a[1]), it.timeT(a[0])))
		},
		"time.Time.Before": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.t2b(it.st.Cmp(OSlt, it.timeT(a[0]), it.timeT(a[1])))
		},
		"time.Time.Equal": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.t2b(it.st.Eq(it.timeT(a[0]), it.timeT(a[1])))
		},
		"time.Time.Compare": func(it *Interp, fn *ssa.Function, a []Value) Value {
			x, y := it.timeT(a[0]), it.timeT(a[1])
			return it.t2i(it.st.Ite(it.st.Cmp(OSlt, x, y), it.st.Const(64, ^uint64(0)), it.st.Ite(it.st.Eq(x, y), it.st.Const(64, 0), it.st.Const(64, 1))), true)
		},
		"time.Time.IsZero": func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.t2b(it.st.Eq(it.timeT(a[0]), it.st.Const(64, 0)))
		},
		"time.Time.UnixNano":  func(it *Interp, fn *ssa.Function, a []Value) Value { return it.t2i(it.timeT(a[0]), true) },
		"time.Time.UTC":       func(it *Interp, fn *ssa.Function, a []Value) Value { return a[0] },
		"time.Time.Local":     func(it *Interp, fn *ssa.Function, a []Value) Value { return a[0] },
		"time.Time.String":    func(it *Interp, fn *ssa.Function, a []Value) Value { return "<time>" },
		"time.Time.Format":    func(it *Interp, fn *ssa.Function, a []Value) Value { return "<time>" },
		"time.Time.stripMono": nop,
		"time.stripMono":      nop,

		"log/slog.TimeValue": func(it *Interp, fn *ssa.Function, a []Value) Value {
			// slog.Value{num: 0, any: time}
			v := it.zero(fn.Signature.Results().At(0).Type()).(StructV)
			v[len(v)-1] = Iface{t: fn.Signature.Params().At(0).Type(), v: cp(a[0])}
			return v
		},
		"encoding/json.Marshal": func(it *Interp, fn *ssa.Function, a []Value) Value {
			unsup("encoding/json.Marshal (reflection)")
			return nil
		},
	}
	delete(intrinsics, "errors.Is")
	addSyncIntrinsics()
	addMapIntrinsics()
	_ = constant.BoolVal
}

func nop(it *Interp, fn *ssa.Function, a []Value) Value { return nil }

func (it *Interp) mkTime(ns Value) Value {
	return StructV{int64(0), ns, Ptr{}}
}

func (it *Interp) timeT(v Value) *Term {
	return it.i2t(v.(StructV)[1], 64)
}

func (it *Interp) advance(d Value) {
	it.sideEffect()
	it.clock = it.t2i(it.st.Bin(OAdd, it.i2t(it.clock, 64), it.i2t(d, 64)), true)
}

func (it *Interp) sbCell(p Value) Ptr {
	pp := p.(Ptr)
	if pp.c == nil {
		panic(it.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	s := (*pp.c).(StructV)
	return Ptr{c: &s[1], o: pp.o}
}

func (it *Interp) sbGet(p Value) Value {
	c := it.sbCell(p)
	if it.par != nil {
		it.par.access(it, c.c, c.o, false)
	}
	switch s := (*c.c).(type) {
	case Slice:
		return ""
	default:
		return s
	}
}

func (it *Interp) sbAppend(p, s Value) {
	c := it.sbCell(p)
	v := it.strConcat(it.sbGet(p), s)
	if it.par != nil {
		it.par.access(it, c.c, c.o, true)
	}
	it.setCell(c.c, c.o, v)
}

func sortSlice(it *Interp, fn *ssa.Function, a []Value) Value {
	ifc := a[0].(Iface)
	s, ok := ifc.v.(Slice)
	if !ok {
		unsup("sort.Slice of %T", ifc.v)
	}
	for i := 1; i < s.n; i++ {
		for j := i; j > 0; j-- {
			if !it.branch(it.call(a[1], []Value{int64(j), int64(j - 1)})) {
				break
			}
			x, y := cp(s.a[j]), cp(s.a[j-1])
			if it.par != nil {
				it.par.access(it, &s.a[j], s.o, true)
				it.par.access(it, &s.a[j-1], s.o, true)
			}
			it.storeCell(&s.a[j], s.o, y)
			it.storeCell(&s.a[j-1], s.o, x)
		}
	}
	return nil
}

// ---- assertions ----

func (it *Interp) modelInputs(m Model) []InputVal {
	var out []InputVal
	for _, in := range it.inputs {
		iv := InputVal{Kind: in.kind, Name: in.name}
		switch x := in.v.(type) {
		case bool:
			if x {
				iv.I = 1
			}
		case int64:
			iv.I = x
		case *Term:
			v := it.st.Eval(x, m)
			iv.I = sext(v, max(x.w, 1))
			if x.w == 8 || x.w == 0 {
				iv.I = int64(v)
			}
		case string:
			iv.S = []int{}
			for i := 0; i < len(x); i++ {
				iv.S = append(iv.S, int(x[i]))
			}
		case *SymStr:
			n := int(it.st.Eval(x.n, m))
			iv.S = []int{}
			for i := 0; i < n && i < len(x.b); i++ {
				iv.S = append(iv.S, int(it.st.Eval(x.b[i], m)))
			}
		}
		out = append(out, iv)
	}
	return out
}

func (it *Interp) evalStr(v Value, m Model) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		n := int(it.st.Eval(x.n, m))
		b := make([]byte, 0, n)
		for i := 0; i < n && i < len(x.b); i++ {
			b = append(b, byte(it.st.Eval(x.b[i], m)))
		}
		return string(b)
	}
	return "?"
}

func (it *Interp) evalObs(m Model) []ObsVal {
	var out []ObsVal
	for _, o := range it.obs {
		s := ""
		switch x := o.v.(type) {
		case bool:
			s = fmt.Sprint(x)
		case int64:
			s = fmt.Sprint(x)
		case *Term:
			v := it.st.Eval(x, m)
			if x.w == 0 {
				s = fmt.Sprint(v != 0)
			} else {
				_, signed, _ := intInfo(o.t)
				if signed {
					s = fmt.Sprint(sext(v, x.w))
				} else {
					s = fmt.Sprint(v)
				}
			}
		case string, *SymStr:
			s = strconv.Quote(it.evalStr(x, m))
		default:
			unsup("Observe of %T", o.v)
		}
		out = append(out, ObsVal{o.name, s})
	}
	return out
}

func (it *Interp) violation(kind, msg string, m Model) {
	it.run.mu.Lock()
	defer it.run.mu.Unlock()
	key := kind + "|" + msg
	it.run.violKeys[key]++
	if it.run.violKeys[key] > 4 || len(it.run.Viol) >= 40 {
		return
	}
	it.run.Viol = append(it.run.Viol, Violation{Harness: it.run.Harness, Kind: kind, Msg: msg, Inputs: it.modelInputs(m), Trail: append([]string(nil), it.parLog...)})
}

func (it *Interp) assertV(c Value, msg string) {
	if !it.fresh() {
		return
	}
	it.run.mu.Lock()
	it.run.Asserts++
	it.run.mu.Unlock()
	switch x := c.(type) {
	case bool:
		if !x {
			it.violation("assert", msg, it.model)
			panic(pathEnd{"violation"})
		}
	case *Term:
		switch it.simp(x, 6) {
		case 1:
			return
		}
		res, m := it.sol.Check(it.pc, it.st.Not(x))
		switch res {
		case Sat:
			it.violation("assert", msg, m)
			panic(pathEnd{"violation"})
		case Unknown:
			it.run.reduced("solver answered unknown for an assertion: " + msg)
		}
	}
}

func (it *Interp) cover(name string, c Value) {
	if !it.fresh() {
		return
	}
	it.run.mu.Lock()
	done := it.run.Covers[name] > 0
	if _, ok := it.run.Covers[name]; !ok {
		it.run.Covers[name] = 0
	}
	it.run.mu.Unlock()
	if done {
		return
	}
	ok := false
	switch x := c.(type) {
	case bool:
		ok = x
	case *Term:
		if it.st.Eval(x, it.model) != 0 {
			ok = true
		} else if it.simp(x, 6) != 0 {
			r, _ := it.sol.Check(it.pc, x)
			ok = r == Sat
		}
	}
	if ok {
		it.run.mu.Lock()
		it.run.Covers[name]++
		it.run.mu.Unlock()
	}
}

// ---- fmt ----

func (it *Interp) mkError(s Value, wrapped []Value) Value {
	switch len(wrapped) {
	case 0:
		f := it.findFunc("errors", "New")
		return it.callFn(f, []Value{s}, nil)
	case 1:
		p := it.prog.ImportedPackage("fmt")
		t := p.Type("wrapError")
		if t == nil {
			unsup("fmt.wrapError missing")
		}
		ptr := it.alloc(t.Type(), "wrapError")
		st := (*ptr.c).(StructV)
		st[0] = s
		st[1] = wrapped[0]
		return Iface{t: types.NewPointer(t.Type()), v: ptr}
	}
	unsup("Errorf with several %%w")
	return nil
}

func (it *Interp) sprint(args Slice, spaces bool) Value {
	var out Value = ""
	for i := 0; i < args.n; i++ {
		if i > 0 {
			sp := spaces
			if !sp {
				a, b := args.a[i-1].(Iface), args.a[i].(Iface)
				sp = !(a.t != nil && isString(a.t)) && !(b.t != nil && isString(b.t))
			}
			if sp {
				out = it.strConcat(out, " ")
			}
		}
		out = it.strConcat(out, it.fmtV(args.a[i], 'v', "", 0))
	}
	return out
}

func (it *Interp) sprintf(format Value, args Slice, wrapped *[]Value) Value {
	f, ok := format.(string)
	if !ok {
		unsup("symbolic format string")
	}
	var out Value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = it.strConcat(out, f[i:])
			break
		}
		out = it.strConcat(out, f[i:i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		flags := f[st:i]
		if i >= len(f) {
			out = it.strConcat(out, "%!(NOVERB)")
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = it.strConcat(out, "%")
			continue
		}
		if ai >= args.n {
			out = it.strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args.a[ai]
		ai++
		if verb == 'w' {
			if wrapped != nil {
				*wrapped = append(*wrapped, a)
			}
			verb = 'v'
		}
		out = it.strConcat(out, it.fmtV(a, verb, flags, 0))
	}
	if ai < args.n {
		out = it.strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (it *Interp) fmtV(a Value, verb byte, flags string, depth int) Value {
	ifc, ok := a.(Iface)
	if !ok {
		unsup("fmt of %T", a)
	}
	if ifc.t == nil {
		if verb == 's' || verb == 'd' || verb == 'q' {
			return "%!" + string(verb) + "(<nil>)"
		}
		return "<nil>"
	}
	if s, ok := ifc.v.(StructV); ok && len(s) == 3 && ifc.t.String() == "reflect.Value" && verb != 'T' {
		x := rget(ifc.v)
		if x.t == nil {
			return "<invalid reflect.Value>"
		}
		if rkind(x.t) == reflect.Interface {
			return it.fmtV(x.v, verb, flags, depth)
		}
		return it.fmtV(x, verb, flags, depth)
	}
	if verb == 'v' && flags == "#" {
		return it.goSyntax(ifc.t, ifc.v, depth)
	}
	if verb == 'T' {
		return strings.ReplaceAll(types.TypeString(ifc.t, func(p *types.Package) string { return p.Name() }), "interface {}", "interface {}")
	}
	if ifc.t == runtimeErrT {
		return ifc.v
	}
	if no, ok := ifc.v.(*nativeObj); ok {
		for _, m := range []string{"Error", "String"} {
			if f := no.methods[m]; f != nil {
				return f(it, nil)
			}
		}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if flags != "#" {
			for _, m := range []string{"Error", "String"} {
				fn := it.lookupMethod(ifc.t, m)
				if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
					if p, ok := ifc.v.(Ptr); ok && p.c == nil {
						return "<nil>"
					}
					s := it.callFn(fn, []Value{cp(ifc.v)}, nil)
					if verb == 'q' {
						return it.quote(s)
					}
					return s
				}
			}
		}
	}
	return it.fmtRaw(ifc.t, ifc.v, verb, flags, depth)
}

func (it *Interp) fmtRaw(t types.Type, v Value, verb byte, flags string, depth int) Value {
	if depth > 8 {
		unsup("fmt depth")
	}
	if flags != "" && flags != "+" {
		switch x := v.(type) {
		case string:
			return fmt.Sprintf("%"+flags+string(verb), x)
		case int64:
			return fmt.Sprintf("%"+flags+string(verb), x)
		}
		unsup("fmt flags %q", flags)
	}
	switch x := v.(type) {
	case bool:
		return fmt.Sprintf("%"+string(verb), x)
	case float64:
		return fmt.Sprintf("%"+string(verb), x)
	case int64:
		if a, ok := basicArg(t, x); ok {
			return fmt.Sprintf("%"+string(verb), a)
		}
		return fmt.Sprintf("%"+string(verb), x)
	case *Term:
		if x.w == 0 {
			if it.branch(x) {
				return "true"
			}
			return "false"
		}
		w, signed, _ := intInfo(t)
		_ = w
		_ = signed
		k := it.concretize(x, 0, 255)
		if a, ok := basicArg(t, int64(k)); ok {
			return fmt.Sprintf("%"+string(verb), a)
		}
		return fmt.Sprintf("%"+string(verb), k)
	case string:
		switch verb {
		case 'v', 's', 'q', 'x', 'X':
			return fmt.Sprintf("%"+string(verb), x)
		}
		return fmt.Sprintf("%%!%c(string=%s)", verb, x)
	case *SymStr:
		switch verb {
		case 'v', 's':
			return x
		case 'q':
			return it.quote(x)
		}
	case Ptr:
		if x.c == nil {
			return "<nil>"
		}
		if depth == 0 {
			if _, ok := (*x.c).(StructV); ok && verb != 'p' {
				return it.strConcat("&", it.fmtRaw(under(t).(*types.Pointer).Elem(), *x.c, verb, flags, depth+1))
			}
		}
		return "0xc000000000"
	case StructV:
		var out Value = "{"
		st := under(t).(*types.Struct)
		for i := range x {
			if i > 0 {
				out = it.strConcat(out, " ")
			}
			if flags == "+" {
				out = it.strConcat(out, st.Field(i).Name()+":")
			}
			out = it.strConcat(out, it.fmtField(st.Field(i).Type(), x[i], verb, flags, depth+1, st.Field(i).Exported()))
		}
		return it.strConcat(out, "}")
	case Slice:
		et := under(t).(*types.Slice).Elem()
		if b, ok := under(et).(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x') {
			return it.strFromBytes(x.a[:x.n])
		}
		var out Value = "["
		for i := 0; i < x.n; i++ {
			if i > 0 {
				out = it.strConcat(out, " ")
			}
			out = it.strConcat(out, it.fmtField(et, x.a[i], verb, flags, depth+1, true))
		}
		return it.strConcat(out, "]")
	case ArrayV:
		et := under(t).(*types.Array).Elem()
		var out Value = "["
		for i := range x {
			if i > 0 {
				out = it.strConcat(out, " ")
			}
			out = it.strConcat(out, it.fmtField(et, x[i], verb, flags, depth+1, true))
		}
		return it.strConcat(out, "]")
	case *MapObj:
		if x == nil || len(x.ents) == 0 {
			return "map[]"
		}
	case Iface:
		return it.fmtV(x, verb, flags, depth+1)
	}
	unsup("fmt %%%c of %s", verb, t)
	return nil
}

func (it *Interp) fmtField(t types.Type, v Value, verb byte, flags string, depth int, exported bool) Value {
	if _, ok := under(t).(*types.Interface); ok {
		return it.fmtV(v, verb, flags, depth)
	}
	if exported {
		return it.fmtV(Iface{t, v}, verb, flags, depth)
	}
	return it.fmtRaw(t, v, verb, flags, depth)
}

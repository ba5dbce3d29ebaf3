package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Terms: hash-consed QF_BV expressions. Width 0 is Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OExtract // val = low bit
	OZExt
	OSExt
)

var opName = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "extract", "zero_extend", "sign_extend"}

type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	val     uint64
	name    string
	// eval memo
	stamp int32
	ev    uint64
	// solver emission marker
	emitted int32
	// variables mentioned
	vset bitset
	ord  int
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

type Store struct {
	tab   map[termKey]*Term
	n     int32
	tru   *Term
	fls   *Term
	vars  []*Term
	stamp int32
}

func NewStore() *Store {
	s := &Store{tab: map[termKey]*Term{}}
	s.tru = s.mk(OConst, 0, nil, nil, nil, 1, "")
	s.fls = s.mk(OConst, 0, nil, nil, nil, 0, "")
	return s
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (s *Store) mk(op Op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := s.tab[k]; ok {
		return t
	}
	s.n++
	t := &Term{op: op, w: w, id: s.n, a: a, b: b, c: c, val: val, name: name}
	s.tab[k] = t
	if op == OVar {
		t.ord = len(s.vars)
		s.vars = append(s.vars, t)
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (s *Store) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return s.tru
		}
		return s.fls
	}
	return s.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (s *Store) Bool(b bool) *Term {
	if b {
		return s.tru
	}
	return s.fls
}
func (s *Store) Var(w uint8, name string) *Term { return s.mk(OVar, w, nil, nil, nil, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func (s *Store) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return s.Bool(a.val == 0)
	case ONot:
		return a.a
	}
	return s.mk(ONot, 0, a, nil, nil, 0, "")
}

func (s *Store) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == s.fls || b == s.fls {
		return s.fls
	}
	if a == s.tru {
		return b
	}
	if b == s.tru {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return s.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	// absorption: x & (x & y)
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return a
	}
	return s.mk(OAnd, 0, a, b, nil, 0, "")
}

func (s *Store) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == s.tru || b == s.tru {
		return s.tru
	}
	if a == s.fls {
		return b
	}
	if b == s.fls {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return s.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return a
	}
	return s.mk(OOr, 0, a, b, nil, 0, "")
}

func (s *Store) Ite(c, a, b *Term) *Term {
	if c == s.tru || a == b {
		return a
	}
	if c == s.fls {
		return b
	}
	if c.op == ONot {
		return s.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a == s.tru && b == s.fls {
			return c
		}
		if a == s.fls && b == s.tru {
			return s.Not(c)
		}
		if a == s.tru {
			return s.Or(c, b)
		}
		if b == s.fls {
			return s.And(c, a)
		}
		if a == s.fls {
			return s.And(s.Not(c), b)
		}
		if b == s.tru {
			return s.Or(s.Not(c), a)
		}
		if a == c {
			return s.Or(c, b)
		}
		if b == c {
			return s.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return s.mk(OIte, a.w, c, a, b, 0, "")
}

func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a == s.tru {
			return b
		}
		if b == s.tru {
			return a
		}
		if a == s.fls {
			return s.Not(b)
		}
		if b == s.fls {
			return s.Not(a)
		}
		if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
			return s.fls
		}
	} else {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OIte:
				// push into constant branches
				if a.b.isConst() || a.c.isConst() || a.b.op == OIte || a.c.op == OIte {
					return s.Ite(a.a, s.Eq(a.b, b), s.Eq(a.c, b))
				}
			case OZExt:
				if b.val > mask(a.a.w) {
					return s.fls
				}
				return s.Eq(a.a, s.Const(a.a.w, b.val))
			case OAdd:
				if a.b.isConst() {
					return s.Eq(a.a, s.Const(b.w, b.val-a.b.val))
				}
			case OSub:
				if a.b.isConst() {
					return s.Eq(a.a, s.Const(b.w, b.val+a.b.val))
				}
			}
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return s.Eq(a.a, b.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, 0, a, b, nil, 0, "")
}

// upper bound (unsigned) of a term, cheaply
func (s *Store) umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZExt:
		return s.umax(t.a)
	case OIte:
		if t.w <= 8 {
			return mask(t.w)
		}
		return s.umaxd(t, 12)
	}
	return mask(t.w)
}
func (s *Store) umaxd(t *Term, d int) uint64 {
	if d == 0 {
		return mask(t.w)
	}
	if t.op == OIte {
		x, y := s.umaxd(t.b, d-1), s.umaxd(t.c, d-1)
		if x > y {
			return x
		}
		return y
	}
	if t.op == OZExt {
		return s.umaxd(t.a, d-1)
	}
	if t.op == OConst {
		return t.val
	}
	return mask(t.w)
}

func (s *Store) Cmp(op Op, a, b *Term) *Term {
	if a == b {
		return s.Bool(op == OUle || op == OSle)
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return s.Bool(a.val < b.val)
		case OUle:
			return s.Bool(a.val <= b.val)
		case OSlt:
			return s.Bool(sext(a.val, a.w) < sext(b.val, b.w))
		case OSle:
			return s.Bool(sext(a.val, a.w) <= sext(b.val, b.w))
		}
	}
	if b.isConst() && constTree(a, 16) > 0 {
		return s.mapTree(a, func(x *Term) *Term { return s.Cmp(op, x, b) })
	}
	if a.isConst() && constTree(b, 16) > 0 {
		return s.mapTree(b, func(x *Term) *Term { return s.Cmp(op, a, x) })
	}
	// signed comparisons between terms known to be small non-negative become unsigned
	if op == OSlt || op == OSle {
		half := uint64(1) << (a.w - 1)
		ma, mb := s.umax(a), s.umax(b)
		if ma < half && mb < half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if b.isConst() && b.val >= half && ma < half {
			return s.fls // nonneg < negative
		} else if a.isConst() && a.val >= half && mb < half {
			return s.tru
		}
	}
	if op == OUlt || op == OUle {
		ma, mb := s.umax(a), s.umax(b)
		if b.isConst() {
			if op == OUlt && ma < b.val || op == OUle && ma <= b.val {
				return s.tru
			}
			if op == OUlt && b.val == 0 {
				return s.fls
			}
		}
		if a.isConst() {
			if op == OUlt && a.val >= mb {
				return s.fls
			}
			if op == OUle && a.val > mb {
				return s.fls
			}
			if op == OUle && a.val == 0 {
				return s.tru
			}
		}
		// strip zero extension
		if a.op == OZExt && b.isConst() && b.val <= mask(a.a.w) {
			return s.Cmp(op, a.a, s.Const(a.a.w, b.val))
		}
		if b.op == OZExt && a.isConst() && a.val <= mask(b.a.w) {
			return s.Cmp(op, s.Const(b.a.w, a.val), b.a)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return s.Cmp(op, a.a, b.a)
		}
	}
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return s.Ite(a.a, s.Cmp(op, a.b, b), s.Cmp(op, a.c, b))
	}
	if a.isConst() && b.op == OIte && (b.b.isConst() || b.c.isConst()) {
		return s.Ite(b.a, s.Cmp(op, a, b.b), s.Cmp(op, a, b.c))
	}
	return s.mk(op, 0, a, b, nil, 0, "")
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		a := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("evalBin")
}

func (s *Store) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("bin width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return s.Const(w, evalBin(op, w, a.val, b.val))
	}
	if b.isConst() && constTree(a, 16) > 0 {
		return s.mapTree(a, func(x *Term) *Term { return s.Bin(op, x, b) })
	}
	if a.isConst() && constTree(b, 16) > 0 {
		return s.mapTree(b, func(x *Term) *Term { return s.Bin(op, a, x) })
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return s.Bin(OAdd, a.a, s.Const(w, a.b.val+b.val))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return s.Ite(a.a, s.Bin(op, a.b, b), s.Bin(op, a.c, b))
			}
		}
	case OSub:
		if a == b {
			return s.Const(w, 0)
		}
		if b.isConst() {
			return s.Bin(OAdd, a, s.Const(w, -b.val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OUDiv, OSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if op == OSDiv && b.isConst() && bits.OnesCount64(b.val) == 1 && s.umax(a) < uint64(1)<<(w-1) {
			return s.Bin(OLshr, a, s.Const(w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	return s.mk(op, w, a, b, nil, 0, "")
}

// constTree counts the leaves of an if-then-else tree over constants, 0 if it is not one
// or has more than n leaves.
func constTree(t *Term, n int) int {
	if t.isConst() {
		return 1
	}
	if t.op != OIte || n <= 1 {
		return 0
	}
	x := constTree(t.b, n-1)
	if x == 0 {
		return 0
	}
	y := constTree(t.c, n-x)
	if y == 0 {
		return 0
	}
	return x + y
}

func (s *Store) mapTree(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return s.Ite(t.a, s.mapTree(t.b, f), s.mapTree(t.c, f))
	}
	return f(t)
}

func (s *Store) BNot(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.w, ^a.val)
	}
	return s.mk(OBNot, a.w, a, nil, nil, 0, "")
}
func (s *Store) Neg(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.w, -a.val)
	}
	return s.mk(ONeg, a.w, a, nil, nil, 0, "")
}

// Resize converts a to width w, sign- or zero-extending.
func (s *Store) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return s.Const(w, uint64(sext(a.val, a.w)))
		}
		return s.Const(w, a.val)
	}
	if w < a.w {
		if (a.op == OZExt || a.op == OSExt) && a.a.w >= w {
			return s.Resize(a.a, w, false)
		}
		if a.op == OZExt {
			return s.Resize(a.a, w, false)
		}
		if a.op == OIte {
			return s.Ite(a.a, s.Resize(a.b, w, signed), s.Resize(a.c, w, signed))
		}
		return s.mk(OExtract, w, a, nil, nil, 0, "")
	}
	if a.op == OZExt {
		return s.Resize(a.a, w, false)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return s.Ite(a.a, s.Resize(a.b, w, signed), s.Resize(a.c, w, signed))
	}
	if signed {
		return s.mk(OSExt, w, a, nil, nil, 0, "")
	}
	return s.mk(OZExt, w, a, nil, nil, 0, "")
}

// ---- evaluation under a model ----

type Model map[string]uint64

func (s *Store) Eval(t *Term, m Model) uint64 {
	s.stamp++
	return s.eval(t, m)
}
func (s *Store) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t.name] & maskb(t.w)
	}
	if t.stamp == s.stamp {
		return t.ev
	}
	var r uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - s.eval(t.a, m)
	case OAnd:
		r = s.eval(t.a, m)
		if r != 0 {
			r = s.eval(t.b, m)
		}
	case OOr:
		r = s.eval(t.a, m)
		if r == 0 {
			r = s.eval(t.b, m)
		}
	case OIte:
		if s.eval(t.a, m) != 0 {
			r = s.eval(t.b, m)
		} else {
			r = s.eval(t.c, m)
		}
	case OEq:
		r = b2(s.eval(t.a, m) == s.eval(t.b, m))
	case OUlt:
		r = b2(s.eval(t.a, m) < s.eval(t.b, m))
	case OUle:
		r = b2(s.eval(t.a, m) <= s.eval(t.b, m))
	case OSlt:
		r = b2(sext(s.eval(t.a, m), t.a.w) < sext(s.eval(t.b, m), t.a.w))
	case OSle:
		r = b2(sext(s.eval(t.a, m), t.a.w) <= sext(s.eval(t.b, m), t.a.w))
	case OBNot:
		r = ^s.eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -s.eval(t.a, m) & mask(t.w)
	case OExtract:
		r = s.eval(t.a, m) & mask(t.w)
	case OZExt:
		r = s.eval(t.a, m)
	case OSExt:
		r = uint64(sext(s.eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, s.eval(t.a, m), s.eval(t.b, m))
	}
	t.stamp = s.stamp
	t.ev = r
	return r
}
func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB ----

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d) %s", int(t.val)+int(t.w)-1, t.val, t.a.ref())
	case OZExt, OSExt:
		fmt.Fprintf(&sb, "(_ %s %d) %s", opName[t.op], t.w-t.a.w, t.a.ref())
	default:
		sb.WriteString(opName[t.op])
		sb.WriteByte(' ')
		sb.WriteString(t.a.ref())
		if t.b != nil {
			sb.WriteByte(' ')
			sb.WriteString(t.b.ref())
		}
		if t.c != nil {
			sb.WriteByte(' ')
			sb.WriteString(t.c.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (s *Store) size() int { return len(s.tab) }

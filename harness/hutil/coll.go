package main

import (
	"github.com/oarkflow/permission/utils"
	"verif/harness/nd"
)

// elem is an arbitrary element: a string, an int, a bool or nil.
func elem(name string) any {
	switch nd.Choice(name+" kind", 4) {
	case 0:
		return nd.Str(name, 1)
	case 1:
		return nd.Int(name, 0, 3)
	case 2:
		return nd.Bool(name)
	}
	return nil
}

// H_Compact: first occurrences, in order, nothing else; the input stays as it is.
func H_Compact() {
	n := nd.Choice("len", nd.P("len", 3)+1)
	in, keep := make([]any, n), make([]any, n)
	for i := range in {
		in[i] = elem("e")
		keep[i] = in[i]
	}
	q := elem("asked")
	out := utils.Compact(in)
	has := utils.Contains(in, q)
	nd.Observe("len", len(out))
	k := 0
	for i := range keep {
		nd.Assert(in[i] == keep[i], "the input is not modified")
		seen := false
		for j := 0; j < i; j++ {
			if keep[j] == keep[i] {
				seen = true
			}
		}
		if !seen {
			nd.Assert(k < len(out) && out[k] == keep[i], "de-duplication keeps the first occurrences in order")
			k++
		}
	}
	nd.CoverIf(k < n, "duplicate")
	nd.Assert(k == len(out), "de-duplication keeps nothing else")
	want := false
	for i := range keep {
		e := keep[i] == q
		want = want || e
	}
	nd.Observe("contains", has)
	nd.CoverIf(has, "contained")
	nd.CoverIf(!has, "not contained")
	nd.Assert(has == want, "membership answers exactly whether an equal element is present")
	nd.Assert(utils.Match(q, q) && utils.IsNil(q) == (q == nil), "an element matches itself")
	if n > 0 {
		nd.Assert(utils.Match(keep[0], q) == (keep[0] == q), "matching is equality")
	}
}

type pair struct{ l, r int }

// H_Join: exactly the combinations satisfying the condition, in order.
func H_Join() {
	l, r := make([]int, nd.Choice("left", nd.P("len", 3)+1)), make([]int, nd.Choice("right", nd.P("len", 3)+1))
	for i := range l {
		l[i] = nd.Int("l", 0, 100)
	}
	for i := range r {
		r[i] = nd.Int("r", 0, 100)
	}
	mode := nd.Choice("condition", 3)
	cond := func(a, b int) bool {
		switch mode {
		case 0:
			return a == b
		case 1:
			return a < b
		}
		return a&1 == 0 && b > 50
	}
	out := utils.JoinSlices(l, r, func(a, b int) bool { return cond(a, b) }, func(a, b int) pair { return pair{a, b} })
	k := 0
	for _, a := range l {
		for _, b := range r {
			if cond(a, b) {
				nd.Assert(k < len(out) && out[k].l == a && out[k].r == b, "the join holds every combination satisfying the condition, in order")
				k++
			}
		}
	}
	nd.Observe("len", len(out))
	nd.CoverIf(k > 1, "several")
	nd.Assert(k == len(out), "the join holds nothing else")
}

type rec struct{ a, b, c any }

// H_Filter: a row passes exactly when every selected field is present and equal.
func H_Filter() {
	row, filter := rec{elem("a"), elem("b"), nil}, rec{elem("fa"), elem("fb"), nil}
	if nd.Choice("c", 2) == 1 {
		row.c, filter.c = "z", "z"
	}
	var sel []func(*rec) any
	fa, fb, fc := func(x *rec) any { return x.a }, func(x *rec) any { return x.b }, func(x *rec) any { return x.c }
	pa, pb, pc := nd.Choice("a selected", 2) == 1, nd.Choice("b selected", 2) == 1, nd.Choice("c selected", 2) == 1
	if pa {
		sel = append(sel, fa)
	}
	if pc {
		sel = append(sel, fc)
	}
	if pb {
		sel = append(sel, fb)
	}
	got := utils.FilterByFields(&filter, &row, sel...)
	a := row.a != nil && row.a == filter.a
	b := row.b != nil && row.b == filter.b
	c := row.c != nil
	nd.Observe("passes", got)
	nd.CoverIf(got, "passes")
	nd.CoverIf(!got, "fails")
	nd.Assert(got == ((!pa || a) && (!pb || b) && (!pc || c)), "a row passes exactly when its selected fields are present and equal")
}

type named struct{ s string }

func (n named) String() string { return n.s }

// H_Text: strings and byte slices are returned unchanged.
func H_Text() {
	s := nd.Str("s", nd.P("len", 4))
	nd.Assert(utils.ToString(s) == s, "a string is returned unchanged")
	b := make([]byte, len(s))
	for i := range b {
		b[i] = s[i]
	}
	nd.Assert(utils.FromByte(b) == s, "bytes convert to the same string")
	nd.Assert(utils.ToString(b) == s, "a byte slice is returned as the same text")
	nd.Assert(utils.ToString(nil) == "", "nil is empty")
	nd.Assert(utils.ToString(named{s}) == s, "a stringer is returned as its string")
	c := utils.ToByte(s)
	nd.Assert(len(c) == len(s), "a string converts to as many bytes")
	k := nd.Int("k", 0, 3)
	if k < len(c) {
		nd.Assert(c[k] == s[k], "a string converts to the same bytes")
	}
	nd.Observe("text", utils.ToString(b))
}

// H_Pools: a pooled slice is handed out empty whatever was put back, and a pooled object is one
// made or put back.
func H_Pools() {
	p := utils.NewSlicePool[int](2)
	for i := 0; i < nd.P("rounds", 3); i++ {
		x := p.Get()
		nd.Assert(len(x) == 0, "a pooled slice is handed out empty")
		for j := nd.Choice("appended", 4); j > 0; j-- {
			x = append(x, nd.Int("e", 0, 9))
		}
		y := p.Get()
		nd.Assert(len(y) == 0, "a second pooled slice is handed out empty")
		y = append(y, 7)
		if len(x) > 0 {
			x[0] = 5
			nd.Assert(y[0] == 7, "two slices handed out at once do not share elements")
		}
		if nd.Choice("back", 2) == 1 {
			p.Put(x)
		}
		if nd.Choice("other back", 2) == 1 {
			p.Put(y)
		}
	}
	made := 0
	q := utils.New(func() *int { made++; v := made; return &v })
	a := q.Get()
	nd.Assert(a != nil && *a == 1, "an empty pool makes an object")
	b := q.Get()
	nd.Assert(a != b, "two objects handed out at once are different")
	q.Put(a)
	c := q.Get()
	nd.Assert(c != b, "an object in use is not handed out again")
	nd.Observe("done", true)
}

// H_CollBig: slices of many elements of which one is arbitrary.
func H_CollBig() {
	n := nd.P("len", 70)
	in, nums := make([]any, n), make([]int, n)
	at, is := nd.Choice("position", 2)*(n-1), nd.Int("element", 0, n)
	for i := range in {
		nums[i] = i
		if i == at {
			nums[i] = is
		}
		in[i] = nums[i]
	}
	repeated := is < n && is != at
	out := utils.Compact(in)
	want := n
	if repeated {
		want--
	}
	nd.Observe("len", len(out))
	nd.CoverIf(repeated, "duplicate")
	nd.CoverIf(!repeated, "no duplicate")
	nd.Assert(len(out) == want, "de-duplication of many elements drops exactly the repeated ones")
	q := nd.Int("asked", 0, n+1)
	has := q < n && q != at || q == is
	nd.Assert(utils.Contains(in, any(q)) == has, "membership among many elements")
	j := utils.JoinSlices(nums, []int{q, is}, func(a, b int) bool { return a == b }, func(a, b int) int { return a })
	c := 0
	for _, x := range nums {
		for _, y := range []int{q, is} {
			e := x == y
			if e {
				c++
			}
		}
	}
	nd.Assert(len(j) == c, "the join of many elements has every combination")
}

// H_CollTwice: the helpers called again; each result is that of its own operands and the first
// results stay as they were.
func H_CollTwice() {
	n := nd.P("len", 2)
	a, b := make([]any, n), make([]any, n)
	for i := range a {
		a[i], b[i] = elem("a"), elem("b")
	}
	outs := [][]any{utils.Compact(a), utils.Compact(b), utils.Compact(a)}
	for r, in := range [][]any{a, b, a} {
		k := 0
		for i := range in {
			seen := false
			for j := 0; j < i; j++ {
				if in[j] == in[i] {
					seen = true
				}
			}
			if !seen {
				nd.Assert(k < len(outs[r]) && outs[r][k] == in[i], "de-duplication does not depend on earlier calls")
				k++
			}
		}
		nd.CoverIf(k < n, "duplicate")
		nd.Assert(k == len(outs[r]), "de-duplication keeps nothing of an earlier call")
	}
	nd.Observe("len", len(outs[1]))
}

type entry struct{ A, B string }

// H_SetTwice: two unions and intersections in a row; each result is that of its own operands.
func H_SetTwice() {
	l := nd.P("len", 1)
	x, y, z := entry{text("x", l), text("x", l)}, entry{text("y", l), text("y", l)}, entry{text("z", l), text("z", l)}
	i1 := utils.Intersection([]entry{x}, []entry{y})
	i2 := utils.Intersection([]entry{y}, []entry{z})
	u1 := utils.Union([]entry{x}, []entry{y})
	u2 := utils.Union([]entry{y}, []entry{z})
	xy, yz := x == y, y == z
	nd.Observe("first", len(i1))
	nd.CoverIf(xy && !yz, "the first are equal")
	nd.CoverIf(!xy && yz, "the last are equal")
	nd.Assert((len(i1) == 1) == xy && (len(i2) == 1) == yz, "an intersection does not depend on earlier calls")
	nd.Assert((len(u1) == 1) == xy && (len(u2) == 1) == yz, "a union does not depend on earlier calls")
	nd.Assert(u1[0] == x && u2[0] == y, "a union begins with the first operand")
}

// H_CollSpare: operands that are parts of longer arrays; no cell of the arrays is touched, and a
// result stays as it is when the operand is extended.
func H_CollSpare() {
	n := nd.P("len", 2)
	whole, nums := make([]any, 2*n), make([]int, 2*n)
	keep, knums := make([]any, 2*n), make([]int, 2*n)
	for i := range whole {
		whole[i], nums[i] = elem("e"), nd.Int("n", 0, 9)
		keep[i], knums[i] = whole[i], nums[i]
	}
	out := utils.Compact(whole[:n])
	utils.Contains(whole[:n], elem("asked"))
	j := utils.JoinSlices(nums[:n], nums[:n], func(a, b int) bool { return a <= b }, func(a, b int) int { return a + b })
	for i := range keep {
		nd.Assert(whole[i] == keep[i] && nums[i] == knums[i], "nothing around an operand is modified")
	}
	first, number := out[0], len(j)
	_ = append(append(whole[:0], "q"), "q")
	_ = append(append(nums[:0], 77), 77)
	nd.Assert(out[0] == first && first == keep[0], "a result stays as it is when an operand is written to")
	k := 0
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if knums[a] <= knums[b] {
				nd.Assert(k < number && j[k] == knums[a]+knums[b], "a join stays as it is when an operand is written to")
				k++
			}
		}
	}
	nd.CoverIf(k > n, "several")
	nd.Observe("joined", number)
}

// H_SetSpare: operands that are parts of longer arrays; no cell of the arrays is touched.
func H_SetSpare() {
	n := nd.P("items", 2)
	item := func(name string) entry { return entry{nd.Pick(name+" A", "u", "w", ""), nd.Pick(name+" B", "u", "")} }
	whole, keep := make([]entry, 3*n), make([]entry, 3*n)
	for i := range whole {
		whole[i] = item("item")
		keep[i] = whole[i]
	}
	a, b := whole[:n], whole[n:2*n]
	u := utils.Union(a, b)
	i := utils.Intersection(a, b)
	v := utils.Union(b, a)
	for k := range keep {
		nd.Assert(whole[k] == keep[k], "nothing around an operand is modified")
	}
	nd.CoverIf(len(i) > 0 && len(u) > n, "common and other items")
	in := func(x entry, s []entry) bool {
		for _, y := range s {
			if x == y {
				return true
			}
		}
		return false
	}
	k, l := n, n
	for m := 0; m < n; m++ {
		nd.Assert(u[m] == a[m] && v[m] == b[m], "a union begins with the first operand")
		if !in(b[m], a) {
			nd.Assert(k < len(u) && u[k] == b[m], "the union goes on with the items of the second that do not occur in the first")
			k++
		}
		if !in(a[m], b) {
			nd.Assert(l < len(v) && v[l] == a[m], "the other union goes on with the items of its second that do not occur in its first")
			l++
		}
	}
	nd.Assert(k == len(u) && l == len(v), "the unions hold nothing else")
	nd.Observe("common", len(i))
}

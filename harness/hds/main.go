// Harnesses for package ds (C19).
package main

import (
	"github.com/oarkflow/permission/ds"
	"verif/harness/nd"
)

func main() {
	nd.Main(map[string]func(){"H_LinkProgram": H_LinkProgram, "H_LinkIndex": H_LinkIndex, "H_LinkBig": H_LinkBig})
}

func same(a []int, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}

// H_LinkProgram runs an arbitrary program of empty/append/concat/slice/overwrite operations
// and after each step compares every sequence and every extracted slice with its model.
func H_LinkProgram() {
	n := nd.P("ops", 4)
	links := []ds.Link[int]{ds.Empty[int]()}
	model := [][]int{{}}
	var slices [][]int
	var sliceModel [][]int
	for k := 0; k < n; k++ {
		switch nd.Choice("op", 5) {
		case 0:
			links = append(links, ds.Empty[int]())
			model = append(model, []int{})
		case 1:
			i := nd.Choice("of", len(links))
			e := nd.Int("e", 0, 1000000)
			links = append(links, links[i].Append(e))
			m := make([]int, 0, len(model[i])+1)
			m = append(m, model[i]...)
			model = append(model, append(m, e))
		case 2:
			i, j := nd.Choice("left", len(links)), nd.Choice("right", len(links))
			links = append(links, links[i].Concat(links[j]))
			m := make([]int, 0, len(model[i])+len(model[j]))
			m = append(m, model[i]...)
			model = append(model, append(m, model[j]...))
		case 3:
			i := nd.Choice("sliced", len(links))
			s := links[i].AsSlice()
			slices = append(slices, s)
			c := make([]int, len(s))
			copy(c, s)
			sliceModel = append(sliceModel, c)
			nd.Assert(same(s, model[i]), "an extracted slice holds the elements in order")
		case 4:
			nd.Assume(len(slices) > 0)
			i := nd.Choice("overwritten", len(slices))
			e := nd.Int("x", 0, 1000000)
			if nd.Bool("grow") {
				// appending must not reach into any other slice or sequence
				slices[i] = append(slices[i], e)
				sliceModel[i] = append(sliceModel[i][:len(sliceModel[i]):len(sliceModel[i])], e)
			} else {
				nd.Assume(len(slices[i]) > 0)
				p := nd.Choice("pos", len(slices[i]))
				slices[i][p] = e
				sliceModel[i][p] = e
			}
			nd.Cover("slice changed")
		}
		for i := range links {
			nd.Assert(links[i].IsEmpty() == (len(model[i]) == 0), "emptiness agrees with the contents")
			nd.Assert(same(links[i].AsSlice(), model[i]), "a sequence keeps its elements in order")
		}
		for i := range slices {
			nd.Assert(same(slices[i], sliceModel[i]), "an extracted slice never changes")
		}
	}
	for i := range links {
		for j, v := range links[i].AsSlice() {
			_ = j
			nd.Observe("elem", v)
		}
	}
	nd.CoverIf(len(model[len(model)-1]) >= 2, "two elements")
}

// build makes a sequence of n elements in one of several shapes and returns it with its model.
func build(name string, n int) (ds.Link[int], []int) {
	l, m := ds.Empty[int](), []int{}
	shape := nd.Choice(name+" shape", 3)
	for i := 0; i < n; i++ {
		e := nd.Int(name, 0, 1000000)
		m = append(m, e)
		switch shape {
		case 0:
			l = l.Append(e)
		case 1:
			l = l.Concat(ds.Empty[int]().Append(e))
		case 2:
			if i%2 == 0 {
				l = l.Append(e)
			} else {
				l = ds.Empty[int]().Concat(l).Concat(ds.Empty[int]().Append(e)).Concat(ds.Empty[int]())
			}
		}
	}
	return l, m
}

// H_LinkIndex: two extensions of the same sequence, any position of any of them, any write to
// or growth of an extracted slice.
func H_LinkIndex() {
	max := nd.P("len", 4)
	a, ma := build("a", nd.Choice("a len", max+1))
	b, mb := build("b", nd.Choice("b len", max+1))
	e, f := nd.Int("e", 0, 1000000), nd.Int("f", 0, 1000000)
	before := a.AsSlice()
	c := a.Concat(b)
	x, y := c.Append(e), c.Append(f)
	z := a.Append(f)
	xs := x.AsSlice()
	n := len(ma) + len(mb)
	nd.Assert(len(xs) == n+1 && len(y.AsSlice()) == n+1 && len(c.AsSlice()) == n, "the length is that of the operands")
	nd.Assert(len(z.AsSlice()) == len(ma)+1, "the length of an extension")
	k := nd.Int("position", 0, n)
	want := e
	if k < len(ma) {
		want = ma[k]
	} else if k < n {
		want = mb[k-len(ma)]
	}
	nd.Observe("at", xs[k])
	nd.Assert(xs[k] == want, "every position of a concatenation holds the element of its operand")
	w := nd.Int("overwritten", 0, n)
	xs[w] = 7
	xs = append(xs, 8)
	if w < len(before) {
		before[w] = 9
	}
	_ = append(before, 10)
	got := y.AsSlice()[k]
	if k == n {
		want = f
	}
	nd.Assert(got == want, "a sibling sequence is not affected by writes to an extracted slice")
	if k == n {
		want = e
	}
	nd.Assert(x.AsSlice()[k] == want, "a sequence is not affected by writes to its extracted slice")
	if k <= len(ma) {
		if k == len(ma) {
			want = f
		}
		nd.Assert(z.AsSlice()[k] == want, "an earlier sequence keeps its elements")
	}
	nd.CoverIf(len(ma) > 0 && len(mb) > 0, "both operands hold elements")
}

// H_LinkBig: two sequences of many elements in several shapes, put together; any position.
func H_LinkBig() {
	n := nd.P("len", 70)
	a, ma := build("a", n)
	b, mb := build("b", nd.Choice("b len", 3)*n/2)
	c, s := a.Concat(b), a.AsSlice()
	all := append(append([]int{}, ma...), mb...)
	got := c.AsSlice()
	nd.Assert(len(got) == len(all) && len(s) == n, "long sequences keep every element")
	i := nd.Int("position", 0, len(all)-1)
	nd.Observe("element", got[i])
	nd.Assert(got[i] == all[i], "long sequences keep their elements in order")
	s[0] = -1
	nd.Assert(c.AsSlice()[0] == ma[0] && a.AsSlice()[0] == ma[0], "a slice taken from a sequence is separate")
	nd.Cover("checked")
}

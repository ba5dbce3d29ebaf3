// Harnesses for package trie and the root package's row store (C10).
package main

import (
	permission "github.com/oarkflow/permission"
	"github.com/oarkflow/permission/trie"
	"verif/harness/nd"
)

func main() {
	nd.Main(map[string]func(){"H_TrieRows": H_TrieRows, "H_TrieFields": H_TrieFields, "H_TrieMany": H_TrieMany, "H_TrieBig": H_TrieBig, "H_TrieVar": H_TrieVar, "H_TrieTypes": H_TrieTypes})
}

// field is an arbitrary key field: absent or any short string.
func field(name string, k int) any {
	if nd.Choice(name+" absent", 2) == 1 {
		return nil
	}
	return nd.Str(name, k)
}

type row struct {
	k [3]any
	v int
}

func same(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := a.(string), b.(string)
	return x == y
}

// fits: the filter's given fields equal the row's.
func fits(f, r *row) bool {
	ok := true
	for i := range f.k {
		eq := same(f.k[i], r.k[i])
		given := f.k[i] != nil
		ok = ok && (!given || eq)
	}
	return ok
}

// H_TrieRows: arbitrary rows inserted, arbitrary filter; the result is exactly the latest of each
// distinct row that fits.
func H_TrieRows() {
	n := nd.P("rows", 3)
	t := trie.New(func(f, r *row) bool { return fits(f, r) }, func(r *row) []any { return []any{r.k[0], r.k[1], r.k[2]} })
	var rows []*row
	for i := 0; i < n; i++ {
		r := &row{v: i}
		for j := 0; j < nd.P("fields", 2); j++ {
			r.k[j] = field("key", nd.P("len", 1))
		}
		t.Insert(r)
		rows = append(rows, r)
	}
	replaced := make([]bool, n)
	for i := range rows {
		for j := i + 1; j < n; j++ {
			eq := true
			for x := range rows[i].k {
				e := same(rows[i].k[x], rows[j].k[x])
				eq = eq && e
			}
			replaced[i] = replaced[i] || eq
		}
	}
	f := &row{}
	f.k[0] = field("filter", nd.P("len", 1))
	f.k[1] = field("filter", nd.P("len", 1))
	got := t.Search(f)
	all := t.Data()
	custom := t.SearchFunc(f, func(f, r *row) bool { return !fits(f, r) })
	first := t.First(f)
	nd.Observe("found", len(got))
	any := false
	for i, r := range rows {
		c, d, e := 0, 0, 0
		for _, g := range got {
			if g == r {
				c++
			}
		}
		for _, g := range all {
			if g == r {
				d++
			}
		}
		for _, g := range custom {
			if g == r {
				e++
			}
		}
		ok := fits(f, r)
		want := ok && !replaced[i]
		any = any || want
		nd.CoverIf(want, "row found")
		nd.CoverIf(replaced[i], "row replaced")
		nd.Assert(c <= 1 && (c == 1) == want, "a search returns each fitting row exactly once and no other")
		nd.Assert(d <= 1 && (d == 1) == !replaced[i], "all rows are listed exactly once")
		nd.Assert(e <= 1 && (e == 1) == (!ok && !replaced[i]), "a search with a predicate returns exactly the rows satisfying it")
	}
	nd.Assert((first != nil) == any, "a first-match search finds a row exactly when one fits")
	if first != nil {
		is := false
		for i, r := range rows {
			if r == first {
				fit := fits(f, r)
				is = fit && !replaced[i]
			}
		}
		nd.Assert(is, "the first match is a stored row that fits")
	}
	for _, g := range got {
		known := false
		for _, r := range rows {
			known = known || g == r
		}
		nd.Assert(known, "nothing but inserted rows is returned")
	}
}

func get(d *permission.Data, i int) any {
	return []any{d.Tenant, d.Namespace, d.Scope, d.Principal, d.Role}[i]
}

func set(d *permission.Data, i int, v any) {
	switch i {
	case 0:
		d.Tenant = v
	case 1:
		d.Namespace = v
	case 2:
		d.Scope = v
	case 3:
		d.Principal = v
	case 4:
		d.Role = v
	}
}

// H_TrieFields: the root package's rows, two fields of all chosen, with equal identifiers across
// fields, and its filter.
func H_TrieFields() {
	m := permission.New()
	x, y := nd.Choice("field", 5), nd.Choice("other field", 5)
	nd.Assume(x < y)
	n := nd.P("rows", 2)
	var rows []*permission.Data
	for i := 0; i < n; i++ {
		d := &permission.Data{Tenant: "a"}
		set(d, x, field("key", 1))
		set(d, y, field("key", 1))
		switch nd.Choice("manage", 3) {
		case 1:
			d.ManageDescendants = true
		case 2:
			d.ManageDescendants = false
		}
		m.AddData(d)
		rows = append(rows, d)
	}
	f := &permission.Data{}
	set(f, x, field("filter", 1))
	set(f, y, field("filter", 1))
	if nd.Choice("filter manage", 2) == 1 {
		f.ManageDescendants = true
	}
	got := m.Source().Search(f)
	nd.Observe("found", len(got))
	for i, r := range rows {
		gone := false
		for _, s := range rows[i+1:] {
			eq := true
			for k := 0; k < 5; k++ {
				e := same(get(r, k), get(s, k))
				eq = eq && e
			}
			gone = gone || eq && r.ManageDescendants == s.ManageDescendants
		}
		ok := f.ManageDescendants == nil || r.ManageDescendants == true
		for k := 0; k < 5; k++ {
			e := same(get(f, k), get(r, k))
			given := get(f, k) != nil
			ok = ok && (!given || e)
		}
		c := 0
		for _, g := range got {
			if g == r {
				c++
			}
		}
		nd.CoverIf(ok && !gone, "row found")
		nd.CoverIf(gone, "row replaced")
		nd.Assert(c <= 1 && (c == 1) == (ok && !gone), "a search returns exactly the stored rows that satisfy the filter")
	}
	nd.Assert(len(got) <= n+2, "nothing else is returned")
}

// H_TrieMany: more matching rows than any initial capacity.
func H_TrieMany() { trieMany(nd.P("rows", 23)) }

// H_TrieBig: the same with more rows, which lie side by side or below a common part, and one of them again.
func H_TrieBig() { trieMany(nd.P("rows", 70)) }

func trieMany(n int) {
	nd.MapOrder(1)
	t := trie.New(func(f, r *row) bool { return fits(f, r) }, func(r *row) []any { return []any{r.k[0], r.k[1], r.k[2]} })
	var rows []*row
	odd := nd.Int("other", 0, n)
	below := nd.Choice("below a common part", 2) == 1
	for i := 0; i < n; i++ {
		r := &row{v: i}
		r.k[0] = "t"
		other := odd == i
		if other {
			r.k[0] = "u"
		}
		r.k[1] = string([]byte{'a' + byte(i/20), 'a' + byte(i%20)})
		if below {
			r.k[1], r.k[2] = string([]byte{'a' + byte(i/20)}), string([]byte{'a' + byte(i%20)})
		}
		t.Insert(r)
		rows = append(rows, r)
	}
	// two more whose keys are parts of the others' keys
	for i, at := range []int{0, 1} {
		r := &row{v: n + i}
		key := nd.Pick("short key", "a", "b", "", "ab")
		r.k[0], r.k[1] = "t", key
		if below {
			r.k[1], r.k[2] = "zz", key
		}
		if at == 1 {
			same := r.k[1] == rows[n].k[1] && r.k[2] == rows[n].k[2]
			nd.Assume(!same)
		}
		known := false
		for _, x := range rows[:n] {
			e := x.k[1] == r.k[1] && x.k[2] == r.k[2]
			known = known || e
		}
		nd.Assume(!known)
		t.Insert(r)
		rows = append(rows, r)
	}
	got := t.Search(&row{k: [3]any{"t"}})
	nd.Observe("found", len(got))
	for i, r := range rows {
		c := 0
		for _, g := range got {
			if g == r {
				c++
			}
		}
		want := odd != i || i >= n
		nd.CoverIf(want, "row found")
		nd.Assert(c <= 1 && (c == 1) == want, "however many rows fit, each is returned once")
	}
	nd.Assert(len(got) <= n+2, "nothing else is returned")
}

type vrow struct {
	k []any
	v int
}

func vsame(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		e := ksame(a[i], b[i])
		eq = eq && e
	}
	return eq
}

func ksame(a, b any) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
	case int:
		if y, ok := b.(int); ok {
			return x == y
		}
	case nil:
		return b == nil
	}
	return false
}

// H_TrieVar: keys of different lengths and types, so that one row's key may be a prefix of
// another's; searches between the insertions.
func H_TrieVar() {
	n := nd.P("rows", 3)
	t := trie.New(func(f, r *vrow) bool { return f.v == r.v }, func(r *vrow) []any { return r.k })
	var rows []*vrow
	replaced := make([]bool, n)
	for i := 0; i < n; i++ {
		r := &vrow{k: make([]any, nd.Choice("key length", nd.P("len", 2)+1)), v: nd.Int("value", 0, 1)}
		for j := range r.k {
			switch nd.Choice("key type", 3) {
			case 0:
				r.k[j] = nd.Str("key", 1)
			case 1:
				r.k[j] = nd.Int("key", 0, 1)
			}
		}
		for j, x := range rows {
			e := vsame(r.k, x.k)
			replaced[j] = replaced[j] || e
		}
		t.Insert(r)
		rows = append(rows, r)
		f := &vrow{v: nd.Int("wanted", 0, 1)}
		got, all := t.Search(f), t.Data()
		odd := t.FirstFunc(f, func(f, r *vrow) bool { return f.v != r.v })
		some := false
		total := 0
		for j, x := range rows {
			c, d := 0, 0
			for _, g := range got {
				if g == x {
					c++
				}
			}
			for _, g := range all {
				if g == x {
					d++
				}
			}
			there := !replaced[j]
			fit := x.v == f.v
			some = some || there && !fit
			total += d
			nd.CoverIf(there && fit, "row found")
			nd.CoverIf(!there, "row replaced")
			nd.Assert(c <= 1 && (c == 1) == (there && fit), "a search returns each fitting row exactly once and no other")
			nd.Assert(d <= 1 && (d == 1) == there, "all rows are listed exactly once")
		}
		nd.Assert(len(all) == total, "nothing but inserted rows is listed")
		nd.Assert((odd != nil) == some, "a first-match search finds a row exactly when one satisfies the predicate")
		if odd != nil {
			nd.Assert(odd.v != f.v, "the first match satisfies the predicate")
		}
		nd.Observe("listed", len(all))
	}
}

// H_TrieTypes: keys that print alike but have different types are different.
func H_TrieTypes() {
	values := []any{nil, 1, int64(1), uint8(1), "1", true, "true", "", 0, [1]int{1}}
	eq := func(i, j int) bool { return i == j }
	t := trie.New(func(_, _ *row) bool { return true }, func(r *row) []any { return []any{r.k[0], r.k[1]} })
	type pair struct{ a, b int }
	var keys []pair
	var rows []*row
	for i := 0; i < 2; i++ {
		k := pair{nd.Choice("first key", len(values)), nd.Choice("second key", 4)}
		r := &row{v: i}
		r.k[0], r.k[1] = values[k.a], values[k.b]
		t.Insert(r)
		keys, rows = append(keys, k), append(rows, r)
	}
	all := t.Data()
	nd.Observe("found", len(all))
	replaced := eq(keys[0].a, keys[1].a) && eq(keys[0].b, keys[1].b)
	nd.CoverIf(replaced, "row replaced")
	for i, r := range rows {
		c := 0
		for _, g := range all {
			if g == r {
				c++
			}
		}
		want := 1
		if i == 0 && replaced {
			want = 0
		}
		nd.Assert(c == want, "rows whose keys differ in type are distinct")
	}
	nd.Assert(len(all) == 2 || replaced && len(all) == 1, "nothing else is stored")
}

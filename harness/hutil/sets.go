package main

import (
	"github.com/oarkflow/permission/utils"
	"verif/harness/nd"
)

type texts struct{ A, B string }

type mixed struct {
	A any
	N int
	F bool
}

// text is an arbitrary ASCII string up to that length.
func text(name string, max int) string {
	s := nd.Str(name, max)
	for i := 0; i < max; i++ {
		nd.Assume(i >= len(s) || s[i] < 0x80)
	}
	return s
}

// letters is an arbitrary string of that length or less over the characters that mean something
// in a rendering, and one that does not.
func letters(name string, max int) string {
	n := nd.Choice(name+" length", max+1)
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte(name)
		nd.Assume(c == '|' || c == ':' || c == 'A' || c == 'B' || c == '"' || c == ' ' || c == ',' || c == 'x')
		b[i] = c
	}
	return string(b)
}

// sets checks both operations against equality of items.
func sets[T any](a, b []T, eq func(x, y T) bool) {
	in := func(x T) bool {
		r := false
		for _, y := range a {
			e := eq(x, y)
			r = r || e
		}
		return r
	}
	var both, all []T
	all = append(all, a...)
	for _, x := range b {
		if in(x) {
			both = append(both, x)
		} else {
			all = append(all, x)
		}
	}
	same := func(got, want []T, msg string) {
		nd.Assert(len(got) == len(want), msg+" (number)")
		for i := range want {
			nd.Assert(eq(got[i], want[i]), msg)
		}
	}
	i, u := utils.Intersection(a, b), utils.Union(a, b)
	nd.CoverIf(len(both) > 0, "common items")
	nd.CoverIf(len(both) == 0, "no common items")
	same(i, both, "the intersection holds the items of the second that occur in the first")
	same(u, all, "the union holds the first and the items of the second that do not occur in it")
	nd.Observe("common", len(i))
	nd.Observe("all", len(u))
}

// H_SetStructs: items that are structures of strings.
func H_SetStructs() {
	n := nd.P("len", 2)
	item := func() texts { return texts{text("A", n), text("B", n)} }
	a, b := []texts{item()}, []texts{item()}
	for i := 1; i < nd.P("items", 1); i++ {
		a, b = append(a, item()), append(b, item())
	}
	sets(a, b, func(x, y texts) bool { return x == y })
}

// H_SetDelimiters: structures of longer strings made of delimiters.
func H_SetDelimiters() {
	n := nd.P("len", 3)
	a, b := texts{letters("A", n), letters("B", n)}, texts{letters("A", n), letters("B", n)}
	sets([]texts{a}, []texts{b}, func(x, y texts) bool { return x == y })
}

// H_SetMixed: items with fields of any type.
func H_SetMixed() {
	item := func() mixed {
		m := mixed{N: nd.Int("N", 0, 11), F: nd.Bool("F")}
		switch nd.Choice("A", 6) {
		case 0:
		case 1:
			m.A = nd.Int("int", 0, 1)
		case 2:
			m.A = text("text", 1)
		case 3:
			m.A = nd.Bool("bool")
		case 4:
			m.A = int64(nd.Int("int64", 0, 1))
		case 5:
			m.A = named{text("stringer", 1)}
		}
		return m
	}
	sets([]mixed{item()}, []mixed{item()}, func(x, y mixed) bool { return x == y })
}

// H_SetMaps: items that are maps from strings.
func H_SetMaps() {
	nd.MapOrder(1)
	item := func() map[string]string {
		m := map[string]string{}
		if n := nd.Choice("entries", 3); n == 1 {
			m[text("key", nd.P("len", 1))] = text("value", nd.P("len", 1))
		} else {
			for ; n > 0; n-- {
				m[nd.Pick("key", "u", ":", " ")] = text("value", nd.P("len", 1))
			}
		}
		return m
	}
	sets([]map[string]string{item()}, []map[string]string{item()}, func(x, y map[string]string) bool {
		r := len(x) == len(y)
		for k, v := range x {
			w, ok := y[k]
			e := ok && v == w
			r = r && e
		}
		return r
	})
}

// H_SetIntMaps: items that are maps from numbers.
func H_SetIntMaps() {
	nd.MapOrder(2)
	item := func() map[int]string {
		m := map[int]string{}
		for i := nd.Choice("entries", 3); i > 0; i-- {
			m[nd.Choice("key", 3)] = nd.Pick("value", "u", "w")
		}
		return m
	}
	sets([]map[int]string{item()}, []map[int]string{item()}, func(x, y map[int]string) bool {
		r := len(x) == len(y)
		for k, v := range x {
			w, ok := y[k]
			e := ok && v == w
			r = r && e
		}
		return r
	})
}

// H_SetSizes: slices of several items, equal ones among them.
func H_SetSizes() {
	slice := func(name string) []texts {
		var s []texts
		for i := nd.Choice(name+" length", nd.P("items", 3)+1); i > 0; i-- {
			s = append(s, texts{nd.Pick("A", "u", "w", ""), nd.Pick("B", "u", "")})
		}
		return s
	}
	a, b := slice("first"), slice("second")
	keepA, keepB := append([]texts(nil), a...), append([]texts(nil), b...)
	sets(a, b, func(x, y texts) bool { return x == y })
	for i := range a {
		nd.Assert(a[i] == keepA[i], "the first operand is not modified")
	}
	for i := range b {
		nd.Assert(b[i] == keepB[i], "the second operand is not modified")
	}
}

// H_SetLong: items of which a long part is the same: strings with a long common beginning or end,
// maps of many entries of which any one differs, structures of many fields.
func H_SetLong() {
	n := nd.P("len", 70)
	part := make([]byte, n)
	for i := range part {
		part[i] = 'a' + byte(i%7)
	}
	rest := string(part)
	l := nd.P("own", 1)
	switch nd.Choice("items", 4) {
	case 0:
		a, b := texts{rest + letter("end"), rest}, texts{rest + letter("end"), rest}
		sets([]texts{a}, []texts{b}, func(x, y texts) bool { return x == y })
	case 1:
		a, b := texts{letter("start") + rest, letter("start") + rest}, texts{letter("start") + rest, letter("start") + rest}
		sets([]texts{a}, []texts{b}, func(x, y texts) bool { return x == y })
	case 2:
		k := nd.P("entries", 6)
		at := nd.Choice("which", k)
		item := func() (map[string]string, string) {
			m, v := map[string]string{}, text("value", l)
			for i := 0; i < k; i++ {
				m["k"+rest[i:i+1]] = "u"
			}
			m["k"+rest[at:at+1]] = v
			return m, v
		}
		a, v := item()
		b, w := item()
		same := v == w
		i, u := utils.Intersection([]map[string]string{a}, []map[string]string{b}), utils.Union([]map[string]string{a}, []map[string]string{b})
		nd.CoverIf(same, "equal maps")
		nd.CoverIf(!same, "different maps")
		nd.Assert((len(i) == 1) == same && (len(u) == 1) == same, "maps are the same exactly when every entry is")
		nd.Observe("common", len(i))
	case 3:
		a, b := fields{F: text("F", l), G: text("G", l), L: text("L", l)}, fields{F: text("F", l), G: text("G", l), L: text("L", l)}
		sets([]fields{a}, []fields{b}, func(x, y fields) bool { return x == y })
	}
}

// letter is an arbitrary letter or digit.
func letter(name string) string {
	c := nd.Byte(name)
	nd.Assume(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z')
	return string([]byte{c})
}

type fields struct{ A, B, C, D, E, F, G, H, I, J, K, L string }

// H_SetBig: slices of many items of which one is arbitrary.
func H_SetBig() {
	n := nd.P("items", 40)
	a, b := make([]texts, n), make([]texts, n)
	for i := range a {
		a[i], b[i] = texts{string([]byte{'a' + byte(i/10), 'a' + byte(i%10)}), "x"}, texts{string([]byte{'a' + byte(i/10), 'a' + byte(i%10)}), "y"}
	}
	at := []int{0, n / 2, n - 1}[nd.Choice("position", 3)]
	b[at] = texts{nd.Pick("A", "aa", a[n/2].A, a[n-1].A, "zz"), nd.Pick("B", "x", "y", "")}
	common := b[at].B == "x" && b[at].A != "zz"
	i, u := utils.Intersection(a, b), utils.Union(a, b)
	nd.Observe("common", len(i))
	nd.CoverIf(common, "common item")
	nd.CoverIf(!common, "no common item")
	want := 0
	if common {
		want = 1
		nd.Assert(len(i) == 1 && i[0] == b[at], "the intersection of many items holds the common one")
	}
	nd.Assert(len(i) == want, "the intersection of many items holds nothing else")
	nd.Assert(len(u) == 2*n-want, "the union of many items holds them all")
	j := 0
	for k := 0; k < 2*n; k++ {
		if k < n {
			nd.Assert(u[k] == a[k], "the union begins with the first operand")
			continue
		}
		if common && k-n == at {
			continue
		}
		nd.Assert(u[n+j] == b[k-n], "the union goes on with the others of the second in order")
		j++
	}
}

package main

import (
	permission "github.com/oarkflow/permission"
	"verif/harness/nd"
)

type store struct {
	w    *world
	m    *permission.RoleManager
	objs []*permission.Data
	gone []bool
}

func eqRow(x, y row) bool {
	n := x.hasN == y.hasN && x.n == y.n
	s := x.hasS == y.hasS && x.s == y.s
	p := x.hasP == y.hasP && x.p == y.p
	r := x.hasR == y.hasR && x.r == y.r
	m := x.manSet == y.manSet && x.man == y.man
	t := x.t == y.t
	return t && n && s && p && r && m
}

func newStore(w *world) *store {
	s := &store{w: w, m: w.build(), gone: make([]bool, len(w.rows))}
	for i, x := range w.rows {
		d := x.data()
		s.objs = append(s.objs, d)
		s.m.AddData(d)
		for j := 0; j < i; j++ {
			e := eqRow(w.rows[j], x)
			s.gone[j] = s.gone[j] || e
		}
	}
	return s
}

// exactly: the listed rows are those satisfying the predicate, each once.
func (s *store) exactly(got []*permission.Data, want func(row) bool, msg string) {
	nd.Observe("rows", len(got))
	for i, x := range s.w.rows {
		c := 0
		for _, g := range got {
			if g == s.objs[i] {
				c++
			}
		}
		ok := want(x)
		nd.CoverIf(ok, "a row qualifies")
		nd.CoverIf(!ok, "a row does not qualify")
		nd.Assert(c <= 1 && (c == 1) == (ok && !s.gone[i]), msg)
	}
	nd.Assert(len(got) <= len(s.w.rows), msg+" (nothing else)")
}

// ids: the listed identifiers are those of qualifying rows, each once.
func (s *store) ids(got []any, names []string, want func(string) bool, msg string) {
	for _, n := range names {
		c := 0
		for _, g := range got {
			if g == n {
				c++
			}
		}
		ok := want(n)
		nd.CoverIf(ok, "an identifier qualifies")
		nd.Assert(c <= 1 && (c == 1) == ok, msg)
	}
	nd.Assert(len(got) <= len(names), msg+" (nothing else)")
}

func (s *store) some(f func(row) bool) bool {
	r := false
	for _, x := range s.w.rows {
		e := f(x)
		r = r || e
	}
	return r
}

// H_Queries: arbitrary rows; each query lists exactly the matching ones.
func H_Queries() {
	nd.MapOrder(nd.P("order", 0))
	w := &world{}
	anyTree(w)
	for i := 0; i < nd.P("rows", 2); i++ {
		w.rows = append(w.rows, anyRow(nd.Choice("kind", nKinds)))
	}
	s := newStore(w)
	m := s.m
	t, n, sc := nd.Pick("tenant", "t0", "t1"), nd.Pick("namespace", "n0", "n1"), nd.Pick("scope", "s0", "s1")
	switch nd.Choice("query", 20) {
	case 0:
		s.ids(m.GetTenantsByPrincipal("p"), w.tenants, func(id string) bool {
			return s.some(func(x row) bool { return x.own("p") && x.t == id })
		}, "the tenants of a principal are those with a row of it")
	case 1:
		s.exactly(m.GetTenants("p"), func(x row) bool { return x.own("p") }, "the rows of a principal")
	case 2:
		got := m.GetImplicitTenants("p")
		for _, id := range w.tenants {
			_, has := got[id]
			nd.Assert(has == w.implicit("p", id), "the implicit tenants are those with a row plus descendants of managed ones")
		}
		nd.Assert(len(got) <= len(w.tenants), "no other implicit tenants")
	case 3:
		s.exactly(m.GetScopesByPrincipal("p"), func(x row) bool { return x.own("p") && x.hasS }, "the scopes of a principal")
	case 4:
		s.exactly(m.GetRolesByTenant(t), func(x row) bool { return x.t == t && x.hasR }, "the roles of a tenant")
	case 5:
		s.exactly(m.GetNamespacesByTenant(t), func(x row) bool { return x.t == t && x.hasN }, "the namespaces of a tenant")
	case 6:
		s.exactly(m.GetNamespaceByTenant(t), func(x row) bool { return x.t == t && x.hasN }, "the namespace rows of a tenant")
	case 7:
		s.exactly(m.GetScopesByTenant(t), func(x row) bool { return x.t == t && x.hasS }, "the scopes of a tenant")
	case 8:
		s.exactly(m.GetScopesForPrincipalByTenant("p", t), func(x row) bool { return x.t == t && x.hasS && x.common("p") }, "the scopes of a principal in a tenant")
	case 9:
		s.exactly(m.GetNamespacesForPrincipalByTenant("p", t), func(x row) bool { return x.t == t && x.hasN && x.common("p") }, "the namespaces of a principal in a tenant")
	case 10:
		s.exactly(m.GetNamespaceForPrincipalByTenant("p", t), func(x row) bool { return x.t == t && x.hasN && x.common("p") }, "the namespace rows of a principal in a tenant")
	case 11:
		s.exactly(m.GetNamespacesByPrincipal("p"), func(x row) bool {
			return x.hasN && x.common("p") && s.some(func(y row) bool { return y.own("p") && y.t == x.t })
		}, "the namespaces of a principal")
	case 12:
		s.exactly(m.GetScopeForPrincipalByNamespace("p", n), func(x row) bool {
			return x.hasS && x.common("p") && (!x.hasN || x.n == n) && s.some(func(y row) bool { return y.own("p") && y.t == x.t })
		}, "the scopes of a principal in a namespace")
	case 13:
		s.exactly(m.GetScopesForPrincipalByTenantAndNamespace("p", t, n), func(x row) bool {
			return x.t == t && x.hasS && x.common("p") && (!x.hasN || x.n == n)
		}, "the scopes of a principal in a tenant and namespace")
	case 14:
		s.exactly(m.GetRolesForPrincipalByTenantAndNamespace("p", t, n), func(x row) bool {
			return x.t == t && x.hasR && x.own("p") && (!x.hasN || x.n == n)
		}, "the roles of a principal in a tenant and namespace")
	case 15:
		s.exactly(m.GetRolesForPrincipalByTenantAndScope("p", t, sc), func(x row) bool {
			return x.t == t && x.hasR && x.own("p") && (!x.hasS || x.s == sc)
		}, "the roles of a principal in a tenant and scope")
	case 16:
		s.exactly(m.GetRolesForPrincipalByTenantNamespaceAndScope("p", t, n, sc), func(x row) bool {
			return x.t == t && x.hasR && x.own("p") && (!x.hasN || x.n == n) && (!x.hasS || x.s == sc)
		}, "the roles of a principal in a tenant, namespace and scope")
	case 17:
		f := &permission.Data{Tenant: t, Principal: "p"}
		s.exactly(m.Data().Search(f), func(x row) bool { return x.t == t && x.own("p") }, "a filtered search")
	case 18:
		all := m.Source().Data()
		s.exactly(all, func(row) bool { return true }, "all rows")
		s.ids(permission.GetTenantIDs(all), w.tenants, func(id string) bool { return s.some(func(x row) bool { return x.t == id }) }, "tenant identifiers")
		count := func(got []any, has, lacks func(row) bool, id func(row) string, names []string, msg string) {
			absent := 0
			for _, g := range got {
				if g == nil {
					absent++
				}
			}
			nd.Assert(absent <= 1 && (absent == 1) == s.some(lacks), msg+" (absent)")
			nd.Assert(len(got)-absent <= len(names), msg+" (nothing else)")
			for _, n := range names {
				c := 0
				for _, g := range got {
					if g == n {
						c++
					}
				}
				nd.Assert(c <= 1 && (c == 1) == s.some(func(x row) bool { return has(x) && id(x) == n }), msg)
			}
		}
		count(permission.GetPrincipalIDs(all), func(x row) bool { return x.hasP }, func(x row) bool { return !x.hasP }, func(x row) string { return x.p }, []string{"p", "q"}, "principal identifiers")
		count(permission.GetRoleIDs(all), func(x row) bool { return x.hasR }, func(x row) bool { return !x.hasR }, func(x row) string { return x.r }, roleNames, "role identifiers")
		count(permission.GetNamespaceIDs(all), func(x row) bool { return x.hasN }, func(x row) bool { return !x.hasN }, func(x row) string { return x.n }, []string{"n0", "n1"}, "namespace identifiers")
		count(permission.GetScopeIDs(all), func(x row) bool { return x.hasS }, func(x row) bool { return !x.hasS }, func(x row) string { return x.s }, []string{"s0", "s1"}, "scope identifiers")
	case 19:
		s.ids(m.GetDescendantTenant("t0"), []string{"t1"}, func(id string) bool { return len(w.kids["t0"]) > 0 }, "the descendants of a tenant")
		s.ids(m.TenantChildren("t0"), []string{"t1"}, func(id string) bool { return len(w.kids["t0"]) > 0 }, "the children of a tenant")
	}
}

// H_ScopeRoles: every role listed for a scope is held by the principal in the tenant (or a managing
// one), every scope listed is one of that tenant's, each scope once.
func H_ScopeRoles() {
	w := &world{}
	anyTree(w)
	w.rows = append(w.rows, anyRow(0))
	for i := 1; i < nd.P("rows", 3); i++ {
		w.rows = append(w.rows, anyRow([]int{0, 5, 6, 8}[nd.Choice("kind", 4)]))
	}
	s := newStore(w)
	t := nd.Pick("tenant", "t0", "t1")
	n := nd.Pick("namespace", "n0", "n1")
	got := s.m.GetScopesWithRolesForPrincipal("p", t, n)
	nd.Observe("scopes", len(got))
	// the tenant asked about, or one managing it
	related := func(x row) bool {
		r := x.t == t
		for _, y := range w.rows {
			own, man, here, below := y.own("p"), y.man && y.manSet, y.t == x.t, w.below(y.t, t)
			r = r || own && man && here && below
		}
		return r
	}
	// a principal of the tenant itself sees the scopes of the namespace, or of the whole tenant if
	// that has none, and those it holds a role in
	member := s.some(func(x row) bool { return x.own("p") && x.t == t })
	here := func(x row) bool { return x.t == t && x.hasS && x.hasN && x.n == n }
	some := s.some(here)
	for _, sc := range []string{"s0", "s1"} {
		want := s.some(func(x row) bool {
			of := x.t == t && x.hasS && x.s == sc
			in := here(x)
			own := x.own("p") && x.hasR
			return of && (in || !some || own)
		})
		c := 0
		for _, g := range got {
			if g.Scope == sc {
				c++
			}
		}
		// with the roles held in the tenant, or in the scope itself where that is all that lists it
		joined := s.some(func(x row) bool {
			of, in := x.t == t && x.hasS && x.s == sc, here(x)
			return of && (in || !some)
		})
		for _, r := range []string{"r0", "r1"} {
			held := s.some(func(x row) bool {
				own, bound := x.own("p") && x.hasR && x.t == t && x.r == r, x.hasS && x.s == sc
				return own && (joined || bound)
			})
			listed := false
			for _, g := range got {
				of := g.Scope == sc
				for _, gr := range g.Roles {
					is := gr == r
					listed = listed || of && is
				}
			}
			nd.Assert(!member || listed == held, "the roles listed for a scope are those the principal holds in the tenant or the scope")
		}
		nd.CoverIf(member && want, "a scope is listed")
		nd.Assert(!member || (c == 1) == want, "the scopes listed are those of the namespace and those held")
	}
	for i, g := range got {
		for j := 0; j < i; j++ {
			nd.Assert(got[j].Scope != g.Scope, "each scope is listed once")
		}
		nd.Assert(s.some(func(x row) bool { return related(x) && x.hasS && x.s == g.Scope }), "a listed scope is one of the tenant's")
		for _, r := range g.Roles {
			nd.Cover("a role is listed")
			nd.Assert(s.some(func(x row) bool { return related(x) && x.own("p") && x.hasR && x.r == r || r == nil }), "a listed role is one the principal holds there")
		}
	}
}

// H_Descendants: every acyclic tenant hierarchy over four tenants; each descendant is listed once,
// and managing a tenant extends to exactly its descendants.
func H_Descendants() {
	names := []string{"t0", "t1", "t2", "t3"}
	w := &world{tenants: names, kids: map[string][]string{}}
	for i, a := range names {
		for _, b := range names[i+1:] {
			if nd.Choice("link", 2) == 1 {
				w.kids[a] = append(w.kids[a], b)
			}
		}
	}
	m := w.build()
	t := names[nd.Choice("asked", 4)]
	x := row{t: nd.Pick("row tenant", names...), hasP: true, p: "p", hasR: true, r: "r0", manSet: true, man: nd.Bool("row manages")}
	w.rows = append(w.rows, x)
	w.fill(m)
	once := func(got []any, msg string) {
		for _, n := range names {
			c := 0
			for _, g := range got {
				if g == n {
					c++
				}
			}
			want := 0
			if w.below(t, n) {
				want = 1
			}
			nd.Assert(c == want, msg)
		}
	}
	once(m.GetDescendantTenant(t), "the descendants of a tenant, each once")
	once(m.TenantChildren(t), "the children of a tenant, each once")
	got := m.GetImplicitTenants("p")
	_, in := got[t]
	nd.Observe("descendants", len(got))
	nd.CoverIf(in, "takes part")
	nd.CoverIf(!in, "takes no part")
	nd.Assert(in == w.implicit("p", t), "the implicit tenants are the one with a row plus its descendants if managed")
}

// H_Search: a search filtered by any combination of the fields finds exactly the rows that have
// the values named.
func H_Search() {
	w := &world{}
	anyTree(w)
	w.rows = append(w.rows, anyRow(nd.Choice("kind", nKinds)), anyRow([]int{0, 8, 3, 1}[nd.Choice("kind", nd.P("kinds", 2))]))
	s := newStore(w)
	f := &permission.Data{}
	t, n, sc, p, r := nd.Pick("tenant", "t0", "t1"), nd.Pick("namespace", "n0", "n1"), nd.Pick("scope", "s0", "s1"), nd.Pick("principal", "p", "q"), nd.Pick("role", "r0", "r1")
	by := nd.Choice("fields", 32)
	if by&1 > 0 {
		f.Tenant = t
	}
	if by&2 > 0 {
		f.Namespace = n
	}
	if by&4 > 0 {
		f.Scope = sc
	}
	if by&8 > 0 {
		f.Principal = p
	}
	if by&16 > 0 {
		f.Role = r
	}
	man := nd.Choice("manages", 3)
	if man > 0 {
		f.ManageDescendants = man == 2
	}
	s.exactly(s.m.Data().Search(f), func(x row) bool {
		ok := true
		if by&1 > 0 {
			e := x.t == t
			ok = ok && e
		}
		if by&2 > 0 {
			e := x.hasN && x.n == n
			ok = ok && e
		}
		if by&4 > 0 {
			e := x.hasS && x.s == sc
			ok = ok && e
		}
		if by&8 > 0 {
			e := x.hasP && x.p == p
			ok = ok && e
		}
		if by&16 > 0 {
			e := x.hasR && x.r == r
			ok = ok && e
		}
		if man > 0 {
			e := x.manSet && x.man == (man == 2)
			ok = ok && e
		}
		return ok
	}, "a filtered search finds the rows with the values named")
}

package main

import (
	lib "github.com/oarkflow/permission/v1"
	"verif/harness/nd"
)

// count: how often the listing holds the row.
func count(l []lib.TenantPrincipal, x row, man bool) int {
	c := 0
	for _, g := range l {
		if g.TenantID == x.t && g.PrincipalID == x.p && g.RoleID == x.r && g.NamespaceID == x.n && g.ScopeID == x.s && g.CanManageDescendants == man {
			c++
		}
	}
	return c
}

// H_Assign: assignments of arbitrary byte strings are reported back exactly by every query.
func H_Assign() {
	nd.MapOrder(nd.P("order", 0))
	n := nd.P("len", 2)
	m := lib.New()
	var rows []row
	var man []bool
	id := func(name string) string { return nd.Str(name, n) }
	for i := 0; i < nd.P("rows", 2); i++ {
		x := row{id("tenant"), id("principal"), id("role"), id("namespace"), id("scope")}
		mn := true
		if nd.Choice("manages given", 2) == 1 {
			mn = nd.Bool("manages")
			put(m, x, mn)
		} else {
			put(m, x)
		}
		rows, man = append(rows, x), append(man, mn)
	}
	t, p := id("asked tenant"), id("asked principal")
	exactly := func(l []lib.TenantPrincipal, want func(row) bool, msg string) {
		k := 0
		for i, x := range rows {
			again := false
			for j := 0; j < i; j++ {
				e := rows[j] == x && man[j] == man[i]
				again = again || e
			}
			ok := want(x)
			nd.CoverIf(ok, "a row qualifies")
			c := count(l, x, man[i])
			nd.Assert(c <= 1 && (c == 1) == ok, msg)
			if ok && !again {
				k++
			}
		}
		nd.Assert(len(l) == k, msg+" (nothing else)")
		nd.Observe("rows", k)
	}
	set := func(l []string, pick func(row) string, want func(row) bool, msg string) {
		for _, x := range rows {
			ok := want(x)
			if ok {
				has := in(pick(x), l)
				nd.Assert(has, msg)
			}
		}
		for _, g := range l {
			some := false
			for _, x := range rows {
				e := want(x) && pick(x) == g
				some = some || e
			}
			nd.Assert(some, msg+" (nothing else)")
		}
		nd.Observe("listed", len(l) > 0)
	}
	switch nd.Choice("query", 8) {
	case 0:
		exactly(m.GetPrincipalRoles(t, p), func(x row) bool { return x.t == t && x.p == p }, "the assignments of a principal in a tenant")
	case 1:
		exactly(m.GetTenantRoles(t), func(x row) bool { return x.t == t }, "the assignments in a tenant")
	case 2:
		exactly(m.GetPrincipalRolesByTenant(t), func(x row) bool { return x.t == t }, "the assignments by tenant")
	case 3:
		l, err := m.GetTenantsForPrincipal(p)
		nd.Assert(err == nil, "no error")
		set(l, func(x row) string { return x.t }, func(x row) bool { return x.p == p }, "the tenants of a principal")
		for i := range l {
			for j := 0; j < i; j++ {
				nd.Assert(l[i] != l[j], "each tenant is listed once")
			}
		}
	case 4:
		_, err := m.GetScopesForPrincipal(p)
		nd.Assert(err != nil, "the scopes of an unregistered principal are refused")
		m.AddPrincipal(lib.NewPrincipal(p))
		l, err := m.GetScopesForPrincipal(p)
		nd.Assert(err == nil, "no error")
		set(l, func(x row) string { return x.s }, func(x row) bool { return x.p == p && x.s != "" }, "the scopes of a principal")
	case 5:
		m.AddPrincipal(lib.NewPrincipal(p))
		_, err := m.GetTenantScopesForPrincipal(t, p)
		nd.Assert(err != nil, "the scopes in an unregistered tenant are refused")
		m.AddTenant(lib.NewTenant(t))
		l, err := m.GetTenantScopesForPrincipal(t, p)
		nd.Assert(err == nil, "no error")
		set(l, func(x row) string { return x.s }, func(x row) bool { return x.p == p && x.s != "" && x.t == t }, "the scopes of a principal in a tenant")
	case 6:
		r := nd.Str("registered role", n)
		o := lib.NewRole(r)
		o.AddPermission("g", lib.NewAttribute("a", "x"))
		m.AddRole(o)
		l := m.GetPermissionsForPrincipal(t, p)
		var tp []lib.TenantPrincipal
		for _, g := range l {
			tp = append(tp, g.TenantPrincipal)
			nd.Assert(len(g.Permissions) == 1 && len(g.Permissions["g"]) == 1, "the permissions are those of the role")
		}
		exactly(tp, func(x row) bool { return x.t == t && x.p == p && x.r == r && x.r != "" }, "the permissions of a principal in a tenant")
	case 7:
		o, k := lib.NewTenant(t), lib.NewTenant(nd.Str("child", n))
		nd.Assume(o.ID() != k.ID())
		m.AddTenants(o, k)
		nd.Assert(o.AddDescendent(k) == nil, "an acyclic tenant link is accepted")
		exactly(m.GetImplicitPrincipalRoles(t, p), func(x row) bool { return x.p == p && (x.t == t || x.t == k.ID()) }, "the implicit assignments are the principal's own in the tenant and its descendants")
	}
}

// H_AssignAuthorize: identifiers of arbitrary bytes; a decision never takes one for another.
func H_AssignAuthorize() {
	n := nd.P("len", 2)
	id := func(name string) string {
		s := nd.Str(name, n)
		nd.Assume(s != "")
		return s
	}
	m := lib.New()
	x := row{id("tenant"), id("principal"), id("role"), "", ""}
	if nd.Choice("bound to a namespace", 2) == 1 {
		x.n = id("namespace")
	}
	if nd.Choice("bound to a scope", 2) == 1 {
		x.s = id("scope")
	}
	put(m, x)
	q := req{p: id("asking"), hasT: true, t: id("asked tenant")}
	m.AddPrincipals(lib.NewPrincipal(q.p))
	m.AddTenants(lib.NewTenant(q.t))
	own, here := x.p == q.p, x.t == q.t
	want := own && here
	switch nd.Choice("request", 5) {
	case 1:
		q.hasN, q.n = true, id("asked namespace")
		ns := x.n == q.n
		want = want && ns
	case 2:
		q.hasS, q.s = true, id("asked scope")
		sc := x.s == q.s
		want = want && sc
	case 3:
		q.hasN, q.n, q.hasS, q.s = true, id("asked namespace"), true, id("asked scope")
		ns, sc := x.n == q.n, x.s == q.s
		want = want && ns && sc
	case 4:
		r := lib.NewRole(id("registered role"))
		r.AddPermission("g", lib.NewAttribute("a", "x"))
		m.AddRole(r)
		q.hasG, q.group, q.hasA, q.act = true, "g", true, "a x"
		is := x.r == r.ID()
		want = want && is
	}
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "a decision takes no identifier for another")
}

// H_TenantAPI: assignments made through the methods of a tenant are those reported and used.
func H_TenantAPI() {
	m := lib.New()
	ro := map[string]*lib.Role{}
	for _, r := range roleNames {
		ro[r] = m.AddRole(lib.NewRole(r))
	}
	ro["r0"].AddPermission("g", lib.NewAttribute("a", "x"))
	ro["r1"].AddPermission("g", lib.NewAttribute("b", "x"))
	m.AddPrincipals(lib.NewPrincipal("p"), lib.NewPrincipal("q"))
	t := m.AddTenant(lib.NewTenant("t0"))
	o := m.AddTenant(lib.NewTenant("t1"))
	for _, n := range []string{"n0", "n1"} {
		t.AddNamespace(m.AddNamespace(lib.NewNamespace(n)))
	}
	t.AddScopes(m.AddScope(lib.NewScope("s0")))
	t.AddRole(ro["r0"], ro["r1"])
	o.AddRole(ro["r0"])
	w := &world{reg: []string{"t0", "t1"}, ns: map[string][]string{"t0": {"n0", "n1"}}, sc: map[string][]string{"t0": {"s0"}}, perms: map[string][]gperm{"r0": {{"g", "a", "x"}}, "r1": {{"g", "b", "x"}}}}
	def := ""
	add := func(x row) {
		for _, y := range w.rows {
			if x == y {
				return
			}
		}
		w.rows = append(w.rows, x)
	}
	// assigned repeats the assignment in the default namespace
	withDef := func(x row) {
		add(x)
		if def != "" {
			x.n = def
			add(x)
		}
	}
	some := func(p string) bool {
		for _, x := range w.rows {
			if x.p == p {
				return true
			}
		}
		return false
	}
	ps := []string{"p", "q"}
	roleLists := [][]string{{"r0"}, {"r1"}, {"rx"}, {"rx", "r1"}, {"r0", "r1"}}
	for k := 0; k < nd.P("ops", 2); k++ {
		p := ps[nd.Choice("principal", 2)]
		switch nd.Choice("operation", 8) {
		case 0:
			rs := roleLists[nd.Choice("roles", len(roleLists))]
			t.AddPrincipal(p, rs...)
			for _, r := range rs {
				if r != "rx" {
					withDef(row{"t0", p, r, "", ""})
				}
			}
		case 1:
			rs := roleLists[nd.Choice("roles", len(roleLists))]
			n := []string{"n0", "nx"}[nd.Choice("namespace", 2)]
			t.AddPrincipalInNamespace(p, n, rs...)
			for _, r := range rs {
				if r != "rx" && n != "nx" {
					add(row{"t0", p, r, n, ""})
				}
			}
		case 2:
			t.AddPrincipalInNamespace(p, "n1")
			for _, x := range w.rows {
				if x.p == p && x.n != "" && x.n != "n1" {
					add(row{"t0", p, x.r, "n1", ""})
				}
			}
			add(row{"t0", p, "", "n1", ""})
		case 3:
			s := []string{"s0", "sx"}[nd.Choice("scope", 2)]
			t.AssignScopesToPrincipal(p, s)
			if s == "s0" && some(p) {
				for _, x := range w.rows {
					if x.p == p {
						withDef(row{"t0", p, x.r, "", s})
					}
				}
				add(row{"t0", p, "", "", s})
			}
		case 4:
			r := []string{"r1", "rx"}[nd.Choice("role", 2)]
			t.AssignScopesWithRole(p, r, "s0")
			if r != "rx" && some(p) {
				withDef(row{"t0", p, r, "", "s0"})
			}
		case 5:
			t.AddScopesToNamespace("n0", "s0")
			add(row{"t0", "", "", "n0", "s0"})
		case 6:
			t.SetDefaultNamespace("n0")
			def = "n0"
		case 7:
			t.AddScopesToNamespace("n0", "sx")
		}
	}
	l := m.GetTenantRoles("t0")
	nd.Assert(len(l) == len(w.rows), "the tenant holds the assignments made and no others")
	for _, x := range w.rows {
		nd.Assert(count(l, x, true) == 1, "every assignment made is reported")
	}
	nd.Assert(len(m.GetTenantRoles("t1")) == 0, "another tenant is not affected")
	nd.Observe("rows", len(l))
	q := anyReq(nd.Choice("names", 8), 0)
	if nd.Choice("activity", 2) == 1 {
		q.hasG, q.group, q.hasA, q.act = true, "g", true, nd.Pick("activity", "a x", "b x")
		got := m.Authorize(q.p, q.options()...)
		nd.CoverIf(got, "granted activity")
		nd.Assert(!got || w.may(q), "an activity is granted only through an applicable role of the principal")
		nd.Assert(got || !w.must(q), "an activity that a role held and bound nowhere else permits is granted")
		return
	}
	got := m.Authorize(q.p, q.options()...)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.member(q), "a membership request is granted exactly when an own assignment says so")
}

// H_TenantNames: identifiers of arbitrary bytes given to the methods of a tenant are kept as they are.
func H_TenantNames() {
	k := nd.P("len", 2)
	id := func(name string) string {
		s := nd.Str(name, k)
		nd.Assume(s != "")
		return s
	}
	m := lib.New()
	tid, r, n, s, p := id("tenant"), id("role"), id("namespace"), id("scope"), id("principal")
	t := m.AddTenant(lib.NewTenant(tid))
	nd.Assert(t.ID() == tid, "a tenant keeps its identifier")
	t.AddRole(m.AddRole(lib.NewRole(r)))
	t.AddNamespace(m.AddNamespace(lib.NewNamespace(n)))
	t.AddScopes(m.AddScope(lib.NewScope(s)))
	gr, gn, gs := r, n, s // given to the call
	if nd.Choice("other identifiers", 2) == 1 {
		gr, gn, gs = id("given role"), id("given namespace"), id("given scope")
	}
	kr, kn, ks := gr == r, gn == n, gs == s
	var rows []row
	var when []bool
	add := func(c bool, x row) { rows, when = append(rows, x), append(when, c) }
	if nd.Choice("default", 2) == 1 {
		t.SetDefaultNamespace(gn)
	} else {
		kn = false
		gn = n
	}
	dflt := kn
	known := gn == n
	switch nd.Choice("operation", 5) {
	case 0:
		t.AddPrincipal(p, gr)
		add(kr, row{tid, p, gr, "", ""})
		add(kr && dflt, row{tid, p, gr, n, ""})
	case 1:
		t.AddPrincipalInNamespace(p, gn, gr)
		add(kr && known, row{tid, p, gr, n, ""})
	case 2:
		t.AddPrincipalInNamespace(p, gn)
		add(known, row{tid, p, "", n, ""})
	case 3:
		t.AddScopesToNamespace(gn, gs)
		add(known && ks, row{tid, "", "", n, s})
	case 4:
		put(m, row{tid, p, "", n, ""})
		t.AssignScopesWithRole(p, gr, gs)
		add(true, row{tid, p, "", n, ""})
		add(kr && ks, row{tid, p, gr, "", s})
		add(kr && ks && dflt, row{tid, p, gr, n, s})
	}
	l := m.GetTenantRoles(tid)
	c := 0
	for i, x := range rows {
		nd.CoverIf(when[i], "an assignment is made")
		nd.Assert((count(l, x, true) == 1) == when[i], "an assignment is reported with the identifiers given")
		if when[i] {
			c++
		}
	}
	nd.Assert(len(l) == c, "nothing else is reported")
	nd.Observe("rows", len(l))
}

// H_NamespaceRoles: roles and scopes attached to namespaces restrict, but never confer.
func H_NamespaceRoles() {
	w := &world{reg: []string{"t0"}, ns: map[string][]string{"t0": {"n0", "n1"}}, sc: map[string][]string{"t0": {"s0", "s1"}}, roles: map[string][]string{"t0": roleNames}}
	anyRoles(w)
	m := w.build()
	t, _ := m.GetTenant("t0")
	if nd.Choice("n0 has r1", 2) == 1 {
		t.AddRolesToNamespace("n0", "r1")
	}
	if nd.Choice("n0 has s0", 2) == 1 {
		t.AddScopesToNamespace("n0", "s0")
		w.rows = append(w.rows, row{"t0", "", "", "n0", "s0"})
	}
	for i := 0; i < nd.P("rows", 2); i++ {
		x := row{"t0", nd.Pick("row principal", "p", "q"), nd.Pick("row role", "r0", "r1"), nd.Pick("row namespace", "n0", "n1", ""), nd.Pick("row scope", "s0", "s1", "")}
		put(m, x)
		w.rows = append(w.rows, x)
	}
	q := anyReq(nd.Choice("names", 4)*2+1, 3)
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(!got || w.may(q), "an activity is granted only through an applicable role of the principal")
	nd.Assert(got || !w.must(q), "an activity that a role held and bound nowhere else permits is granted")
}

// H_TenantScopes: several scopes assigned at once, with and without a default namespace, with and
// without a role, then the principal put into another namespace; any row asked about.
func H_TenantScopes() {
	m := lib.New()
	m.AddPrincipals(lib.NewPrincipal("p"), lib.NewPrincipal("q"))
	t := m.AddTenant(lib.NewTenant("t0"))
	t.AddNamespace(m.AddNamespace(lib.NewNamespace("n0")))
	t.AddNamespace(m.AddNamespace(lib.NewNamespace("n1")))
	t.AddScopes(m.AddScope(lib.NewScope("s0")), m.AddScope(lib.NewScope("s1")))
	t.AddRole(m.AddRole(lib.NewRole("r0")), m.AddRole(lib.NewRole("r1")))
	var rows []row
	def := nd.Choice("default namespace", 2) == 1
	withDef := func(x row) {
		rows = append(rows, x)
		if def {
			x.n = "n0"
			rows = append(rows, x)
		}
	}
	if def {
		t.SetDefaultNamespace("n0")
	}
	switch nd.Choice("before", 3) {
	case 0:
		t.AddPrincipal("p", "r0")
		withDef(row{"t0", "p", "r0", "", ""})
	case 1:
		t.AddPrincipalInNamespace("p", "n0", "r0", "r1")
		rows = append(rows, row{"t0", "p", "r0", "n0", ""}, row{"t0", "p", "r1", "n0", ""})
	case 2:
		t.AddPrincipal("q", "r0")
		withDef(row{"t0", "q", "r0", "", ""})
	}
	known := rows[0].p == "p"
	scopes := [][]string{{"s0", "s1"}, {"s0", "sx", "s1"}, {"s1"}, {"s1", "s0", "s1"}}[nd.Choice("scopes", nd.P("lists", 4))]
	before := rows
	switch nd.Choice("assign", 3) {
	case 0:
		t.AssignScopesToPrincipal("p", scopes...)
		for _, s := range scopes {
			if known && s != "sx" {
				for _, x := range before {
					withDef(row{"t0", "p", x.r, "", s})
				}
				rows = append(rows, row{"t0", "p", "", "", s})
			}
		}
	case 1:
		r := []string{"r1", "rx", "r0"}[nd.Choice("role", 3)]
		t.AssignScopesWithRole("p", r, scopes...)
		for _, s := range scopes {
			if known && s != "sx" && r != "rx" {
				withDef(row{"t0", "p", r, "", s})
			}
		}
	case 2:
		t.AddScopesToNamespace("n1", scopes...)
		for _, s := range scopes {
			if s == "sx" {
				break // the rest is left open
			}
			rows = append(rows, row{"t0", "", "", "n1", s})
		}
		nd.Assume(len(scopes) != 3 || scopes[1] != "sx")
	}
	if nd.Choice("other namespace", 2) == 1 {
		t.AddPrincipalInNamespace("p", "n1")
		for _, x := range rows {
			if x.p == "p" && x.n != "" && x.n != "n1" {
				rows = append(rows, row{"t0", "p", x.r, "n1", ""})
			}
		}
		rows = append(rows, row{"t0", "p", "", "n1", ""})
	}
	x := row{"t0", nd.Pick("asked principal", "p", "q", ""), nd.Pick("asked role", "", "r0", "r1", "rx"), nd.Pick("asked namespace", "", "n0", "n1"), nd.Pick("asked scope", "", "s0", "s1", "sx")}
	want := 0
	for _, y := range rows {
		if x == y {
			want = 1
		}
	}
	got := count(m.GetTenantRoles("t0"), x, true)
	nd.Observe("count", got)
	nd.CoverIf(want == 1, "assigned")
	nd.CoverIf(want == 0, "not assigned")
	nd.Assert(got == want, "exactly the assignments made are reported, each once")
}

package main

import (
	permission "github.com/oarkflow/permission"
	"verif/harness/nd"
)

// H_Names: identifiers are arbitrary byte strings; one row that names all five, one request.
func H_Names() {
	k := nd.P("len", 2)
	tid, ns, sc, pid, rid := nd.Str("tenant id", k), nd.Str("namespace id", k), nd.Str("scope id", k), nd.Str("principal id", k), nd.Str("role id", k)
	m := permission.New()
	m.AddTenant(permission.NewTenant(tid))
	m.AddNamespace(permission.NewNamespace(ns))
	m.AddScope(permission.NewScope(sc))
	m.AddPrincipal(permission.NewPrincipal(pid))
	r := permission.NewRole(rid)
	r.AddPermission("g", permission.NewAttribute("a", "x"))
	m.AddRole(r)
	x := row{t: nd.Str("row tenant", k), hasN: true, n: nd.Str("row namespace", k), hasS: true, s: nd.Str("row scope", k), hasP: true, p: nd.Str("row principal", k), hasR: true, r: nd.Str("row role", k)}
	m.AddData(x.data())
	q := req{p: nd.Str("asking", k), hasT: true, t: nd.Str("tenant", k)}
	want := q.p == pid && q.t == tid && x.p == q.p && x.t == q.t
	if nd.Choice("namespace given", 2) == 1 {
		q.hasN, q.n = true, nd.Str("namespace", k)
		ok := q.n == ns && x.n == q.n
		want = want && ok
	}
	if nd.Choice("scope given", 2) == 1 {
		q.hasS, q.s = true, nd.Str("scope", k)
		ok := q.s == sc && x.s == q.s
		want = want && ok
	}
	if nd.Choice("activity given", 2) == 1 {
		q.hasGroup, q.hasAct, q.group, q.act = true, true, "g", "a x"
		ok := x.r == rid
		want = want && ok
	}
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "identifiers are compared as they are")
}

// many holds distinct names in ascending order.
var many = manyNames()

func manyNames() (names []string) {
	for _, i := range "0123456789abcdefghijklmnopqrstuvwxyz" {
		for _, j := range "0123456789abcdefghijklmnopqrstuvwxyz" {
			names = append(names, string([]byte{byte(i), byte(j)}))
		}
	}
	return
}

// some returns all of the first n names, or the outermost and middle ones when there are many.
func some(n int) []string {
	if n <= 20 {
		return many[:n]
	}
	return []string{many[0], many[1], many[n/2], many[n-2], many[n-1]}
}

// H_Long: a chain of roles and a chain of tenants; any role held in any tenant, any activity
// asked in any tenant.
func H_Long() {
	n := nd.P("roles", 6)
	m := permission.New()
	m.AddPrincipal(permission.NewPrincipal("p"))
	var rs []*permission.Role
	var ts []*permission.Tenant
	for i := 0; i < n; i++ {
		rs = append(rs, permission.NewRole(many[i]))
		rs[i].AddPermission("g", permission.NewAttribute("x"+many[i], "do"))
		m.AddRole(rs[i])
		ts = append(ts, m.AddTenant(permission.NewTenant(many[i])))
	}
	for i := n - 2; i >= 0; i-- {
		nd.Assert(rs[i].AddDescendant(rs[i+1]) == nil, "a chain of roles is accepted")
		nd.Assert(ts[i].AddDescendant(ts[i+1]) == nil, "a chain of tenants is accepted")
	}
	home, asked := nd.Pick("assigned in", many[:n]...), nd.Pick("asked in", many[:n]...)
	for i := 0; i < n; i++ {
		m.AddData(&permission.Data{Tenant: home, Role: many[i]})
	}
	held, act := nd.Pick("held", many[:n]...), nd.Pick("activity", many[:n]...)
	man := nd.Choice("manages", 2) == 1
	m.AddData(&permission.Data{Tenant: home, Principal: "p", Role: held, ManageDescendants: man})
	q := req{p: "p", hasT: true, t: asked}
	want := home == asked || man && home < asked
	if nd.Choice("activity given", 2) == 1 {
		q.hasGroup, q.hasAct, q.group, q.act = true, true, "g", "x"+act+" do"
		ok := held <= act
		want = want && ok
	}
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "the whole chain of roles and tenants counts")
	nd.Assert(rs[0].AddDescendant(rs[n-1]) == nil && rs[n-1].AddDescendant(rs[0]) != nil, "a long cycle is refused")
}

// H_Wide: a tenant with many rows, of which one matters.
func H_Wide() { wide(nd.P("many", 12)) }

// H_Big: the same with more of each, the outermost and middle ones asked.
func H_Big() { wide(nd.P("many", 70)) }

func wide(n int) {
	m := permission.New()
	m.AddPrincipals(permission.NewPrincipal("p"), permission.NewPrincipal("q"))
	t := m.AddTenant(permission.NewTenant("t"))
	for i := 0; i < n; i++ {
		r := permission.NewRole("r" + many[i])
		r.AddPermission("g", permission.NewAttribute("x"+many[i], "do"))
		m.AddRole(r)
		m.AddScope(permission.NewScope("s" + many[i]))
		t.AddNamespace(m.AddNamespace(permission.NewNamespace("n" + many[i])))
		nd.Assert(t.AddPrincipal("q", false, "r"+many[i]) == nil, "a known role is accepted")
		nd.Assert(t.AssignScopesToPrincipal("q", false, "s"+many[i]) == nil, "a known scope is accepted")
		if i > 0 {
			nd.Assert(t.AddPrincipal("p", false, "r"+many[i]) == nil, "a known role is accepted")
			t.AddPrincipalInNamespace("p", "n"+many[i], "r"+many[i])
		}
	}
	top, _ := m.GetRole("r" + many[1])
	for _, x := range []string{"near", "far"} {
		r := permission.NewRole(x)
		r.AddPermission("g", permission.NewAttribute(x, "do"))
		m.AddRole(r)
		nd.Assert(top.AddDescendant(r) == nil, "a descendant is accepted")
	}
	m.AddData(&permission.Data{Tenant: "t", Role: "near"})
	k, o := nd.Pick("which", some(n)...), nd.Pick("other", some(n)...)
	var got, want bool
	switch nd.Choice("request", 5) {
	case 4:
		x := nd.Pick("below", "near", "far")
		got = m.Authorize("p", permission.WithTenant("t"), permission.WithAttributeGroup("g"), permission.WithActivity(x+" do"))
		want = x == "near" // has data in the tenant
	case 0:
		got = m.Authorize("p", permission.WithTenant("t"), permission.WithAttributeGroup("g"), permission.WithActivity("x"+k+" do"))
		want = k != many[0]
	case 1:
		got = m.Authorize("q", permission.WithTenant("t"), permission.WithScope("s"+k))
		want = true
	case 2:
		got = m.Authorize("p", permission.WithTenant("t"), permission.WithScope("s"+k))
		want = false
	case 3:
		got = m.Authorize("p", permission.WithTenant("t"), permission.WithNamespace("n"+k), permission.WithAttributeGroup("g"), permission.WithActivity("x"+o+" do"))
		want = o != many[0] // held tenant-wide
	}
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "each of many rows counts")
	nd.Assert(len(m.GetRolesByTenant("t")) == 3*n-1, "every row of a role is listed")
	nd.Assert(len(m.GetScopesForPrincipalByTenant("q", "t")) == n, "every row of a scope is listed")
	nd.Assert(len(m.GetTenantsByPrincipal("q")) == 1, "a tenant is listed once")
}

// H_Twice: two decisions in a row about requests of arbitrary bytes; each answer is that of its
// own request alone.
func H_Twice() {
	k := nd.P("len", 2)
	x := row{t: nd.Str("row tenant", k), hasN: true, n: nd.Str("row namespace", k), hasS: true, s: nd.Str("row scope", k), hasP: true, p: nd.Str("row principal", k), hasR: true, r: "r"}
	m := permission.New()
	m.AddTenant(permission.NewTenant(x.t))
	m.AddNamespace(permission.NewNamespace(x.n))
	m.AddScope(permission.NewScope(x.s))
	m.AddPrincipal(permission.NewPrincipal(x.p))
	r := permission.NewRole("r")
	group, res, act := "g", "a", "x"
	activity := nd.Choice("activity", 2) == 1
	if activity {
		group, res, act = nd.Str("permission group", k), nd.Str("permission resource", 1), nd.Str("permission action", 1)
		special := false
		for _, s := range []string{res, act} {
			e := len(s) > 0 && (s[0] == '*' || s[0] == ':')
			special = special || e
		}
		nd.Assume(!special)
	}
	r.AddPermission(group, permission.NewAttribute(res, act))
	m.AddRole(r)
	m.AddData(x.data())
	names := nd.Choice("names", 3)
	ask := func() (req, bool) {
		q := req{p: nd.Str("asking", k), hasT: true, t: nd.Str("tenant", k)}
		want := q.p == x.p && q.t == x.t
		if names != 1 {
			q.hasN, q.n = true, nd.Str("namespace", k)
			ok := q.n == x.n
			want = want && ok
		}
		if names != 0 {
			q.hasS, q.s = true, nd.Str("scope", k)
			ok := q.s == x.s
			want = want && ok
		}
		if activity {
			q.hasGroup, q.hasAct, q.group, q.act = true, true, nd.Str("group", k), nd.Str("activity", 3)
			ok := q.group == group && q.act == permission.NewAttribute(res, act).String()
			want = want && ok
		}
		return q, want
	}
	q1, w1 := ask()
	q2, w2 := ask()
	got1, got2 := m.Authorize(q1.p, q1.options()...), m.Authorize(q2.p, q2.options()...)
	nd.Observe("granted", got2)
	nd.CoverIf(got1 && !got2, "granted, then denied")
	nd.CoverIf(!got1 && got2, "denied, then granted")
	nd.Assert(got1 == w1, "the first answer is that of its request")
	nd.Assert(got2 == w2, "the second answer is that of its own request alone")
}

// H_BigChain: a chain of many tenants, the principal managing one of them; any of the outermost
// and middle ones asked.
func H_BigChain() {
	n := nd.P("tenants", 40)
	m := permission.New()
	m.AddPrincipal(permission.NewPrincipal("p"))
	r := permission.NewRole("r")
	r.AddPermission("g", permission.NewAttribute("a", "x"))
	m.AddRole(r)
	var ts []*permission.Tenant
	for i := 0; i < n; i++ {
		ts = append(ts, m.AddTenant(permission.NewTenant(many[i])))
	}
	for i := n - 2; i >= 0; i-- {
		nd.Assert(ts[i].AddDescendant(ts[i+1]) == nil, "a chain of tenants is accepted")
	}
	home, asked := nd.Pick("assigned in", some(n)...), nd.Pick("asked in", some(n)...)
	man := nd.Choice("manages", 2) == 1
	m.AddData(&permission.Data{Tenant: home, Principal: "p", Role: "r", ManageDescendants: man})
	want := home == asked || man && home < asked
	got := m.Authorize("p", permission.WithTenant(asked))
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "a manager takes part in every tenant below")
	nd.Assert(m.Authorize("p", permission.WithTenant(asked), permission.WithAttributeGroup("g"), permission.WithActivity("a x")) == want, "a manager's roles count in every tenant below")
	_, in := m.GetImplicitTenants("p")[asked]
	nd.Assert(in == want, "every tenant below is an implicit tenant of its manager")
	nd.Assert(len(m.GetDescendantTenant(many[0])) == n-1, "every tenant below is listed once")
	nd.Assert(ts[n-1].AddDescendant(ts[0]) != nil, "a long cycle is refused")
}

// H_BigTenants: a principal in many tenants, each with a tenant below it; one is not managed and one
// has no row of the principal.
func H_BigTenants() {
	n := nd.P("tenants", 40)
	m := permission.New()
	m.AddPrincipals(permission.NewPrincipal("p"), permission.NewPrincipal("q"))
	r := permission.NewRole("r")
	r.AddPermission("g", permission.NewAttribute("a", "x"))
	m.AddRole(r)
	m.AddNamespace(permission.NewNamespace("n"))
	m.AddScope(permission.NewScope("s"))
	for i := 0; i < n; i++ {
		t := m.AddTenant(permission.NewTenant("t" + many[i]))
		nd.Assert(t.AddDescendant(m.AddTenant(permission.NewTenant("c"+many[i]))) == nil, "a tenant below is accepted")
	}
	plain, none := nd.Pick("not managed", some(n)...), nd.Pick("no row", some(n)...)
	for i := 0; i < n; i++ {
		who := "p"
		if many[i] == none {
			who = "q"
		}
		m.AddData(&permission.Data{Tenant: "t" + many[i], Principal: who, Role: "r", ManageDescendants: many[i] != plain})
	}
	k := nd.Pick("asked in", some(n)...)
	child := nd.Choice("below", 2) == 1
	t, want := "t"+k, k != none
	if child {
		t, want = "c"+k, k != none && k != plain
	}
	got := m.Authorize("p", permission.WithTenant(t))
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "a principal takes part in each of many tenants and those below")
	nd.Assert(m.Authorize("p", permission.WithTenant(t), permission.WithAttributeGroup("g"), permission.WithActivity("a x")) == want, "its roles count in each of them")
	_, in := m.GetImplicitTenants("p")[t]
	nd.Assert(in == want, "each of them is an implicit tenant")
	nd.Assert(len(m.GetTenantsByPrincipal("p")) == n-1, "each tenant of a principal is listed once")
}

// H_BigPrincipals: many principals in many tenants, each with a role of its own; the outermost and
// middle ones ask for what they or another hold.
func H_BigPrincipals() {
	n := nd.P("many", 70)
	m := permission.New()
	t := m.AddTenant(permission.NewTenant("t"))
	for i := 0; i < n; i++ {
		r := permission.NewRole("r" + many[i])
		r.AddPermission("g", permission.NewAttribute("x"+many[i], "do"))
		m.AddRole(r)
		m.AddPrincipal(permission.NewPrincipal("p" + many[i]))
		nd.Assert(t.AddPrincipal("p"+many[i], false, "r"+many[i]) == nil, "a known role is accepted")
		nd.Assert(m.AddTenant(permission.NewTenant("t"+many[i])).AddPrincipal("p"+many[i], false, "r"+many[i]) == nil, "a known role is accepted")
	}
	k, o, w := nd.Pick("asking", some(n)...), nd.Pick("asked", some(n)...), nd.Pick("where", some(n)...)
	ask := func(tenant string) bool {
		return m.Authorize("p"+k, permission.WithTenant(tenant), permission.WithAttributeGroup("g"), permission.WithActivity("x"+o+" do"))
	}
	got := ask("t")
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == (k == o), "each of many principals holds its own role only")
	nd.Assert(ask("t"+w) == (k == o && k == w), "each of many tenants has its own principal only")
	nd.Assert(m.Authorize("p"+k, permission.WithTenant("t"+w)) == (k == w), "each of many principals takes part in its own tenants only")
}

// H_AtOnce: one thing given first and several given in one call; each counts, and nothing else does.
func H_AtOnce() {
	n := nd.P("many", 5)
	ids := append([]string{"first"}, many[:n]...)
	m := permission.New()
	t := m.AddTenant(permission.NewTenant("t"))
	m.AddPrincipal(permission.NewPrincipal("p"))
	r := permission.NewRole("r")
	m.AddRole(r)
	k := nd.Pick("asked", append([]string{"other"}, ids...)...)
	want := k != "other"
	var ts []*permission.Tenant
	var ns []*permission.Namespace
	var ss []*permission.Scope
	var ps []*permission.Principal
	var rs []*permission.Role
	for _, i := range ids {
		ts, ns, ss, ps = append(ts, permission.NewTenant(i)), append(ns, permission.NewNamespace(i)), append(ss, permission.NewScope(i)), append(ps, permission.NewPrincipal(i))
		o := permission.NewRole(i)
		nd.Assert(o.AddPermission("g", permission.NewAttribute(i, "x")) == nil, "an unlocked role takes a permission")
		rs = append(rs, o)
	}
	all := func() {
		m.AddTenants(ts...)
		m.AddTenant(permission.NewTenant("other"))
		m.AddNamespaces(ns...)
		m.AddNamespace(permission.NewNamespace("other"))
		m.AddScopes(ss...)
		m.AddScope(permission.NewScope("other"))
		m.AddPrincipals(ps...)
		m.AddPrincipal(permission.NewPrincipal("other"))
		m.AddRoles(rs...)
		o := permission.NewRole("other")
		o.AddPermission("g", permission.NewAttribute("other", "x"))
		m.AddRole(o)
	}
	opts := []func(*permission.Option){permission.WithTenant("t")}
	activity := func(a string) {
		opts = append(opts, permission.WithAttributeGroup("g"), permission.WithActivity(a+" x"))
	}
	who := "p"
	switch nd.Choice("what", 10) {
	case 0: // registered tenants, namespaces, scopes, principals, roles
		m.AddTenants(ts[0])
		m.AddTenants(ts[1:]...)
		m.AddData(&permission.Data{Tenant: k, Principal: "p", Role: "r"})
		opts = []func(*permission.Option){permission.WithTenant(k)}
	case 1:
		m.AddNamespaces(ns[0])
		m.AddNamespaces(ns[1:]...)
		m.AddData(&permission.Data{Tenant: "t", Namespace: k, Principal: "p", Role: "r"})
		opts = append(opts, permission.WithNamespace(k))
	case 2:
		m.AddScopes(ss[0])
		m.AddScopes(ss[1:]...)
		m.AddData(&permission.Data{Tenant: "t", Scope: k, Principal: "p"})
		opts = append(opts, permission.WithScope(k))
	case 3:
		m.AddPrincipals(ps[0])
		m.AddPrincipals(ps[1:]...)
		m.AddData(&permission.Data{Tenant: "t", Principal: k, Role: "r"})
		who = k
	case 4:
		m.AddRoles(rs[0])
		m.AddRoles(rs[1:]...)
		m.AddData(&permission.Data{Tenant: "t", Principal: "p", Role: k})
		activity(k)
	case 5: // roles of a principal
		all()
		nd.Assert(t.AddPrincipal("p", false, ids[0]) == nil && t.AddPrincipal("p", false, ids[1:]...) == nil, "known roles are accepted")
		activity(k)
	case 6: // scopes of a principal
		all()
		nd.Assert(t.AssignScopesToPrincipal("p", false, ids[0]) == nil && t.AssignScopesToPrincipal("p", false, ids[1:]...) == nil, "known scopes are accepted")
		opts = append(opts, permission.WithScope(k))
	case 7: // tenants below
		all()
		nd.Assert(t.AddDescendant(ts[0]) == nil && t.AddDescendant(ts[1:]...) == nil, "tenants below are accepted")
		nd.Assert(t.AddPrincipal("p", true, "r") == nil, "a known role is accepted")
		opts = []func(*permission.Option){permission.WithTenant(k)}
	case 8: // descendant roles, all of the tenant
		all()
		nd.Assert(r.AddDescendant(rs[0]) == nil && r.AddDescendant(rs[1:]...) == nil, "descendants are accepted")
		t.AddRoles(rs[0])
		t.AddRoles(rs[1:]...)
		nd.Assert(t.AddPrincipal("p", false, "r") == nil, "a known role is accepted")
		activity(k)
	case 9: // permissions
		nd.Assert(t.AddPrincipal("p", false, "r") == nil, "a known role is accepted")
		var as []*permission.Attribute
		for _, i := range ids {
			as = append(as, permission.NewAttribute(i, "x"))
		}
		nd.Assert(r.AddPermission("g", as[0]) == nil && r.AddPermission("g", as[1:]...) == nil, "an unlocked role takes permissions")
		activity(k)
	}
	got := m.Authorize(who, opts...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "each of several things given at once counts")
}

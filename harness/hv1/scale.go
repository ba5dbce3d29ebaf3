package main

import (
	lib "github.com/oarkflow/permission/v1"
	"verif/harness/nd"
)

// many holds distinct names in ascending order.
var many = manyNames()

func manyNames() (names []string) {
	for _, i := range "0123456789abcdefghijklmnopqrstuvwxyz" {
		for _, j := range "0123456789abcdefghijklmnopqrstuvwxyz" {
			names = append(names, string([]byte{byte(i), byte(j)}))
		}
	}
	return
}

// some returns all of the first n names, or the outermost and middle ones when there are many.
func some(n int) []string {
	if n <= 20 {
		return many[:n]
	}
	return []string{many[0], many[1], many[n/2], many[n-2], many[n-1]}
}

// H_Wide: many tenants, roles, namespaces and scopes, one assignment each; one matters.
func H_Wide() { wide(nd.P("many", 12)) }

// H_Big: the same with more of each, the outermost and middle ones asked.
func H_Big() { wide(nd.P("many", 70)) }

func wide(n int) {
	m := lib.New()
	m.AddPrincipals(lib.NewPrincipal("p"), lib.NewPrincipal("q"))
	for i := 0; i < n; i++ {
		r := lib.NewRole("r" + many[i])
		r.AddPermission("g", lib.NewAttribute("x"+many[i], "do"))
		r.AddPermission("", lib.NewAttribute("y"+many[i], "do"))
		m.AddRole(r)
		t := m.AddTenant(lib.NewTenant("t" + many[i]))
		t.AddRole(r)
		t.AddNamespace(m.AddNamespace(lib.NewNamespace("n" + many[i])))
		t.AddScopes(m.AddScope(lib.NewScope("s" + many[i])))
		t.AddPrincipal("q", "r"+many[i])
		if i > 0 {
			t.AddPrincipal("p", "r"+many[i])
			t.AddPrincipalInNamespace("p", "n"+many[i], "r"+many[i])
			t.AssignScopesToPrincipal("p", "s"+many[i])
		}
	}
	k, o := nd.Pick("which", some(n)...), nd.Pick("other", some(n)...)
	var got, want bool
	switch nd.Choice("request", 7) {
	case 0:
		got = m.Authorize("p", lib.WithTenant("t"+k), lib.WithResourceGroup("g"), lib.WithActivity("x"+o+" do"))
		want = k == o && k != many[0]
	case 1:
		got = m.Authorize("p", lib.WithTenant("t"+k))
		want = k != many[0]
	case 2:
		got = m.Authorize("p", lib.WithTenant("t"+k), lib.WithNamespace("n"+o))
		want = k == o && k != many[0]
	case 3:
		got = m.Authorize("p", lib.WithTenant("t"+k), lib.WithScope("s"+o))
		want = k == o && k != many[0]
	case 4:
		got = m.Authorize("p", lib.WithScope("s"+k))
		want = k != many[0]
	case 6:
		got = m.Authorize("p", lib.WithActivity("y"+k+" do"))
		want = k != many[0]
	case 5:
		got = m.Authorize("q", lib.WithNamespace("n"+k))
		want = true
	}
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "each of many assignments counts")
	ts, err := m.GetTenantsForPrincipal("p")
	nd.Assert(err == nil && len(ts) == n-1, "every tenant of a principal is listed once")
	nd.Assert(len(m.GetPrincipalRoles("t01", "p")) == 4, "every assignment is listed")
}

// H_Twice: two decisions in a row about requests of arbitrary bytes; each answer is that of its
// own request alone.
func H_Twice() {
	k := nd.P("len", 2)
	id := func(name string) string {
		s := nd.Str(name, k)
		nd.Assume(s != "")
		return s
	}
	x := row{t: id("row tenant"), p: id("row principal"), r: "r", n: id("row namespace"), s: id("row scope")}
	m := lib.New()
	t := m.AddTenant(lib.NewTenant(x.t))
	t.AddNamespace(m.AddNamespace(lib.NewNamespace(x.n)))
	t.AddScopes(m.AddScope(lib.NewScope(x.s)))
	m.AddPrincipals(lib.NewPrincipal(x.p))
	r := lib.NewRole("r")
	group, res, act := "g", "a", "x"
	activity := nd.Choice("activity", 2) == 1
	if activity {
		group, res, act = nd.Str("permission group", k), nd.Str("permission resource", 1), nd.Str("permission action", 1)
		special := false
		for _, s := range []string{res, act} {
			e := len(s) > 0 && (s[0] == '*' || s[0] == ':')
			special = special || e
		}
		nd.Assume(!special)
	}
	r.AddPermission(group, lib.NewAttribute(res, act))
	m.AddRole(r)
	t.AddRole(r)
	put(m, x)
	names := nd.Choice("names", 3)
	ask := func() (req, bool) {
		q := req{p: id("asking"), hasT: true, t: id("tenant")}
		want := q.p == x.p && q.t == x.t
		if names != 1 {
			q.hasN, q.n = true, id("namespace")
			ok := q.n == x.n
			want = want && ok
		}
		if names != 0 {
			q.hasS, q.s = true, id("scope")
			ok := q.s == x.s
			want = want && ok
		}
		if activity {
			q.hasG, q.hasA, q.group, q.act = true, true, nd.Str("group", k), nd.Str("activity", 3)
			ok := q.group == group && q.act == lib.NewAttribute(res, act).String()
			want = want && ok
		}
		return q, want
	}
	q1, w1 := ask()
	q2, w2 := ask()
	got1, got2 := m.Authorize(q1.p, q1.options()...), m.Authorize(q2.p, q2.options()...)
	nd.Observe("granted", got2)
	nd.CoverIf(got1 && !got2, "granted, then denied")
	nd.CoverIf(!got1 && got2, "denied, then granted")
	nd.Assert(got1 == w1, "the first answer is that of its request")
	nd.Assert(got2 == w2, "the second answer is that of its own request alone")
}

// H_BigPrincipals: many principals in many tenants, each with a role of its own; the outermost and
// middle ones ask for what they or another hold.
func H_BigPrincipals() {
	n := nd.P("many", 50)
	m := lib.New()
	t := m.AddTenant(lib.NewTenant("t"))
	for i := 0; i < n; i++ {
		r := lib.NewRole("r" + many[i])
		r.AddPermission("g", lib.NewAttribute("x"+many[i], "do"))
		t.AddRole(m.AddRole(r))
		m.AddPrincipal(lib.NewPrincipal("p" + many[i]))
		t.AddPrincipal("p"+many[i], "r"+many[i])
		u := m.AddTenant(lib.NewTenant("t" + many[i]))
		u.AddRole(r)
		u.AddPrincipal("p"+many[i], "r"+many[i])
	}
	k, o, w := nd.Pick("asking", some(n)...), nd.Pick("asked", some(n)...), nd.Pick("where", some(n)...)
	ask := func(tenant string) bool {
		return m.Authorize("p"+k, lib.WithTenant(tenant), lib.WithResourceGroup("g"), lib.WithActivity("x"+o+" do"))
	}
	got := ask("t")
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == (k == o), "each of many principals holds its own role only")
	nd.Assert(ask("t"+w) == (k == o && k == w), "each of many tenants has its own principal only")
	nd.Assert(m.Authorize("p"+k, lib.WithTenant("t"+w)) == (k == w), "each of many principals is assigned to its own tenants only")
	nd.Assert(len(m.GetTenantRoles("t")) == n && len(m.GetPrincipalRolesByTenant("t")) == n, "every assignment of a tenant is listed")
	nd.Assert(len(m.GetPrincipalRoles("t", "p"+k)) == 1 && len(m.GetImplicitPrincipalRoles("t", "p"+k)) == 1, "every assignment of a principal is listed")
	nd.Assert(len(m.GetPermissionsForPrincipal("t", "p"+k)) == 1, "the permissions of a principal are listed")
}

// H_AtOnce: one thing given first and several given in one call; each counts, and nothing else does.
func H_AtOnce() {
	n := nd.P("many", 5)
	ids := append([]string{"first"}, many[:n]...)
	m := lib.New()
	t := m.AddTenant(lib.NewTenant("t"))
	m.AddPrincipal(lib.NewPrincipal("p"))
	r := lib.NewRole("r")
	t.AddRole(m.AddRole(r))
	k := nd.Pick("asked", append([]string{"other"}, ids...)...)
	want := k != "other"
	var ts []*lib.Tenant
	var ns []*lib.Namespace
	var ss []*lib.Scope
	var ps []*lib.Principal
	var rs []*lib.Role
	for _, i := range ids {
		ts, ns, ss, ps = append(ts, lib.NewTenant(i)), append(ns, lib.NewNamespace(i)), append(ss, lib.NewScope(i)), append(ps, lib.NewPrincipal(i))
		o := lib.NewRole(i)
		nd.Assert(o.AddPermission("g", lib.NewAttribute(i, "x")) == nil, "an unlocked role takes a permission")
		rs = append(rs, o)
	}
	opts := []func(*lib.Option){lib.WithTenant("t")}
	who := "p"
	switch nd.Choice("what", 8) {
	case 0: // roles of a tenant and of a principal
		m.AddRoles(rs[0])
		m.AddRoles(rs[1:]...)
		t.AddRole(rs[0])
		t.AddRole(rs[1:]...)
		t.AddPrincipal("p", ids[0])
		t.AddPrincipal("p", ids[1:]...)
		opts = append(opts, lib.WithResourceGroup("g"), lib.WithActivity(k+" x"))
	case 1: // namespaces
		m.AddNamespaces(ns[0])
		m.AddNamespaces(ns[1:]...)
		t.AddNamespace(ns[0])
		t.AddNamespace(ns[1:]...)
		t.AddPrincipalInNamespace("p", k, "r")
		opts = append(opts, lib.WithNamespace(k))
	case 2: // scopes of a tenant and of a principal
		m.AddScopes(ss[0])
		m.AddScopes(ss[1:]...)
		t.AddScopes(ss[0])
		t.AddScopes(ss[1:]...)
		t.AddPrincipal("p", "r")
		t.AssignScopesToPrincipal("p", ids[0])
		t.AssignScopesToPrincipal("p", ids[1:]...)
		opts = append(opts, lib.WithScope(k))
	case 3: // principals
		m.AddPrincipals(ps[0])
		m.AddPrincipals(ps[1:]...)
		t.AddPrincipal(k, "r")
		who = k
	case 4: // tenants
		m.AddTenants(ts[0])
		m.AddTenants(ts[1:]...)
		for _, x := range ts {
			x.AddRole(r)
		}
		o := m.AddTenant(lib.NewTenant("other"))
		o.AddRole(r)
		for i, x := range ts {
			if ids[i] == k {
				x.AddPrincipal("p", "r")
			}
		}
		opts = []func(*lib.Option){lib.WithTenant(k)}
	case 5: // permissions
		var as []*lib.Attribute
		for _, i := range ids {
			as = append(as, lib.NewAttribute(i, "x"))
		}
		nd.Assert(r.AddPermission("g", as[0]) == nil && r.AddPermission("g", as[1:]...) == nil, "an unlocked role takes permissions")
		t.AddPrincipal("p", "r")
		opts = append(opts, lib.WithResourceGroup("g"), lib.WithActivity(k+" x"))
	case 6: // scopes of a principal with a role
		m.AddScopes(ss...)
		t.AddScopes(ss...)
		t.AddPrincipal("p", "r")
		t.AssignScopesWithRole("p", "r", ids[0])
		t.AssignScopesWithRole("p", "r", ids[1:]...)
		opts = append(opts, lib.WithScope(k))
	case 7: // roles of a principal in a namespace
		m.AddRoles(rs...)
		t.AddRole(rs...)
		t.AddNamespace(m.AddNamespace(lib.NewNamespace("n")))
		t.AddPrincipalInNamespace("p", "n", ids[0])
		t.AddPrincipalInNamespace("p", "n", ids[1:]...)
		opts = append(opts, lib.WithNamespace("n"), lib.WithResourceGroup("g"), lib.WithActivity(k+" x"))
	}
	got := m.Authorize(who, opts...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "each of several things given at once counts")
}

package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// H_ManyTenants: a principal active in more tenants than any fixed buffer expects; a request
// naming no tenant is granted exactly when one of them confers it.
func H_ManyTenants() { manyTenants(nd.P("tenants", 12)) }

// H_BigTenants: the same with more tenants, the outermost and middle ones conferring or inactive.
func H_BigTenants() { manyTenants(nd.P("tenants", 140)) }

func manyTenants(n int) {
	nd.MapOrder(1)
	a := v2.NewAuthorizer()
	var flags []bool
	r0, r1 := v2.NewRole("r0"), v2.NewRole("r1")
	r0.AddPermission(perm("a x"))
	r1.AddPermission(perm("b x"))
	a.AddRoles(r0, r1)
	want := false
	odd := nd.Int("inactive", 0, n)
	give := nd.Int("confers", 0, n)
	if n > 20 {
		odd = []int{0, n / 2, n - 1, n}[nd.Choice("inactive", 4)]
	}
	ids := many
	for i := 0; i < n; i++ {
		t := v2.NewTenant(ids[i], "n0")
		t.Status = v2.TenantStatusActive
		off := odd == i
		if off {
			t.Status = v2.TenantStatusBlocked
		}
		a.AddTenant(t)
		role := "r0"
		has := give == i
		if has {
			role = "r1"
		}
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: ids[i], Role: role})
		want = want || has && !off
		flags = append(flags, has)
	}
	got := a.Authorize(v2.Request{Principal: "p", Resource: "b", Action: "x"})
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "a request naming no tenant considers every active tenant of the principal")
}

// chain: three tenants below one another (possibly closing a cycle), an arbitrary assignment in
// each, a role hierarchy of depth three.
func chain() (*world, v2.Request) {
	w := &world{perms: map[string][]string{"r0": {"a x"}, "r1": nil, "r2": {"b x", "c x"}}, links: map[string][]string{"r0": {"r1"}, "r1": {"r2"}}}
	for _, id := range []string{"t0", "t1", "t2"} {
		w.tenants = append(w.tenants, &tcfg{id: id, def: "n0", ns: map[string][]string{"n0": {"s0"}, "n1": nil}})
	}
	switch nd.Choice("hierarchy", 4) {
	case 0:
		w.tenants[0].kids = []string{"t1"}
		w.tenants[1].kids = []string{"t2"}
	case 1:
		w.tenants[0].kids = []string{"t1"}
		w.tenants[1].kids = []string{"t2"}
		w.tenants[2].kids = []string{"t0"}
	case 2:
		w.tenants[0].kids = []string{"t1", "t2"}
	case 3:
		w.tenants[0].kids = []string{"t1"}
		w.tenants[1].kids = []string{"t2"}
		w.tenants[2].absent = true
	}
	for _, t := range w.tenants {
		a := asg{p: nd.Pick("principal", "p", "q"), t: t.id, ns: nd.Pick("assignment namespace", "", "n1"), sc: nd.Pick("assignment scope", "", "s0"), role: nd.Pick("role", "r0", "r1", "r2"), manage: nd.Bool("manage")}
		if nd.Bool("expired") {
			a.exp = -1
		}
		w.asgs = append(w.asgs, a)
	}
	q := v2.Request{Principal: "p", Tenant: nd.Pick("tenant", "", "t0", "t1", "t2"), Namespace: nd.Pick("namespace", "", "n1"), Scope: nd.Pick("scope", "", "s0"), Resource: nd.Pick("resource", "a", "b", "c"), Action: "x"}
	return w, q
}

// H_Chain: deeper hierarchies of tenants and roles.
func H_Chain() {
	nd.MapOrder(1)
	w, q := chain()
	a := v2.NewAuthorizer()
	w.build(a)
	w.assign(a)
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.authorize(q), "Authorize grants exactly what a live assignment confers")
}

// H_ChainCan: the same for the role check.
func H_ChainCan() {
	nd.MapOrder(1)
	w, q := chain()
	a := v2.NewAuthorizer()
	w.build(a)
	w.assign(a)
	for _, x := range warm(a) {
		w.asgs = append(w.asgs, x)
	}
	r := nd.Pick("asked", "r0", "r1", "r2")
	got := a.Can(q, r)
	nd.Observe("held", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.can(q, r), "Can holds exactly for roles held or inherited")
}

// H_Names: identifiers are arbitrary byte strings; only equal ones are taken for each other.
func H_Names() {
	k := nd.P("len", 2)
	tid, ns, sc, role := nd.Str("tenant id", k), nd.Str("namespace id", k), nd.Str("scope id", k), nd.Str("role id", k)
	nd.Assume(tid != "" && ns != "" && sc != "" && role != "")
	a := v2.NewAuthorizer()
	t := v2.NewTenant(tid, ns)
	t.AddScopeToNamespace(ns, v2.NewScope(sc))
	a.AddTenant(t)
	r := v2.NewRole(role)
	r.AddPermission(perm("a x"))
	a.AddRole(r)
	x := asg{p: nd.Str("assignment principal", k), t: nd.Str("assignment tenant", k), ns: nd.Str("assignment namespace", k), sc: nd.Str("assignment scope", k), role: nd.Str("assignment role", k)}
	a.AddPrincipalRole(x.make())
	q := v2.Request{Principal: nd.Str("principal", k), Tenant: nd.Str("tenant", k), Namespace: nd.Str("namespace", k), Scope: nd.Str("scope", k), Resource: "a", Action: "x"}
	named, discovered := q.Tenant == tid, q.Tenant == ""
	held := x.p == q.Principal && x.t == tid
	nsok := q.Namespace == "" || q.Namespace == ns
	scok := q.Scope == "" || q.Scope == sc
	covers := (x.ns == "" || x.ns == ns) && (x.sc == "" || x.sc == q.Scope)
	want := (named || discovered) && held && nsok && scok && covers && x.role == role
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "identifiers are compared as they are")
}

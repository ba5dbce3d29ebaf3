package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// H_Concurrent: a decision runs concurrently with any other operation: no unprotected shared
// access, no deadlock, and the answer is one that the configuration before or after justifies.
func H_Concurrent() {
	a := v2.NewAuthorizer()
	t0, t1 := v2.NewTenant("t0", "n0"), v2.NewTenant("t1", "n0")
	t0.AddScopeToNamespace("n0", v2.NewScope("s0"))
	t0.AddChildTenant(t1)
	r0, r1 := v2.NewRole("r0"), v2.NewRole("r1")
	r0.AddPermission(perm("a x"))
	r1.AddPermission(perm("b x"))
	a.AddRoles(r0, r1)
	a.AddTenants(t0, t1)
	a.AddChildRole("r0", "r1")
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t0", Role: "r0", ManageChildTenant: true})
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "q", Tenant: "t0", Role: "r1"})
	q := v2.Request{Principal: "p", Tenant: []string{"t0", ""}[nd.Choice("tenant", 2)], Resource: "b", Action: "x"}
	other := v2.Request{Principal: "q", Tenant: "t0", Scope: "s0", Resource: "a", Action: "x"}
	can := nd.Choice("decision", 2) == 1
	op := nd.Choice("operation", 19)
	var got, got2 bool
	nd.Par(nd.P("preemptions", 1), func() {
		if can {
			got = a.Can(q, "r1")
		} else {
			got = a.Authorize(q)
		}
	}, func() {
		switch op {
		case 0:
			got2 = a.Authorize(other)
		case 1:
			got2 = a.Can(other, "r0")
		case 2:
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t1", Role: "r1"})
		case 3:
			a.RemovePrincipalRole(v2.PrincipalRole{Principal: "q"})
		case 4:
			r2 := v2.NewRole("r2")
			a.AddRole(r2)
		case 5:
			a.AddChildRole("r1", "r2")
		case 6:
			r1.AddPermission(perm("c x"))
		case 7:
			r1.RemovePermission(perm("c x"))
		case 8:
			a.AddTenant(v2.NewTenant("t2", "n0"))
		case 9:
			t0.AddNamespace("n1")
		case 10:
			t0.AddScopeToNamespace("n0", v2.NewScope("s1"))
		case 11:
			t1.AddChildTenant(v2.NewTenant("t3", "n0"))
		case 12:
			a.GetTenant("t0")
		case 13:
			a.GetRole("r0")
		case 14:
			a.GetDefaultTenant()
		case 15:
			a.SetDefaultTenant("t0")
		case 16:
			a.AddTenant(t0) // again
		case 17:
			a.AddChildRole("r1", "r0") // refused
		case 18:
			a.RemovePrincipalRole(v2.PrincipalRole{Principal: "nobody"})
		}
	})
	nd.Observe("granted", got)
	nd.Cover("done")
	nd.Assert(got, "a concurrent operation does not disturb a decision")
	if op <= 1 {
		nd.Assert(!got2, "a concurrent decision does not leak into another")
	}
}

// H_ConcurrentDecisions: three decisions at once about different principals.
func H_ConcurrentDecisions() {
	w := &world{perms: map[string][]string{"r0": {"a x"}, "r1": {"b x"}}}
	w.tenants = []*tcfg{{id: "t0", def: "n0", ns: map[string][]string{"n0": {"s0"}}}}
	a := v2.NewAuthorizer()
	w.build(a)
	w.asgs = []asg{{p: "p", t: "t0", role: "r0"}, {p: "q", t: "t0", role: "r1"}, {p: "q", t: "t0", sc: "s0", role: "r0"}}
	w.assign(a)
	qs := []v2.Request{}
	for i := 0; i < 3; i++ {
		qs = append(qs, v2.Request{Principal: []string{"p", "q", "p"}[i], Tenant: "t0", Scope: []string{"", "s0"}[nd.Choice("scope", 2)], Resource: []string{"a", "b"}[nd.Choice("resource", 2)], Action: "x"})
	}
	can := nd.Choice("one role check", 2) == 1
	got := make([]bool, 3)
	nd.Par(nd.P("preemptions", 1), func() { got[0] = a.Authorize(qs[0]) }, func() { got[1] = a.Authorize(qs[1]) }, func() {
		if can {
			got[2] = a.Can(qs[2], "r0")
		} else {
			got[2] = a.Authorize(qs[2])
		}
	})
	for i := range qs {
		want := false
		if i == 2 && can {
			want = w.can(qs[i], "r0")
		} else {
			want = w.authorize(qs[i])
		}
		nd.Observe("granted", got[i])
		nd.CoverIf(got[i], "granted")
		nd.CoverIf(!got[i], "denied")
		nd.Assert(got[i] == want, "concurrent decisions do not influence each other")
	}
}

// H_ConcurrentAdmin: any two operations at once: no unprotected shared access, no deadlock, and
// both take effect: afterwards the authorizer decides as the joint configuration says.
func H_ConcurrentAdmin() {
	w := &world{perms: map[string][]string{"r0": {"a x"}, "r1": {"b x"}, "r2": {"c x"}}, links: map[string][]string{}}
	w.tenants = []*tcfg{
		{id: "t0", def: "n0", ns: map[string][]string{"n0": {"s0"}}},
		{id: "t1", def: "n0", ns: map[string][]string{"n0": {"s0"}}}}
	a := v2.NewAuthorizer()
	w.build(a)
	w.asgs = []asg{{p: "p", t: "t0", role: "r0", manage: true}, {p: "q", t: "t0", role: "r1"}}
	w.assign(a)
	n := nd.P("kinds", 15)
	var ops [2]func()
	for i := range ops {
		k := nd.Choice("operation", n)
		ops[i] = w.op(a, k, i)
	}
	nd.Par(nd.P("preemptions", 0), ops[0], ops[1])
	q := v2.Request{Principal: nd.Pick("asking", "p", "q", "z"), Tenant: nd.Pick("tenant", "", "t0", "t1"), Resource: nd.Pick("resource", "a", "b", "c"), Action: "x"}
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.authorize(q), "concurrent operations all take effect")
}

// op is one operation of the given kind and, at once, its effect on the configuration. Operations
// of one kind done twice at once (i is 0 and 1) name different objects where order would matter.
func (w *world) op(a *v2.Authorizer, kind, i int) func() {
	role := func(r string) *v2.Role { o, _ := a.GetRole(r); return o }
	switch kind {
	case 0:
		x := asg{p: []string{"p", "z"}[i], t: "t1", role: "r1"}
		w.asgs = append(w.asgs, x)
		return func() { a.AddPrincipalRole(x.make()) }
	case 1:
		for k := range w.asgs {
			if w.asgs[k].p == "q" {
				w.asgs[k].p = "-"
			}
		}
		return func() { a.RemovePrincipalRole(v2.PrincipalRole{Principal: "q"}) }
	case 2:
		return func() { a.AddRole(v2.NewRole([]string{"r3", "r4"}[i])) }
	case 3:
		c := []string{"r1", "r2"}[i]
		w.links["r0"] = append(w.links["r0"], c)
		return func() { a.AddChildRole("r0", c) }
	case 4:
		c := []string{"b x", "c x"}[i]
		w.perms["r0"] = append(w.perms["r0"], c)
		r := role("r0")
		return func() { r.AddPermission(perm(c)) }
	case 5:
		w.perms["r1"] = nil
		r := role("r1")
		return func() { r.RemovePermission(perm("b x")) }
	case 6:
		return func() { a.AddTenant(v2.NewTenant([]string{"t3", "t4"}[i], "n0")) }
	case 7:
		n := []string{"n1", "n2"}[i]
		o := w.objs["t0"]
		return func() { o.AddNamespace(n) }
	case 8:
		n := []string{"s1", "s2"}[i]
		o := w.objs["t0"]
		return func() { o.AddScopeToNamespace("n0", v2.NewScope(n)) }
	case 9:
		w.tenants[0].kids = []string{"t1"}
		o, c := w.objs["t0"], w.objs["t1"]
		return func() { o.AddChildTenant(c) }
	case 10:
		w.def = "t1"
		return func() { a.SetDefaultTenant("t1") }
	case 11:
		return func() { a.Authorize(v2.Request{Principal: "p", Resource: "c", Action: "x"}) }
	case 13:
		o := w.objs["t0"]
		return func() { a.AddTenant(o) } // again
	case 12:
		return func() { a.Can(v2.Request{Principal: "q", Tenant: "t0"}, "r0") }
	}
	return func() { a.GetRole("r0"); a.GetTenant("t0"); a.GetDefaultTenant() }
}

// H_ConcurrentLinks: two links made at once leave one of the two results that making them one
// after the other has; no cycle is closed.
func H_ConcurrentLinks() {
	names := []string{"r0", "r1", "r2"}
	a := v2.NewAuthorizer()
	for _, n := range names {
		a.AddRole(v2.NewRole(n))
	}
	a.AddTenant(v2.NewTenant("t0", "n0"))
	kids := map[string][]string{}
	link := func(kids map[string][]string, p, c string) (map[string][]string, bool) {
		var reach func(string) bool
		reach = func(x string) bool {
			if x == p {
				return true
			}
			for _, k := range kids[x] {
				if reach(k) {
					return true
				}
			}
			return false
		}
		if reach(c) {
			return kids, false
		}
		out := map[string][]string{p: {c}}
		for _, n := range names {
			out[n] = append(out[n], kids[n]...)
		}
		return out, true
	}
	if k := nd.Choice("linked before", 3); k > 0 {
		kids["r0"] = []string{names[k]}
		a.AddChildRole("r0", names[k])
	}
	var ps, cs [2]string
	for i := range ps {
		ps[i], cs[i] = names[nd.Choice("parent", 3)], names[nd.Choice("child", 3)]
		if i == 0 {
			nd.Assume(ps[0] != cs[0])
		}
	}
	var ok [2]bool
	op := func(i int) func() { return func() { ok[i] = a.AddChildRole(ps[i], cs[i]) == nil } }
	nd.Par(nd.P("preemptions", 1), op(0), op(1))
	held := names[nd.Choice("held", 3)]
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t0", Role: held})
	var got [3]bool
	for i, n := range names {
		got[i] = a.Can(v2.Request{Principal: "p", Tenant: "t0"}, n)
	}
	fits := false
	for first := range ps {
		k1, o1 := link(kids, ps[first], cs[first])
		k2, o2 := link(k1, ps[1-first], cs[1-first])
		good := o1 == ok[first] && o2 == ok[1-first]
		for i, n := range names {
			var reach func(string) bool
			reach = func(x string) bool {
				if x == n {
					return true
				}
				for _, k := range k2[x] {
					if reach(k) {
						return true
					}
				}
				return false
			}
			good = good && reach(held) == got[i]
		}
		fits = fits || good
	}
	nd.Observe("first", ok[0])
	nd.Observe("second", ok[1])
	nd.CoverIf(ok[0] && ok[1], "both accepted")
	nd.CoverIf(!ok[0] || !ok[1], "one refused")
	nd.Assert(fits, "two links made at once have the result of one after the other")
}

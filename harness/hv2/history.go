package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// H_History: an arbitrary history of administrative operations and decisions; the answer is the
// one the final configuration justifies.
func H_History() { history(false) }

// H_HistoryCan: the same for role checks.
func H_HistoryCan() { history(true) }

func history(can bool) {
	w := &world{perms: map[string][]string{"r0": {"a x"}, "r1": {"b x"}, "r2": {"c x"}}, links: map[string][]string{"r0": {"r2"}}}
	w.tenants = []*tcfg{
		{id: "t0", def: "n0", ns: map[string][]string{"n0": {"s0"}}},
		{id: "t1", def: "n0", ns: map[string][]string{"n0": {"s0"}}}}
	late := nd.Choice("a linked role is not registered yet", 2) == 1
	if late {
		delete(w.perms, "r2")
	}
	a := v2.NewAuthorizer()
	w.build(a)
	objs := w.objs
	roleObj := func(r string) *v2.Role { o, _ := a.GetRole(r); return o }
	base := []asg{{p: "p", t: "t0", role: "r0", manage: true}, {p: "q", t: "t0", role: "r1"}}
	for _, x := range base {
		w.asgs = append(w.asgs, x)
		a.AddPrincipalRole(x.make())
	}
	// the pools hold used objects from here on
	a.Authorize(v2.Request{Principal: "p", Tenant: "t0", Scope: "s0", Resource: "d", Action: "x"})
	q := v2.Request{Principal: nd.Pick("asking", "p", "q", "z"), Tenant: nd.Pick("tenant", "", "t0"), Scope: nd.Pick("scope", "", "s0", "s1"), Resource: nd.Pick("resource", "a", "b", "c"), Action: "x"}
	role := nd.Pick("asked", "r0", "r1", "r2")
	decide := func() {
		if can {
			a.Can(q, role)
			a.Can(v2.Request{Principal: "q", Tenant: "t0"}, "r1")
			a.Authorize(v2.Request{Principal: "p", Tenant: "t0", Scope: "s0", Resource: "d", Action: "x"})
			return
		}
		a.Authorize(q)
		a.Authorize(v2.Request{Principal: "q", Tenant: "t0", Resource: "b", Action: "x"})
		a.Authorize(v2.Request{Principal: "p", Tenant: "t0", Scope: "s0", Resource: "d", Action: "x"})
	}
	decide()
	for k := 0; k < nd.P("ops", 2); k++ {
		var op int
		if late {
			op = []int{0, 4, 8, 11, 16}[nd.Choice("operation", 5)]
		} else {
			op = nd.Choice("operation", 16)
		}
		switch op {
		case 16:
			nr := v2.NewRole("r2")
			nr.AddPermission(perm("c x"))
			a.AddRoles(nr)
			w.perms["r2"] = []string{"c x"}
		case 0:
			x := asg{p: nd.Pick("principal", "p", "q"), t: nd.Pick("assignment tenant", "t0", "t1"), sc: nd.Pick("assignment scope", "", "s0"), role: nd.Pick("role", "r0", "r1")}
			w.asgs = append(w.asgs, x)
			a.AddPrincipalRole(x.make())
		case 1:
			pat := v2.PrincipalRole{Principal: nd.Pick("pattern", "p", "q"), Role: nd.Pick("pattern role", "", "r0", "r1")}
			any := false
			for i := range w.asgs {
				h := hit(pat, w.asgs[i])
				any = any || h
				if h {
					w.asgs[i].p = "-"
				}
			}
			nd.Assert((a.RemovePrincipalRole(pat) == nil) == any, "removal")
		case 2:
			r := []string{"r0", "r1"}[nd.Choice("role", 2)]
			roleObj(r).AddPermission(perm("b x"))
			w.perms[r] = append(w.perms[r], "b x")
		case 3:
			r := []string{"r0", "r1"}[nd.Choice("role", 2)]
			roleObj(r).RemovePermission(perm("a y"), perm("a x"), perm("b x"))
			w.perms[r] = nil
		case 4:
			if a.AddChildRole("r0", "r1") == nil {
				w.links["r0"] = append(w.links["r0"], "r1")
			}
		case 5:
			if a.AddChildRole("r1", "r0") == nil {
				w.links["r1"] = append(w.links["r1"], "r0")
			}
		case 6:
			objs["t0"].AddChildTenant(objs["t1"])
			w.tenants[0].kids = []string{"t1"}
		case 7:
			w.def = nd.Pick("new default tenant", "t1", "t0", "")
			a.SetDefaultTenant(w.def)
		case 8:
			// a role registered again replaces the former one
			r := []string{"r0", "r1"}[nd.Choice("role", 2)]
			nr := v2.NewRole(r)
			w.perms[r] = []string{}
			if nd.Choice("with a permission", 2) == 1 {
				nr.AddPermission(perm("b x"))
				w.perms[r] = []string{"b x"}
			}
			a.AddRole(nr)
		case 9:
			w.tenants[0].status = v2.TenantStatus(nd.Int("new status", 0, 4))
			objs["t0"].Status = w.tenants[0].status
		case 11:
			if a.AddChildRole("r2", "r1") == nil {
				w.links["r2"] = append(w.links["r2"], "r1")
			}
		case 13:
			if objs["t0"].AddScopeToNamespace("n0", v2.NewScope("s1")) == nil {
				w.tenants[0].ns["n0"] = []string{"s0", "s1"}
			}
		case 14:
			// two at once
			x, y := asg{p: "z", t: "t0", role: "r1"}, asg{p: "q", t: "t0", sc: "s1", role: "r0"}
			w.asgs = append(w.asgs, x, y)
			a.AddPrincipalRole(x.make(), y.make())
		case 15:
			// another tenant object under the same identifier replaces the former
			objs["t0"] = v2.NewTenant("t0")
			objs["t0"].AddNamespace("n1")
			objs["t0"].AddScopeToNamespace("n1", v2.NewScope("s1"))
			a.AddTenant(objs["t0"])
			w.tenants[0] = &tcfg{id: "t0", ns: map[string][]string{"n1": {"s1"}}}
		case 12:
			a.AddTenant(objs["t0"]) // again
		case 10:
			objs["t0"].AddNamespace("n1", true)
			w.tenants[0].def = "n1"
			if _, ok := w.tenants[0].ns["n1"]; !ok {
				w.tenants[0].ns["n1"] = nil
			}
		}
		if nd.Choice("decisions in between", 2) == 1 {
			decide()
		}
	}
	if can {
		got := a.Can(q, role)
		nd.Observe("held", got)
		nd.CoverIf(got, "granted")
		nd.CoverIf(!got, "denied")
		nd.Assert(got == w.can(q, role), "a role check depends on the current configuration only")
		return
	}
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.authorize(q), "a decision depends on the current configuration only")
}

// H_Twice: two decisions (or role checks) in a row about requests of arbitrary bytes; the second
// answer is that of its own request alone.
func H_Twice() {
	k := nd.P("len", 2)
	a := v2.NewAuthorizer()
	id := func(name string) string {
		s := nd.Str(name, k)
		nd.Assume(s != "")
		return s
	}
	plain := func(name string) string {
		s := nd.Str(name, k)
		for i := 0; i < k; i++ {
			nd.Assume(i >= len(s) || s[i] != '*' && s[i] != ':')
		}
		return s
	}
	x := asg{p: "p", t: "t", ns: "n", sc: "s", role: "r"}
	res, act := "a", "x"
	ids := nd.Choice("arbitrary", 2) == 0
	if ids {
		x = asg{p: id("assignment principal"), t: id("assignment tenant"), ns: id("assignment namespace"), sc: id("assignment scope"), role: "r"}
	} else {
		res, act = plain("permission resource"), plain("permission action")
	}
	t := v2.NewTenant(x.t, x.ns)
	t.AddScopeToNamespace(x.ns, v2.NewScope(x.sc))
	a.AddTenant(t)
	r := v2.NewRole("r")
	r.AddPermission(v2.NewPermission("c", res, act))
	a.AddRole(r)
	a.AddPrincipalRole(x.make())
	ask := func() (v2.Request, bool) {
		q := v2.Request{Principal: x.p, Tenant: x.t, Namespace: x.ns, Scope: x.sc, Resource: res, Action: act}
		if ids {
			q.Principal, q.Tenant, q.Namespace, q.Scope = nd.Str("principal", k), nd.Str("tenant", k), nd.Str("namespace", k), nd.Str("scope", k)
		} else {
			q.Resource, q.Action = plain("resource"), plain("action")
		}
		tn := q.Tenant == "" || q.Tenant == x.t
		ns := q.Namespace == "" || q.Namespace == x.ns
		return q, q.Principal == x.p && tn && ns && q.Scope == x.sc
	}
	q1, w1 := ask()
	q2, w2 := ask()
	first := a.Authorize
	if nd.Choice("role checks", 2) == 1 {
		first = func(q v2.Request) bool { return a.Can(q, "r") }
		noScope := ids && q2.Scope == "" // an assignment's scope does not restrict its role
		nd.Assume(!noScope && !(ids && q1.Scope == ""))
	} else {
		grants := func(q v2.Request) bool {
			some := q.Resource != "" || q.Action != ""
			return some && q.Resource+" "+q.Action == res+" "+act
		}
		g1, g2 := grants(q1), grants(q2)
		w1, w2 = w1 && g1, w2 && g2
	}
	got1, got2 := first(q1), first(q2)
	nd.Observe("granted", got2)
	nd.CoverIf(got1 && !got2, "granted, then denied")
	nd.CoverIf(!got1 && got2, "denied, then granted")
	nd.Assert(got1 == w1, "the first answer is that of its request")
	nd.Assert(got2 == w2, "the second answer is that of its own request alone")
}

package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

func hit(pat v2.PrincipalRole, a asg) bool {
	p := pat.Principal == "" || pat.Principal == a.p
	t := pat.Tenant == "" || pat.Tenant == a.t
	n := pat.Namespace == "" || pat.Namespace == a.ns
	s := pat.Scope == "" || pat.Scope == a.sc
	r := pat.Role == "" || pat.Role == a.role
	return p && t && n && s && r
}

// H_Remove: arbitrary assignments and removal patterns; the survivors are exactly those not matched.
func H_Remove() { remove(false) }

// H_RemoveCan: the same, observed by role checks.
func H_RemoveCan() { remove(true) }

func remove(can bool) {
	w := &world{}
	w.tenants = []*tcfg{
		{id: "t0", def: "n0", ns: map[string][]string{"n0": {"s0"}, "n1": nil}},
		{id: "t1", def: "n0", ns: map[string][]string{"n0": {"s0"}}}}
	w.perms = map[string][]string{"r0": {"a x"}, "r1": {"b x"}}
	a := v2.NewAuthorizer()
	w.build(a)
	if can {
		w.asgs = warm(a)
	}
	for i := 0; i < nd.P("assignments", 3); i++ {
		x := asg{p: nd.Pick("principal", "p", "q"), t: nd.Pick("tenant", "t0", "t1"),
			ns: nd.Pick("namespace", "", "n0"), sc: nd.Pick("scope", "", "s0"), role: nd.Pick("role", "r0", "r1"), manage: nd.Bool("manage"), exp: 1}
		if i == 0 && nd.Bool("expired") {
			x.exp = -1
		}
		w.asgs = append(w.asgs, x)
		a.AddPrincipalRole(x.make())
	}
	gone := make([]bool, len(w.asgs))
	for k := 0; k < nd.P("removals", 1); k++ {
		pat := v2.PrincipalRole{Principal: nd.Pick("pattern principal", "", "p", "q"), Tenant: nd.Pick("pattern tenant", "", "t0", "t1"),
			Namespace: nd.Pick("pattern namespace", "", "n0", "n1"), Scope: nd.Pick("pattern scope", "", "s0"), Role: nd.Pick("pattern role", "", "r0", "r1"), ManageChildTenant: nd.Bool("pattern manage")}
		any := false
		for i, x := range w.asgs {
			h := hit(pat, x) && !gone[i]
			gone[i] = gone[i] || h
			any = any || h
		}
		err := a.RemovePrincipalRole(pat)
		nd.CoverIf(err == nil, "removed")
		nd.CoverIf(err != nil, "nothing matched")
		nd.Assert((err == nil) == any, "removal fails exactly when nothing matched")
		if can {
			nd.Assert(a.RemovePrincipalRole(pat) != nil, "a repeated removal finds nothing")
		}
	}
	for i := range w.asgs {
		if gone[i] {
			w.asgs[i].t = "-" // no longer anywhere
		}
	}
	if !can {
		x := asg{p: "p", t: "t0", ns: "n1", role: "r1"}
		w.asgs = append(w.asgs, x)
		a.AddPrincipalRole(x.make())
	}
	q := v2.Request{Principal: nd.Pick("asking", "p", "q"), Tenant: nd.Pick("asked tenant", "", "t0", "t1"), Namespace: nd.Pick("asked namespace", "", "n1"), Scope: nd.Pick("asked scope", "", "s0"),
		Resource: nd.Pick("resource", "a", "b"), Action: "x"}
	if can {
		r := nd.Pick("asked role", "r0", "r1")
		got := a.Can(q, r)
		nd.Observe("held", got)
		nd.CoverIf(got, "granted")
		nd.Assert(got == w.can(q, r), "after removal exactly the remaining roles are held")
		return
	}
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.Assert(got == w.authorize(q), "after removal exactly the remaining assignments confer")
}

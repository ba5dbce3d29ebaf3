package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// H_Links: an arbitrary program of child-role links; refusals are exactly the cycles and the
// hierarchy confers exactly the closure of the accepted links.
func H_Links() {
	names := []string{"r0", "r1", "r2", "r3"}[:nd.P("roles", 3)]
	n := len(names)
	a := v2.NewAuthorizer()
	t := v2.NewTenant("t0", "n0")
	a.AddTenant(t)
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t0", Role: "r0"})
	q := func(i int) v2.Request {
		return v2.Request{Principal: "p", Tenant: "t0", Resource: "x" + names[i], Action: "do"}
	}
	registered := make([]bool, n)
	bare := nd.Choice("role without own permissions", 3) - 1 // -1: none
	register := func(i int) {
		if registered[i] {
			return
		}
		r := v2.NewRole(names[i])
		if i != bare {
			r.AddPermission(v2.NewPermission("c", "x"+names[i], "do"))
		}
		a.AddRole(r)
		registered[i] = true
	}
	late := nd.Choice("registered after the links", n+1) // n: none
	never := nd.Choice("never registered", 3) == 1
	for i := range names {
		if i != late {
			register(i)
		}
	}
	var reach [4][4]bool // by accepted links, reflexive
	for i := range reach {
		reach[i][i] = true
	}
	nops := nd.P("links", 3)
	for k := 0; k < nops; k++ {
		x := nd.Pick("parent", names...)
		ks := []string{nd.Pick("child", names...)}
		if k == nd.P("double", 1) && nd.Choice("two children", 2) == 1 {
			ks = append(ks, nd.Pick("second child", names...))
		}
		cyc := false
		for _, c := range ks {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					isX, isC, r := x == names[i], c == names[j], reach[j][i]
					cyc = cyc || isX && isC && r
				}
			}
		}
		kept := append([]string(nil), ks...)
		err := a.AddChildRole(x, kept...)
		for i := range kept {
			kept[i] = x // the caller's slice is the caller's
		}
		nd.Observe("refused", err != nil)
		nd.CoverIf(err != nil, "refused")
		nd.CoverIf(err == nil, "accepted")
		nd.Assert((err != nil) == cyc, "a link is refused exactly when it closes a cycle")
		for _, c := range ks {
			old := reach
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					add := false
					for u := 0; u < n; u++ {
						for v := 0; v < n; v++ {
							isX, isC, up, down := x == names[u], c == names[v], old[i][u], old[v][j]
							add = add || isX && isC && up && down
						}
					}
					ok := !cyc
					reach[i][j] = old[i][j] || ok && add
				}
			}
		}
	}
	if late < n && !never {
		register(late)
	}
	if late < n && never {
		// what lies behind an unregistered role is left open; it confers nothing itself
		nd.Cover("unregistered")
		nd.Assert(!a.Authorize(q(late)), "an unregistered role confers nothing")
		return
	}
	conf := reach[0][:n]
	for i := 0; i < n; i++ {
		got := a.Authorize(q(i))
		nd.CoverIf(got && i > 0, "inherited")
		nd.Assert(got == (conf[i] && i != bare), "a role confers exactly the permissions of its closure")
		nd.Assert(a.Can(v2.Request{Principal: "p", Tenant: "t0"}, names[i]) == (conf[i] || i == 0), "a role includes exactly the roles of its closure")
	}
}

// H_DAG: the role graph on its own: every sequence of registrations, links, permission changes and
// resolutions; at the end both resolutions give exactly the closure.
func H_DAG() {
	nd.MapOrder(1)
	names := []string{"r0", "r1", "r2"}
	dag := v2.NewRoleDAG()
	objs := make([]*v2.Role, 3)
	own := make([]bool, 3)
	in := make([]bool, 3)
	for i, n := range names {
		objs[i] = v2.NewRole(n)
		own[i] = true
		objs[i].AddPermission(v2.NewPermission("c", "x"+n, "do"))
	}
	var reach [3][3]bool
	for i := range reach {
		reach[i][i] = true
	}
	if nd.Choice("registered before", 2) == 1 {
		dag.AddRole(objs...)
		in = []bool{true, true, true}
	}
	for k := 0; k < nd.P("ops", 3); k++ {
		switch nd.Choice("operation", 4) {
		case 0:
			x, y := nd.Pick("parent", names...), nd.Pick("child", names...)
			cyc := false
			for i := range names {
				for j := range names {
					isX, isY, r := x == names[i], y == names[j], reach[j][i]
					cyc = cyc || isX && isY && r
				}
			}
			err := dag.AddChildRole(x, y)
			nd.CoverIf(err != nil, "refused")
			nd.Assert((err != nil) == cyc, "a link is refused exactly when it closes a cycle")
			old := reach
			for u := range names {
				for v := range names {
					add := false
					for i := range names {
						for j := range names {
							isX, isY, up, down := x == names[i], y == names[j], old[u][i], old[j][v]
							add = add || isX && isY && up && down
						}
					}
					reach[u][v] = old[u][v] || !cyc && add
				}
			}
		case 1:
			i := nd.Choice("role", 3)
			dag.AddRole(objs[i])
			in[i] = true
		case 2:
			x := nd.Pick("resolved", names...)
			dag.ResolvePermissions(x)
			dag.ResolveChildRoles(x)
		case 3:
			i := nd.Choice("role", 3)
			p := v2.NewPermission("c", "x"+names[i], "do")
			if own[i] {
				objs[i].RemovePermission(p)
			} else {
				objs[i].AddPermission(p)
			}
			own[i] = !own[i]
		}
	}
	for i := range names {
		if !in[i] {
			dag.AddRole(objs[i])
		}
	}
	for i, n := range names {
		perms, roles := dag.ResolvePermissions(n), dag.ResolveChildRoles(n)
		np, nr := 0, 0
		for j, o := range names {
			_, p := perms[v2.NewPermission("c", "x"+o, "do").String()]
			_, r := roles[o]
			nd.Assert(r == reach[i][j], "the roles resolved are those of the closure")
			nd.Assert(p == (reach[i][j] && own[j]), "the permissions resolved are those of the closure")
			if p {
				np++
			}
			if r {
				nr++
			}
		}
		nd.Assert(len(perms) == np && len(roles) == nr, "nothing else is resolved")
		nd.Observe("roles", nr)
	}
	nd.Cover("done")
}

// H_Asked: roles of any shape, with and without permissions of their own, asked about one after
// another in any order; each confers exactly its closure whatever was asked before.
func H_Asked() {
	nd.MapOrder(nd.P("order", 0))
	names := []string{"r0", "r1", "r2", "r3"}[:nd.P("roles", 3)]
	n := len(names)
	a := v2.NewAuthorizer()
	t := v2.NewTenant("t", "c")
	a.AddTenant(t)
	own := make([]bool, n)
	var reach [4][4]bool
	for i, r := range names {
		reach[i][i] = true
		o := v2.NewRole(r)
		own[i] = nd.Choice("own permission", 2) == 1
		if own[i] {
			o.AddPermission(v2.NewPermission("", "x"+r, "do"))
		}
		a.AddRole(o)
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p" + r, Tenant: "t", Role: r})
	}
	for i := n - 2; i >= 0; i-- {
		for j := i + 1; j < n; j++ {
			if nd.Choice("link", 2) == 1 {
				nd.Assert(a.AddChildRole(names[i], names[j]) == nil, "an acyclic link is accepted")
				for k := range names {
					reach[i][k] = reach[i][k] || reach[j][k]
				}
			}
		}
	}
	for k := 0; k < nd.P("questions", 2); k++ {
		h, x := nd.Pick("holder", names...), nd.Pick("asked about", names...)
		confers, includes := false, false
		for i := range names {
			for j := range names {
				isH, isX := h == names[i], x == names[j]
				confers = confers || isH && isX && reach[i][j] && own[j]
				includes = includes || isH && isX && reach[i][j]
			}
		}
		got := a.Authorize(v2.Request{Principal: "p" + h, Tenant: "t", Resource: "x" + x, Action: "do"})
		nd.Observe("granted", got)
		nd.CoverIf(got && h != x, "inherited")
		nd.CoverIf(!got, "denied")
		nd.Assert(got == confers, "a role confers exactly its closure whatever was asked before")
		nd.Assert(a.Can(v2.Request{Principal: "p" + h, Tenant: "t"}, x) == includes, "a role includes exactly its closure whatever was asked before")
	}
}

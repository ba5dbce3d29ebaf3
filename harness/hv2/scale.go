package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// H_Setup: a tenant built by an arbitrary program of calls; a request resolves the namespace and
// the scope exactly as the calls made them.
func H_Setup() {
	nd.MapOrder(1)
	names := []string{"n0", "n1"}
	a := v2.NewAuthorizer()
	var t *v2.Tenant
	def := ""
	ns := [2]bool{}
	sc := [2][2]bool{}
	switch nd.Choice("new tenant", 2) {
	case 0:
		t = v2.NewTenant("t")
	case 1:
		t = v2.NewTenant("t", "n0")
		def, ns[0] = "n0", true
	}
	r := v2.NewRole("r")
	r.AddPermission(perm("a x"))
	a.AddRole(r)
	late := nd.Choice("registered", 2) == 1
	if !late {
		a.AddTenant(t)
	}
	for k := 0; k < nd.P("ops", 3); k++ {
		n := nd.Choice("namespace", 2)
		switch nd.Choice("operation", 4) {
		case 0:
			t.AddNamespace(names[n])
			ns[n] = true
		case 1:
			t.AddNamespace(names[n], true)
			ns[n] = true
			def = names[n]
		case 2:
			t.AddNamespace(names[n], false)
			ns[n] = true
		case 3:
			two := nd.Choice("scopes", 2) == 1
			s := nd.Choice("scope", 2)
			scopes := []*v2.Scope{v2.NewScope([]string{"s0", "s1"}[s])}
			if two {
				scopes = append(scopes, v2.NewScope([]string{"s1", "s0"}[s]))
			}
			err := t.AddScopeToNamespace(names[n], scopes...)
			nd.Assert((err != nil) == !ns[n], "a scope is refused exactly when the namespace does not exist")
			if ns[n] {
				sc[n][s] = true
				if two {
					sc[n][1-s] = true
				}
			}
		}
	}
	if late {
		a.AddTenant(t)
	}
	x := asg{p: "p", t: "t", ns: nd.Pick("assignment namespace", "", "n0", "n1"), role: "r"}
	a.AddPrincipalRole(x.make())
	q := v2.Request{Principal: "p", Tenant: "t", Namespace: nd.Pick("namespace", "", "n0", "n1"), Scope: nd.Pick("scope", "", "s0", "s1"), Resource: "a", Action: "x"}
	implied := def
	if def == "" && ns[0] != ns[1] {
		implied = "n0"
		if ns[1] {
			implied = "n1"
		}
	}
	want := false
	for i, n := range names {
		meant := q.Namespace == n || q.Namespace == "" && implied == n
		inScope := q.Scope == "" || q.Scope == "s0" && sc[i][0] || q.Scope == "s1" && sc[i][1]
		wide := x.ns == "" || x.ns == n
		want = want || ns[i] && meant && inScope && wide
	}
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "namespace and scope resolve as the tenant was set up")
	nd.Assert(a.Can(q, "r") == want, "the role check resolves namespace and scope alike")
}

// many holds distinct names in ascending order.
var many = manyNames()

func manyNames() (names []string) {
	for _, i := range "0123456789abcdefghijklmnopqrstuvwxyz" {
		for _, j := range "0123456789abcdefghijklmnopqrstuvwxyz" {
			names = append(names, string([]byte{byte(i), byte(j)}))
		}
	}
	return
}

// some returns all of the first n names, or the outermost and middle ones when there are many.
func some(n int) []string {
	if n <= 20 {
		return many[:n]
	}
	return []string{many[0], many[1], many[n/2], many[n-2], many[n-1]}
}

// H_Long: a chain of many roles, each with its own permission; any of them held, any asked, and
// any further link.
func H_Long() { long(nd.P("roles", 12)) }

// H_BigLong: the same with more roles, the outermost and middle ones held and asked.
func H_BigLong() { long(nd.P("roles", 100)) }

func long(n int) {
	nd.MapOrder(1)
	a := v2.NewAuthorizer()
	a.AddTenant(v2.NewTenant("t", "n"))
	for i := 0; i < n; i++ {
		r := v2.NewRole(many[i])
		r.AddPermission(v2.NewPermission("", "x"+many[i], "do"))
		a.AddRole(r)
	}
	for i := n - 2; i >= 0; i-- {
		if err := a.AddChildRole(many[i], many[i+1]); err != nil {
			nd.Assert(false, "a chain is accepted")
		}
	}
	held, asked := nd.Pick("held", some(n)...), nd.Pick("asked", some(n)...)
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Role: held})
	q := v2.Request{Principal: "p", Tenant: "t", Resource: "x" + asked, Action: "do"}
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == (held <= asked), "a role confers the permissions of the whole chain below it")
	nd.Assert(a.Can(q, asked) == (held <= asked), "a role includes the whole chain below it")
	err := a.AddChildRole(asked, held)
	nd.Assert((err != nil) == (held <= asked), "a link is refused exactly when it closes a cycle")
	nd.Assert(a.Authorize(q) == (held <= asked), "a further link upwards changes nothing here")
}

// H_Deep: a chain of many tenants below one another, the principal managing all of them, one
// conferring assignment anywhere.
func H_Deep() { deep(nd.P("tenants", 7)) }

// H_BigDeep: the same with more tenants, the outermost and middle ones conferring, asked and not managed.
func H_BigDeep() { deep(nd.P("tenants", 60)) }

func deep(n int) {
	nd.MapOrder(1)
	a := v2.NewAuthorizer()
	var ts []*v2.Tenant
	for i := 0; i < n; i++ {
		ts = append(ts, v2.NewTenant(many[i], "n"))
		if i > 0 {
			ts[i-1].AddChildTenant(ts[i])
		}
		a.AddTenant(ts[i])
	}
	r := v2.NewRole("r")
	r.AddPermission(perm("a x"))
	a.AddRoles(v2.NewRole("none"), r)
	at, asked := nd.Int("conferring", 0, n-1), nd.Int("asked", 0, n-1)
	gap := nd.Int("not managed", -1, n-1)
	tenant := nd.Pick("tenant", some(n)...)
	if n > 20 {
		at, gap = []int{0, 1, n / 2, n - 2, n - 1}[nd.Choice("conferring", 5)], []int{-1, 0, 1, n / 2, n - 2, n - 1}[nd.Choice("not managed", 6)]
	}
	for i := 0; i < n; i++ {
		is := tenant == many[i]
		nd.Assume(is == (asked == i))
	}
	for i := 0; i < n; i++ {
		role := "none"
		if i == at {
			role = "r"
		}
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: many[i], Role: role, ManageChildTenant: i != gap})
	}
	want := asked <= at && !(asked <= gap && gap < at)
	q := v2.Request{Principal: "p", Tenant: tenant, Resource: "a", Action: "x"}
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "a manager acts through the whole chain of child tenants")
	nd.Assert(a.Can(q, "r") == want, "a manager's roles count through the whole chain of child tenants")
}

// H_Wide: many assignments, permissions, child roles, namespaces and scopes; one of each matters.
func H_Wide() { wide(nd.P("many", 14)) }

// H_Big: the same with more of each, the outermost and middle ones asked.
func H_Big() { wide(nd.P("many", 70)) }

func wide(n int) {
	nd.MapOrder(1)
	a := v2.NewAuthorizer()
	t := v2.NewTenant("t")
	a.AddTenant(t)
	for i := 0; i < n; i++ {
		t.AddNamespace("n" + many[i])
		t.AddScopeToNamespace("n"+many[i], v2.NewScope("s"+many[i]), v2.NewScope("s"))
		for j := 0; j < n && i == 0; j++ {
			t.AddScopeToNamespace("n00", v2.NewScope("s"+many[j]))
		}
	}
	top := v2.NewRole("top")
	a.AddRole(top)
	for i := 0; i < n; i++ {
		r := v2.NewRole("r" + many[i])
		r.AddPermission(v2.NewPermission("", "x"+many[i], "do"))
		a.AddRole(r)
		if err := a.AddChildRole("top", "r"+many[i]); err != nil {
			nd.Assert(false, "many children are accepted")
		}
		top.AddPermission(v2.NewPermission("", "y"+many[i], "do"))
	}
	k := nd.Pick("which", some(n)...)
	for i := 0; i < n; i++ {
		ns := "n" + many[i]
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Namespace: ns, Role: "r" + many[i]})
	}
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "q", Tenant: "t", Role: "top"})
	other := nd.Pick("other", some(n)...)
	ask := func(p, ns, res string) bool {
		return a.Authorize(v2.Request{Principal: p, Tenant: "t", Namespace: ns, Resource: res, Action: "do"})
	}
	got := ask("p", "n"+other, "x"+k)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == (k == other), "each of many assignments counts in its namespace")
	nd.Assert(ask("q", "n"+other, "x"+k), "each of many child roles counts")
	nd.Assert(ask("q", "n"+other, "y"+k), "each of many permissions counts")
	nd.Assert(a.Authorize(v2.Request{Principal: "q", Tenant: "t", Namespace: "n00", Scope: "s" + k, Resource: "y00", Action: "do"}), "each of many scopes exists")
	nd.Assert(a.AddChildRole("r"+k, "top") != nil, "a link from one of many children back to its parent is refused")
	nd.Assert(a.AddChildRole("top", "r"+k, "top") != nil, "a link of a role with many children to itself is refused")
	nd.Assert(!ask("p", "n"+k, "y"+k), "a refused link changes nothing")
	pat := v2.PrincipalRole{Role: "r" + k}
	nd.Assert(a.RemovePrincipalRole(pat) == nil, "each of many assignments can be removed")
	got = ask("p", "n"+other, "x"+other)
	nd.Assert(got == (k != other), "removing one of many assignments leaves the others")
	top.RemovePermission(v2.NewPermission("", "y"+k, "do"))
	nd.Assert(ask("q", "n00", "y"+other) == (k != other), "removing one of many permissions leaves the others")
}

// H_BigPrincipals: many principals in many tenants, each with a role of its own; the outermost and
// middle ones ask for what they or another hold.
func H_BigPrincipals() {
	nd.MapOrder(1)
	n := nd.P("many", 70)
	a := v2.NewAuthorizer()
	a.AddTenant(v2.NewTenant("t", "n"))
	for i := 0; i < n; i++ {
		a.AddTenant(v2.NewTenant("t"+many[i], "n"))
		r := v2.NewRole("r" + many[i])
		r.AddPermission(v2.NewPermission("", "x"+many[i], "do"))
		a.AddRole(r)
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p" + many[i], Tenant: "t", Role: "r" + many[i]})
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p" + many[i], Tenant: "t" + many[i], Role: "r" + many[i]})
	}
	k, o, w := nd.Pick("asking", some(n)...), nd.Pick("asked", some(n)...), nd.Pick("where", some(n)...)
	got := a.Authorize(v2.Request{Principal: "p" + k, Tenant: "t", Resource: "x" + o, Action: "do"})
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == (k == o), "each of many principals holds its own role only")
	got = a.Authorize(v2.Request{Principal: "p" + k, Tenant: "t" + w, Resource: "x" + o, Action: "do"})
	nd.Assert(got == (k == o && k == w), "each of many tenants has its own principal only")
	nd.Assert(a.Can(v2.Request{Principal: "p" + k, Tenant: "t" + w}, "r"+o) == (k == o && k == w), "the role check keeps many principals and tenants apart")
}

// H_AtOnce: one thing given first and several given in one call; each counts, and nothing else does.
func H_AtOnce() {
	n := nd.P("many", 4)
	ids := append([]string{"first"}, many[:n]...)
	a := v2.NewAuthorizer()
	t := v2.NewTenant("t", "c")
	a.AddTenant(t)
	r := v2.NewRole("r")
	r.AddPermission(perm("a x"))
	a.AddRole(r)
	x := &v2.PrincipalRole{Principal: "p", Tenant: "t", Role: "r"}
	k := nd.Pick("asked", append([]string{"other"}, ids...)...)
	q := v2.Request{Principal: "p", Tenant: "t", Resource: "a", Action: "x"}
	want := k != "other"
	switch nd.Choice("what", 8) {
	case 0: // scopes of a namespace
		var l []*v2.Scope
		for _, i := range ids {
			l = append(l, v2.NewScope(i))
		}
		nd.Assert(t.AddScopeToNamespace("c", l[0]) == nil && t.AddScopeToNamespace("c", l[1:]...) == nil, "a known namespace takes scopes")
		a.AddPrincipalRole(x)
		q.Scope = k
	case 1: // tenants below
		x.ManageChildTenant = true
		x.Role = ""
		a.AddPrincipalRole(x)
		var l []*v2.Tenant
		for _, i := range ids {
			l = append(l, v2.NewTenant(i, "c"))
		}
		t.AddChildTenant(l[0])
		t.AddChildTenant(l[1:]...)
		a.AddTenants(l...)
		a.AddTenant(v2.NewTenant("other", "c"))
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: k, Role: "r"})
	case 2: // tenants registered
		var l []*v2.Tenant
		for _, i := range ids {
			l = append(l, v2.NewTenant(i, "c"))
		}
		a.AddTenants(l[0])
		a.AddTenants(l[1:]...)
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: k, Role: "r"})
		q.Tenant = k
	case 3: // permissions
		var l []*v2.Permission
		for _, i := range ids {
			l = append(l, v2.NewPermission("c", i, "x"))
		}
		r.AddPermission(l[0])
		r.AddPermission(l[1:]...)
		a.AddPrincipalRole(x)
		q.Resource = k
	case 4: // permissions removed
		var l []*v2.Permission
		for _, i := range ids {
			l = append(l, v2.NewPermission("c", i, "x"))
		}
		r.AddPermission(append(l, v2.NewPermission("c", "other", "x"))...)
		r.RemovePermission(l[0])
		r.RemovePermission(l[1:]...)
		a.AddPrincipalRole(x)
		q.Resource, want = k, !want
	case 5: // roles
		var l []*v2.Role
		for _, i := range ids {
			o := v2.NewRole(i)
			o.AddPermission(perm("a x"))
			l = append(l, o)
		}
		a.AddRoles(l[0])
		a.AddRoles(l[1:]...)
		x.Role = k
		a.AddPrincipalRole(x)
	case 6: // child roles
		for _, i := range append([]string{"other"}, ids...) {
			o := v2.NewRole(i)
			o.AddPermission(v2.NewPermission("c", i, "x"))
			a.AddRole(o)
		}
		nd.Assert(a.AddChildRole("r", ids[0]) == nil && a.AddChildRole("r", ids[1:]...) == nil, "acyclic links are accepted")
		a.AddPrincipalRole(x)
		q.Resource = k
		nd.Assert(a.Can(q, k) == want, "each of several child roles is included")
	case 7: // assignments
		var l []*v2.PrincipalRole
		for _, i := range ids {
			l = append(l, &v2.PrincipalRole{Principal: i, Tenant: "t", Role: "r"})
		}
		a.AddPrincipalRole(l[0])
		a.AddPrincipalRole(l[1:]...)
		q.Principal = k
	}
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "each of several things given at once counts")
}

package main

import (
	permission "github.com/oarkflow/permission"
	"verif/harness/nd"
)

// H_Changes: rows, tenant links, role links and permissions added in any order with decisions and
// queries in between; the answer is that of a manager to which the same was done without them.
func H_Changes() {
	w := &world{tenants: []string{"t0", "t1", "t2"}, kids: map[string][]string{}, links: map[string][]string{}, perms: map[string][]string{"r0": nil, "r1": {"b"}}}
	m, f := w.build(), w.build()
	both := func(do func(m *permission.RoleManager) bool) {
		x, y := do(m), do(f)
		nd.Assert(x == y, "an operation has the same outcome whatever was decided before")
	}
	q := req{p: "p", hasT: true, t: nd.Pick("tenant", "t0", "t1", "t2")}
	switch nd.Choice("request", 4) {
	case 3:
		q.hasN, q.n = true, "n0"
	case 0:
	case 1:
		q.hasGroup, q.hasAct, q.group, q.act = true, true, "g", nd.Pick("activity", "a x", "b x")
	case 2:
		q.hasS, q.s = true, "s0"
	}
	ask := func() {
		m.Authorize("p", q.options()...)
		m.GetImplicitTenants("p")
		m.TenantChildren("t0")
		m.GetTenantsByPrincipal("p")
		m.GetScopesWithRolesForPrincipal("p", "t0", "n0")
	}
	first := row{t: nd.Pick("row tenant", "t0", "t1"), hasP: true, p: "p", hasR: true, r: "r0", manSet: true, man: nd.Choice("manages", 2) == 1}
	both(func(m *permission.RoleManager) bool { m.AddData(first.data()); return true })
	if nd.Choice("linked before", 2) == 1 {
		both(func(m *permission.RoleManager) bool {
			t, _ := m.GetTenant("t0")
			u, _ := m.GetTenant("t1")
			return t.AddDescendant(u) == nil
		})
	}
	ask()
	for k := 0; k < nd.P("ops", 2); k++ {
		switch nd.Choice("operation", 6) {
		case 0:
			x := row{t: nd.Pick("row tenant", w.tenants...), hasP: true, p: nd.Pick("row principal", "p", "q"), hasR: true, r: nd.Pick("row role", "r0", "r1")}
			both(func(m *permission.RoleManager) bool { m.AddData(x.data()); return true })
		case 1:
			x := row{t: nd.Pick("row tenant", w.tenants...), hasS: true, s: "s0"}
			both(func(m *permission.RoleManager) bool { m.AddData(x.data()); return true })
		case 2:
			l := [][2]string{{"t0", "t1"}, {"t1", "t2"}, {"t0", "t2"}, {"t2", "t1"}, {"t1", "t0"}}[nd.Choice("tenant link", 5)]
			both(func(m *permission.RoleManager) bool {
				t, _ := m.GetTenant(l[0])
				u, _ := m.GetTenant(l[1])
				return t.AddDescendant(u) == nil
			})
		case 3:
			both(func(m *permission.RoleManager) bool {
				r, _ := m.GetRole("r0")
				c, _ := m.GetRole("r1")
				return r.AddDescendant(c) == nil
			})
		case 4:
			r := []string{"r0", "r1"}[nd.Choice("role", 2)]
			both(func(m *permission.RoleManager) bool {
				o, _ := m.GetRole(r)
				return o.AddPermission("g", permission.NewAttribute("a", "x")) == nil
			})
		case 5:
			both(func(m *permission.RoleManager) bool {
				t, _ := m.GetTenant("t1")
				return t.AddPrincipal("p", true, "r1") == nil
			})
		}
		ask()
	}
	got, again, fresh := m.Authorize("p", q.options()...), m.Authorize("p", q.options()...), f.Authorize("p", q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == fresh, "a decision depends on the current data only")
	nd.Assert(got == again, "a repeated decision gives the same answer")
}

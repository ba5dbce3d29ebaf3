package main

import (
	lib "github.com/oarkflow/permission"
	"verif/harness/nd"
)

func descendantIDs(m *lib.RoleManager, t string) []any { return m.TenantChildren(t) }

func asInt(v any) int { return v.(int) }

// H_RolesByPermission: the roles listed per available permission are those that hold it,
// themselves or through a descendant.
func H_RolesByPermission() {
	names := []string{"r0", "r1", "r2"}
	w := newRModel(names)
	m := lib.New()
	shape := nd.Choice("links", 8)
	for i, l := range [][2]string{{"r0", "r1"}, {"r1", "r2"}, {"r0", "r2"}} {
		if shape&(1<<i) != 0 {
			w.kids[l[0]] = append(w.kids[l[0]], l[1])
			w.objs[l[0]].AddDescendant(w.objs[l[1]])
		}
	}
	for i := 0; i < nd.P("perms", 2); i++ {
		r := names[nd.Choice("permission of", 3)]
		p := gperm{nd.Pick("group", "g", "h"), nd.Pick("resource", "a", "b"), nd.Pick("action", "x", "y")}
		w.perms[r] = append(w.perms[r], p)
		w.objs[r].AddPermission(p.group, lib.NewAttribute(p.res, p.act))
	}
	reg := nd.Choice("registered", 2) + 2
	for _, n := range names[:reg] {
		m.AddRole(w.objs[n])
	}
	got := m.GetRolesForAvailablePermissions()
	q := gperm{nd.Pick("asked group", "g", "h"), nd.Pick("asked resource", "a", "b"), nd.Pick("asked action", "x", "y")}
	entries := 0
	for _, e := range got[q.group] {
		if e.Attribute.String() == q.res+" "+q.act {
			entries++
			for i, n := range names {
				in := false
				for _, r := range e.Roles {
					if r == n {
						in = true
					}
				}
				want := i < reg && w.holds(append(w.below(n), n), q)
				nd.Assert(in == want, "the roles of a permission are the registered ones that hold it")
			}
		}
	}
	any := false
	for _, n := range names[:reg] {
		h := w.holds(append(w.below(n), n), q)
		any = any || h
	}
	nd.Observe("entries", entries)
	nd.CoverIf(any, "held")
	nd.Assert(entries <= 1 && (entries == 1) == any, "a permission is listed once, and exactly when a registered role holds it")
}

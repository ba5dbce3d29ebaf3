package main

import (
	lib "github.com/oarkflow/permission/v1"
	"verif/harness/nd"
)

// H_TenantLinks: arbitrary sequences of links among tenants.
func H_TenantLinks() {
	names := []string{"t0", "t1", "t2"}
	m := lib.New()
	objs := map[string]*lib.Tenant{}
	kids := map[string][]string{}
	for _, n := range names {
		objs[n] = lib.NewTenant(n)
		m.AddTenant(objs[n])
	}
	var below func(string) []string
	below = func(t string) []string {
		var out []string
		for _, k := range kids[t] {
			out = append(out, k)
			out = append(out, below(k)...)
		}
		return out
	}
	for k := 0; k < nd.P("links", 3); k++ {
		p, c := names[nd.Choice("parent", 3)], names[nd.Choice("child", 3)]
		closes := c == p
		for _, d := range below(c) {
			if d == p {
				closes = true
			}
		}
		err := objs[p].AddDescendent(objs[c])
		nd.CoverIf(closes, "cycle")
		nd.CoverIf(!closes, "no cycle")
		nd.Assert((err != nil) == closes, "a link is refused exactly when a tenant would become its own descendant")
		if !closes {
			kids[p] = append(kids[p], c)
		}
	}
	t, n := nd.Pick("asked", append(names, "zz")...), nd.Pick("other", names...)
	in, want := false, false
	for _, g := range descendantIDs(m, t) {
		e := g == n
		in = in || e
	}
	for _, x := range names {
		is := x == t
		for _, d := range below(x) {
			e := d == n
			want = want || is && e
		}
	}
	nd.Observe("descendant", in)
	nd.Assert(in == want, "the descendants of a tenant are those reachable")
}

// registry drives one kind of object through a common interface.
type registry struct {
	add   func(id string) (same func() bool, got any, obj any)
	addN  func(ids ...string)
	get   func(id string) (any, bool)
	list  func() []string
	total func() int
	sum   func() int
}

// inUse: objects are given content before they are registered.
var inUse bool

func registryOf(m *lib.RoleManager, kind int) registry {
	switch kind {
	case 0:
		return registry{
			add: func(id string) (func() bool, any, any) {
				o := lib.NewTenant(id)
				if inUse {
					o.AddDescendent(lib.NewTenant(id + "-"))
				}
				g := m.AddTenant(o)
				return func() bool { return g.ID() == id }, g, o
			},
			addN: func(ids ...string) {
				var os []*lib.Tenant
				for _, id := range ids {
					os = append(os, lib.NewTenant(id))
				}
				m.AddTenants(os...)
			},
			get:   func(id string) (any, bool) { o, ok := m.GetTenant(id); return o, ok },
			list:  m.Tenants,
			total: func() int { return int(m.TotalTenants()) }, sum: func() int { return int(m.Summary().Tenants) },
		}
	case 1:
		return registry{
			add: func(id string) (func() bool, any, any) {
				o := lib.NewNamespace(id)
				g := m.AddNamespace(o)
				return func() bool { return g.ID() == id }, g, o
			},
			addN: func(ids ...string) {
				var os []*lib.Namespace
				for _, id := range ids {
					os = append(os, lib.NewNamespace(id))
				}
				m.AddNamespaces(os...)
			},
			get:   func(id string) (any, bool) { o, ok := m.GetNamespace(id); return o, ok },
			list:  m.Namespaces,
			total: func() int { return int(m.TotalNamespaces()) }, sum: func() int { return int(m.Summary().Namespaces) },
		}
	case 2:
		return registry{
			add: func(id string) (func() bool, any, any) {
				o := lib.NewScope(id)
				g := m.AddScope(o)
				return func() bool { return g.ID() == id }, g, o
			},
			addN: func(ids ...string) {
				var os []*lib.Scope
				for _, id := range ids {
					os = append(os, lib.NewScope(id))
				}
				m.AddScopes(os...)
			},
			get:   func(id string) (any, bool) { o, ok := m.GetScope(id); return o, ok },
			list:  m.Scopes,
			total: func() int { return int(m.TotalScopes()) }, sum: func() int { return int(m.Summary().Scopes) },
		}
	case 3:
		return registry{
			add: func(id string) (func() bool, any, any) {
				o := lib.NewPrincipal(id)
				g := m.AddPrincipal(o)
				return func() bool { return g.ID() == id }, g, o
			},
			addN: func(ids ...string) {
				var os []*lib.Principal
				for _, id := range ids {
					os = append(os, lib.NewPrincipal(id))
				}
				m.AddPrincipals(os...)
			},
			get:   func(id string) (any, bool) { o, ok := m.GetPrincipal(id); return o, ok },
			list:  m.Principals,
			total: func() int { return int(m.TotalPrincipals()) }, sum: func() int { return int(m.Summary().Principals) },
		}
	case 4:
		return registry{
			add: func(id string) (func() bool, any, any) {
				o := lib.NewRole(id)
				if inUse {
					o.AddPermission("g", lib.NewAttribute("a", "x"))
				}
				g := m.AddRole(o)
				return func() bool { return g.ID() == id }, g, o
			},
			addN: func(ids ...string) {
				var os []*lib.Role
				for _, id := range ids {
					os = append(os, lib.NewRole(id))
				}
				m.AddRoles(os...)
			},
			get:   func(id string) (any, bool) { o, ok := m.GetRole(id); return o, ok },
			list:  m.Roles,
			total: func() int { return int(m.TotalRoles()) }, sum: func() int { return int(m.Summary().Roles) },
		}
	case 5:
		return registry{
			add: func(id string) (func() bool, any, any) {
				o := lib.NewAttributeGroup(id)
				if inUse {
					o.AddAttributes(lib.NewAttribute("a", "x"))
				}
				g := m.AddAttributeGroup(o)
				return func() bool { return true }, g, o
			},
			addN: func(ids ...string) {
				var os []*lib.AttributeGroup
				for _, id := range ids {
					os = append(os, lib.NewAttributeGroup(id))
				}
				m.AddAttributeGroups(os...)
			},
			get:   func(id string) (any, bool) { o, ok := m.GetAttributeGroup(id); return o, ok },
			total: func() int { return int(m.TotalAttributeGroups()) }, sum: func() int { return int(m.Summary().AttributeGroups) },
		}
	}
	return registry{
		add: func(id string) (func() bool, any, any) {
			o := lib.NewAttribute(id, "x")
			g := m.AddAttribute(o)
			return func() bool { return g.String() == id+" x" }, g, o
		},
		addN: func(ids ...string) {
			var os []*lib.Attribute
			for _, id := range ids {
				os = append(os, lib.NewAttribute(id, "x"))
			}
			m.AddAttributes(os...)
		},
		get: func(id string) (any, bool) { o, ok := m.GetAttribute(id + " x"); return o, ok },
		list: func() []string {
			var out []string
			for _, a := range m.Attributes() {
				n := len(a) - 2
				nd.Assert(n >= 0 && a[n:] == " x", "an attribute is listed by resource and action")
				out = append(out, a[:n])
			}
			return out
		},
		total: func() int { return int(m.TotalAttributes()) }, sum: func() int { return int(m.Summary().Attributes) },
	}
}

// H_Registry: arbitrary additions with arbitrary identifiers; the first object per identifier
// stays, lookups, listings and totals agree, and other kinds are not touched.
func H_Registry() {
	inUse = false
	m := lib.New()
	kind := nd.Choice("kind", 7)
	g := registryOf(m, kind)
	var ids []string
	var objs []any
	n := nd.P("adds", 3)
	bulk := nd.Choice("first two at once", 2) == 1
	if bulk {
		a, b := nd.Str("id", nd.P("len", 2)), nd.Str("id", nd.P("len", 2))
		g.addN(a, b)
		ids = append(ids, a)
		oa, ok := g.get(a)
		nd.Assert(ok, "what was added is found")
		objs = append(objs, oa)
		if a != b {
			ob, ok := g.get(b)
			nd.Assert(ok, "what was added is found")
			ids, objs = append(ids, b), append(objs, ob)
		}
		n -= 2
	}
	used := -1
	if kind == 0 || kind == 4 || kind == 5 {
		used = nd.Choice("object with content", n+1) - 1
	}
	for k := 0; k < n; k++ {
		id := nd.Str("id", nd.P("len", 2))
		known := -1
		for i := range ids {
			if ids[i] == id {
				known = i
			}
		}
		inUse = used == k
		same, got, obj := g.add(id)
		nd.Assert(same(), "the returned object has the identifier")
		if known >= 0 {
			nd.Cover("repeated")
			nd.Assert(got == objs[known], "a known identifier returns the object registered first")
		} else {
			nd.Cover("new")
			nd.Assert(got == obj, "a new identifier returns the object added")
			ids, objs = append(ids, id), append(objs, obj)
		}
	}
	for i := range ids {
		o, ok := g.get(ids[i])
		nd.Assert(ok && o == objs[i], "a lookup finds what was registered first")
	}
	q := nd.Str("asked", nd.P("len", 2))
	want := false
	for i := range ids {
		e := ids[i] == q
		want = want || e
	}
	_, ok := g.get(q)
	nd.Observe("found", ok)
	nd.Assert(ok == want, "a lookup finds exactly what was registered")
	nd.Assert(g.total() == len(ids) && g.sum() == len(ids), "totals and summary count distinct identifiers")
	if g.list != nil {
		l := g.list()
		nd.Assert(len(l) == len(ids), "the listing has one entry per identifier")
		for i := range ids {
			c := 0
			for _, x := range l {
				if x == ids[i] {
					c++
				}
			}
			nd.Assert(c == 1, "the listing holds each identifier once")
		}
	}
	nd.Observe("total", g.total())
	for k := 0; k < 7; k++ {
		if k != kind {
			o := registryOf(m, k)
			nd.Assert(o.total() == 0 && o.sum() == 0 && (o.list == nil || len(o.list()) == 0), "other registries are not touched")
		}
	}
}

// H_Totals: objects of every kind at once; summary, its map form and totals agree.
func H_Totals() {
	inUse = false
	m := lib.New()
	var n [7]int
	for k := 0; k < 7; k++ {
		g := registryOf(m, k)
		a, b := nd.Pick("id", "a", "b"), nd.Pick("id", "a", "b")
		g.add(a)
		n[k] = 1
		if nd.Bool("second") {
			g.add(b)
			if a != b {
				n[k] = 2
			}
		}
	}
	s := m.Summary()
	nd.Assert(int(s.Tenants) == n[0] && int(s.Namespaces) == n[1] && int(s.Scopes) == n[2] && int(s.Principals) == n[3] && int(s.Roles) == n[4] && int(s.AttributeGroups) == n[5] && int(s.Attributes) == n[6], "the summary counts each kind")
	sm := m.SummaryMap()
	for k, name := range []string{"tenants", "namespaces", "scopes", "principals", "roles", "attribute_groups", "attributes"} {
		nd.Assert(asInt(sm[name]) == n[k], "the summary map counts each kind")
		nd.Observe(name, n[k])
	}
	nd.Assert(len(sm) == 7, "the summary map holds the seven kinds")
}

// H_RegistryBig: many objects of a kind; any of the outermost and middle ones added again.
func H_RegistryBig() {
	inUse = false
	m := lib.New()
	g := registryOf(m, nd.Choice("kind", 7))
	n := nd.P("many", 70)
	var objs []any
	for i := 0; i < n; i++ {
		_, got, obj := g.add(many[i])
		nd.Assert(got == obj, "a new identifier returns the object added")
		objs = append(objs, got)
	}
	nd.Assert(g.total() == n && g.sum() == n, "every identifier is counted")
	id := nd.Pick("again", append(some(n), many[n])...)
	_, got, obj := g.add(id)
	isNew := id == many[n]
	nd.Observe("new", isNew)
	nd.CoverIf(isNew, "new")
	nd.CoverIf(!isNew, "repeated")
	for i := range objs {
		if id == many[i] {
			nd.Assert(got == objs[i], "a known identifier returns the object registered first")
		}
	}
	nd.Assert((got == obj) == isNew, "a new identifier returns the object added")
	o, ok := g.get(id)
	nd.Assert(ok && o == got, "a lookup finds what was registered")
	want := n
	if isNew {
		want++
	}
	nd.Assert(g.total() == want && g.sum() == want, "totals and summary count distinct identifiers")
	if g.list != nil {
		nd.Assert(len(g.list()) == want, "the listing has one entry per identifier")
	}
}

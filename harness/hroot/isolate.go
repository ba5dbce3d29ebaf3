package main

import (
	permission "github.com/oarkflow/permission"
	"verif/harness/nd"
)

// H_Isolation: arbitrary rows with and without one more row that belongs to another principal or
// lies in a tenant unrelated to the named one.
func H_Isolation() {
	w := &world{}
	anyTree(w)
	anyRoles(w)
	a := anyRow([]int{0, 1, 3, 8}[nd.Choice("kind", 4)])
	extra := anyRow([]int{0, 1, 3, 7, 8}[nd.Choice("extra kind", 5)])
	q := anyReq(nd.Choice("activity", 2))
	elsewhere := q.hasT && extra.t != q.t && len(w.kids["t0"]) == 0
	nd.Assume(extra.p == "q" || elsewhere)
	m1, m2 := w.build(), w.build()
	m1.AddData(a.data())
	if nd.Choice("extra first", 2) == 1 {
		m2.AddData(extra.data())
		m2.AddData(a.data())
	} else {
		m2.AddData(a.data())
		m2.AddData(extra.data())
	}
	g1, g2 := m1.Authorize("p", q.options()...), m2.Authorize("p", q.options()...)
	nd.Observe("with", g2)
	nd.CoverIf(g1, "granted")
	nd.CoverIf(!g1, "denied")
	nd.Assert(g1 == g2, "a row of another principal or unrelated tenant changes no decision")
	if q.hasT {
		w.rows = []row{a, extra}
		nd.Assert(!g2 || w.implicit("p", q.t), "a grant in a named tenant needs an assignment there or a managed ancestor")
	}
}

// H_History: decisions and queries made before, the order of insertion and the order of map
// iteration change no decision.
func H_History() {
	nd.MapOrder(nd.P("order", 1))
	w := &world{}
	anyTree(w)
	anyRoles(w)
	w.rows = []row{anyRow(nd.Choice("kind", 2)), anyRow([]int{0, 2, 3, 6}[nd.Choice("kind", 4)])}
	for i := 2; i < nd.P("rows", 2); i++ {
		w.rows = append(w.rows, anyRow(nd.Choice("kind", nKinds)))
	}
	q := anyReq(nd.Choice("activity", 2))
	late := len(w.kids["t0"]) > 0 && nd.Choice("tenant link added late", 2) == 1
	kids := w.kids
	if late {
		w.kids = map[string][]string{}
	}
	m := w.build()
	ask := func() {
		m.Authorize("p", q.options()...)
		m.Authorize("q", q.options()...)
		m.GetImplicitTenants("p")
		m.TenantChildren("t0")
		m.GetDescendantTenant("t0")
	}
	ask()
	for _, x := range w.rows {
		m.AddData(x.data())
		ask()
	}
	if late {
		t0, _ := m.GetTenant("t0")
		t1, _ := m.GetTenant("t1")
		nd.Assert(t0.AddDescendant(t1) == nil, "an acyclic tenant link is accepted")
		w.kids = kids
	}
	m2 := w.build()
	for i := len(w.rows) - 1; i >= 0; i-- {
		m2.AddData(w.rows[i].data())
	}
	got, again, fresh := m.Authorize("p", q.options()...), m.Authorize("p", q.options()...), m2.Authorize("p", q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == fresh, "a decision depends on the current data only")
	nd.Assert(got == again, "a repeated decision gives the same answer")
}

// H_Other: any other request made before changes no decision.
func H_Other() {
	w := &world{tenants: []string{"t0", "t1"}, kids: map[string][]string{"t0": {"t1"}}}
	w.perms = map[string][]string{"r0": {"a"}, "r1": {"b"}}
	w.links = map[string][]string{"r0": {"r1"}}
	w.rows = []row{anyRow([]int{0, 3, 1}[nd.Choice("kind", nd.P("holding", 2))]), anyRow([]int{2, 6, 4, 5, 7, 8}[nd.Choice("kind", nd.P("kinds", 6))])}
	nd.Assume(w.rows[0].p == "p" && w.rows[0].r != "r1" && w.rows[1].p != "q" && w.rows[1].r != "r0")
	q1, q2 := anyReq(nd.Choice("activity", 2)), anyReq(nd.Choice("activity", 2))
	m, m2 := w.build(), w.build()
	w.fill(m)
	w.fill(m2)
	m.Authorize("p", q1.options()...)
	got, fresh := m.Authorize("p", q2.options()...), m2.Authorize("p", q2.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == fresh, "a decision does not depend on other requests made before")
}

// H_Deep: tenants three deep, roles three deep with restrictions, managing rows anywhere.
func H_Deep() { decide(deep("p", "q")) }

// H_Orders: the same with either order of insertion and of map iteration.
func H_Orders() {
	nd.MapOrder(nd.P("order", 1))
	w, q := deep("p")
	m := w.build()
	w.fill(m)
	m2 := w.build()
	for i := len(w.rows) - 1; i >= 0; i-- {
		m2.AddData(w.rows[i].data())
	}
	got, again, fresh := m.Authorize("p", q.options()...), m.Authorize("p", q.options()...), m2.Authorize("p", q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == fresh, "a decision depends on the current data only")
	nd.Assert(got == again, "a repeated decision gives the same answer")
}

func deep(holders ...string) (*world, req) {
	w := &world{tenants: []string{"t0", "t1", "t2"}, kids: map[string][]string{}}
	switch nd.Choice("hierarchy", 4) {
	case 0:
		w.kids["t0"], w.kids["t1"] = []string{"t1"}, []string{"t2"}
	case 1:
		w.kids["t0"], w.kids["t1"] = []string{"t1", "t2"}, []string{"t2"}
	case 2:
		w.kids["t1"] = []string{"t0", "t2"}
	case 3:
		w.kids["t0"] = []string{"t2"}
		w.kids["t1"] = []string{"t2"}
	}
	w.perms = map[string][]string{"r0": nil, "r1": {"b"}, "r2": {"a"}}
	w.links = map[string][]string{"r0": {"r1"}, "r1": {"r2"}}
	ts := w.tenants
	for i := 0; i < 2; i++ {
		w.rows = append(w.rows, row{t: nd.Pick("row tenant", ts...), hasP: true, p: nd.Pick("row principal", holders...), hasR: true, r: nd.Pick("row role", roleNames...), manSet: true, man: nd.Choice("manages", 2) == 1})
	}
	switch nd.Choice("third", 3) {
	case 0:
		w.rows = append(w.rows, row{t: nd.Pick("row tenant", ts...), hasR: true, r: nd.Pick("row role", roleNames...)})
	case 1:
		w.rows = append(w.rows, row{t: nd.Pick("row tenant", ts...), hasN: true, n: "n0", hasS: true, s: "s0"})
	case 2:
		w.rows = append(w.rows, row{t: nd.Pick("row tenant", ts...), hasP: true, p: "p", hasS: true, s: "s0"})
	}
	q := req{p: "p", hasT: true, t: nd.Pick("tenant", ts...)}
	switch nd.Choice("request", 4) {
	case 0:
	case 1:
		q.hasGroup, q.hasAct, q.group, q.act = true, true, "g", nd.Pick("activity", "a x", "b x")
	case 2:
		q.hasS, q.s = true, "s0"
	case 3:
		q.hasN, q.n = true, "n0"
		q.hasGroup, q.hasAct, q.group, q.act = true, true, "g", nd.Pick("activity", "a x", "b x")
	}
	return w, q
}

// api makes a configuration by arbitrary calls of the tenant API.
func api() (*world, *permission.RoleManager) {
	w := &world{tenants: []string{"t0", "t1"}, kids: map[string][]string{}}
	anyRoles(w)
	m := w.build()
	t := map[string]*permission.Tenant{}
	for _, id := range w.tenants {
		t[id], _ = m.GetTenant(id)
	}
	def := map[string]string{}
	add := func(x row) { w.rows = append(w.rows, x) }
	if k := nd.Choice("linked with a default namespace", nd.P("defs", 2)); k > 0 {
		if k > 1 { // the child has its own
			t["t1"].SetDefaultNamespace("n1")
			def["t1"] = "n1"
		}
		if k < 3 {
			t["t0"].SetDefaultNamespace("n0")
			def["t0"], def["t1"] = "n0", "n0"
			add(row{t: "t1", hasN: true, n: "n0"})
		}
		t["t0"].AddDescendant(t["t1"])
		w.kids["t0"] = []string{"t1"}
	}
	for k := 0; k < nd.P("ops", 2); k++ {
		id := w.tenants[nd.Choice("on tenant", 2)]
		o := t[id]
		switch nd.Choice("operation", 11) {
		case 0:
			n, _ := m.GetNamespace("n0")
			o.AddNamespaces(n)
			add(row{t: id, hasN: true, n: "n0"})
		case 1:
			s, _ := m.GetScope("s0")
			o.AddScopes(s)
			add(row{t: id, hasS: true, s: "s0"})
		case 2:
			o.AddScopesToNamespace("n0", "s0")
			add(row{t: id, hasN: true, n: "n0", hasS: true, s: "s0"})
		case 3:
			r, _ := m.GetRole("r1")
			o.AddRoles(r)
			add(row{t: id, hasR: true, r: "r1"})
		case 4:
			p, r, man := name("principal", 1, "p", "q", "z"), name("role", 2, "r0", "r1", "zz"), nd.Choice("manages", 2) == 1
			err := o.AddPrincipal(p, man, r)
			bad := !nd.One(p, "p", "q") || !nd.One(r, roleNames...)
			nd.Assert((err != nil) == bad, "an unknown principal or role, and only that, is refused")
			if !bad {
				add(row{t: id, hasP: true, p: p, hasR: true, r: r, manSet: true, man: man})
				if def[id] != "" {
					add(row{t: id, hasN: true, n: def[id], hasP: true, p: p, hasR: true, r: r, manSet: true, man: man})
				}
			}
		case 5:
			p, s, man := name("principal", 1, "p", "q", "z"), name("scope", 2, "s0", "s1", "zz"), nd.Choice("manages", 2) == 1
			err := o.AssignScopesToPrincipal(p, man, s)
			bad := !nd.One(p, "p", "q") || !nd.One(s, "s0", "s1")
			nd.Assert((err != nil) == bad, "an unknown principal or scope, and only that, is refused")
			if !bad {
				add(row{t: id, hasP: true, p: p, hasS: true, s: s, manSet: true, man: man})
				if def[id] != "" {
					add(row{t: id, hasN: true, n: def[id], hasP: true, p: p, hasS: true, s: s, manSet: true, man: man})
				}
			}
		case 6:
			p, r := name("principal", 1, "p", "q", "z"), name("role", 2, "r0", "r1", "zz")
			o.AddPrincipalInNamespace(p, "n0", r)
			add(row{t: id, hasN: true, n: "n0", hasP: true, p: p, hasR: true, r: r})
		case 7:
			o.SetDefaultNamespace("n0")
			def[id] = "n0"
		case 8:
			o.SetDefaultNamespace("zz") // unknown: ignored
		case 9:
			nd.Assume(id == "t0")
			nd.Assert(o.AddDescendant(t["t1"]) == nil, "an acyclic tenant link is accepted")
			w.kids["t0"] = []string{"t1"}
			if def["t0"] != "" {
				add(row{t: "t1", hasN: true, n: def["t0"]})
				def["t1"] = def["t0"]
			}
		case 10:
			// AddPrincipal with a second unknown role keeps the first
			nd.Assert(o.AddPrincipal("p", false, "r0", "zz") != nil, "an unknown role is refused")
			add(row{t: id, hasP: true, p: "p", hasR: true, r: "r0", manSet: true})
			if def[id] != "" {
				add(row{t: id, hasN: true, n: def[id], hasP: true, p: "p", hasR: true, r: "r0", manSet: true})
			}
		}
	}
	return w, m
}

// H_APIRows: each call adds exactly the rows it says.
func H_APIRows() {
	w, m := api()
	got := m.Data().Data()
	ok := true
	for _, d := range got {
		known := false
		for _, x := range w.rows {
			e := x.is(d)
			known = known || e
		}
		ok = ok && known
	}
	nd.Assert(ok, "no row but those the calls name")
	for _, x := range w.rows {
		c := 0
		for _, d := range got {
			if x.is(d) {
				c++
			}
		}
		nd.Assert(c == 1, "every row the calls name, once")
	}
	nd.Cover("done")
	nd.Observe("rows", len(got))
}

// is: d is the row x.
func (x row) is(d *permission.Data) bool {
	eq := func(has bool, v string, g any) bool {
		if g == nil {
			return !has
		}
		return has && g.(string) == v
	}
	t, n, s, p, r := eq(true, x.t, d.Tenant), eq(x.hasN, x.n, d.Namespace), eq(x.hasS, x.s, d.Scope), eq(x.hasP, x.p, d.Principal), eq(x.hasR, x.r, d.Role)
	man := !x.manSet
	if d.ManageDescendants != nil {
		man = x.manSet && d.ManageDescendants.(bool) == x.man
	}
	return t && n && s && p && r && man
}

// H_API: every request on a configuration made by arbitrary calls.
func H_API() {
	w, m := api()
	q := req{p: nd.Pick("asking", "p", "q", "zz"), hasT: true, t: nd.Pick("tenant", "t0", "t1")}
	switch nd.Choice("request", 6) {
	case 0:
	case 5:
		q.hasN, q.n, q.hasS, q.s = true, "n0", true, "s0"
	case 1:
		q.hasN, q.n = true, "n0"
	case 2:
		q.hasS, q.s = true, "s0"
	case 3:
		q.hasN, q.n = true, "n0"
		q.hasGroup, q.hasAct, q.group, q.act = true, true, "g", nd.Pick("activity", "a x", "b x")
	case 4:
		q.hasGroup, q.hasAct, q.group, q.act = true, true, "g", nd.Pick("activity", "a x", "b x")
	}
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.authorize(q), "the API confers exactly what it says")
}

// name is an arbitrary identifier of that length, or one of the given ones.
func name(what string, k int, some ...string) string {
	if nd.P("free", 0) == 1 {
		return nd.Str(what, k)
	}
	return nd.Pick(what, some...)
}

package main

import (
	lib "github.com/oarkflow/permission/v1"
	"verif/harness/nd"
)

// row is one assignment; "" = not bound.
type row struct{ t, p, r, n, s string }

type world struct {
	reg   []string            // registered tenants
	ns    map[string][]string // tenant -> namespaces
	sc    map[string][]string // tenant -> scopes
	roles map[string][]string // tenant -> roles
	rows  []row
	perms map[string][]gperm
	kids  map[string][]string
}

var roleNames = []string{"r0", "r1"}

func (w *world) build() *lib.RoleManager {
	m := lib.New()
	ro := map[string]*lib.Role{}
	for _, r := range roleNames {
		ro[r] = lib.NewRole(r)
		for _, p := range w.perms[r] {
			ro[r].AddPermission(p.group, lib.NewAttribute(p.res, p.act))
		}
		m.AddRole(ro[r])
	}
	for _, r := range roleNames {
		for _, k := range w.kids[r] {
			nd.Assert(ro[r].AddDescendent(ro[k]) == nil, "an acyclic link is accepted")
		}
	}
	for _, t := range w.reg {
		o := m.AddTenant(lib.NewTenant(t))
		for _, n := range w.ns[t] {
			x := m.AddNamespace(lib.NewNamespace(n))
			o.AddNamespace(x)
		}
		for _, s := range w.sc[t] {
			x := m.AddScope(lib.NewScope(s))
			o.AddScopes(x)
		}
		for _, r := range w.roles[t] {
			o.AddRole(ro[r])
		}
	}
	// the hierarchy of tenants confers nothing in v1
	if len(w.reg) > 1 {
		a, _ := m.GetTenant(w.reg[0])
		b, _ := m.GetTenant(w.reg[1])
		nd.Assert(a.AddDescendent(b) == nil, "an acyclic tenant link is accepted")
	}
	m.AddPrincipals(lib.NewPrincipal("p"), lib.NewPrincipal("q"))
	return m
}

func put(m *lib.RoleManager, x row, manages ...bool) {
	var n *lib.Namespace
	var s *lib.Scope
	if x.n != "" {
		n = lib.NewNamespace(x.n)
	}
	if x.s != "" {
		s = lib.NewScope(x.s)
	}
	m.AddPrincipalRole(x.p, x.r, lib.NewTenant(x.t), n, s, manages...)
}

func (w *world) fill(m *lib.RoleManager) {
	for _, x := range w.rows {
		put(m, x)
	}
}

type req struct {
	p                string
	t, n, s          string
	hasT, hasN, hasS bool
	group, act       string
	hasG, hasA       bool
}

func (q req) options() []func(*lib.Option) {
	var o []func(*lib.Option)
	if q.hasT {
		o = append(o, lib.WithTenant(q.t))
	}
	if q.hasN {
		o = append(o, lib.WithNamespace(q.n))
	}
	if q.hasS {
		o = append(o, lib.WithScope(q.s))
	}
	if q.hasG {
		o = append(o, lib.WithResourceGroup(q.group))
	}
	if q.hasA {
		o = append(o, lib.WithActivity(q.act))
	}
	return o
}

func in(x string, l []string) bool {
	r := false
	for _, y := range l {
		e := x == y
		r = r || e
	}
	return r
}

// contains: registered tenant t (symbolic) holds x according to the table.
func (w *world) contains(t, x string, table map[string][]string) bool {
	r := false
	for _, u := range w.reg {
		is, has := t == u, in(x, table[u])
		r = r || is && has
	}
	return r
}

// member is the exact answer to a request without activity.
func (w *world) member(q req) bool {
	r, open, part := false, false, false
	for _, x := range w.rows {
		own := x.p == q.p
		here, ns, sc := x.t == q.t, x.n == q.n, x.s == q.s
		reg := in(x.t, w.reg)
		switch {
		case q.hasT && q.hasN && q.hasS:
			anon := x.p == ""
			r = r || own && here && ns && sc
			open = open || anon && here && ns && sc
			part = part || own && here
		case q.hasT && q.hasN:
			r = r || own && here && ns
		case q.hasT && q.hasS:
			r = r || own && here && sc
		case q.hasN && q.hasS:
			r = r || own && ns && sc
		case q.hasT:
			r = r || own && here && reg
		case q.hasN:
			c := w.contains(x.t, q.n, w.ns)
			r = r || own && c
		case q.hasS:
			c := w.contains(x.t, q.s, w.sc)
			r = r || own && sc && c
		}
	}
	known := q.p == "p" || q.p == "q"
	return known && (r || open && part)
}

func (w *world) ownPermits(role, group, act string) bool {
	r := false
	for _, x := range roleNames {
		is := role == x
		for _, p := range w.perms[x] {
			g, d := p.group == group, describes(p, act)
			r = r || is && g && d
		}
	}
	return r
}

func (w *world) permits(role, group, act string) bool {
	r := w.ownPermits(role, group, act)
	for _, x := range roleNames {
		is := role == x
		for _, k := range w.kids[x] {
			o := w.ownPermits(k, group, act)
			r = r || is && o
		}
	}
	return r
}

// may: some assignment could justify granting the activity.
func (w *world) may(q req) bool {
	r := false
	for _, x := range w.rows {
		own, reg, pm := x.p == q.p, in(x.t, w.reg), w.permits(x.r, q.group, q.act)
		if !q.hasT {
			wide := x.n == "" && x.s == ""
			r = r || own && reg && wide && pm
			continue
		}
		here := x.t == q.t
		ns := !q.hasN || x.n == "" || x.n == q.n
		sc := !q.hasS || x.s == "" || x.s == q.s
		r = r || own && here && reg && ns && sc && pm
	}
	known := q.p == "p" || q.p == "q"
	if !q.hasT && (q.hasN || q.hasS || q.hasG) {
		return false
	}
	nsok := !q.hasN || w.contains(q.t, q.n, w.ns)
	scok := !q.hasS || w.contains(q.t, q.s, w.sc)
	return known && nsok && scok && r
}

// must: a role held there and bound nowhere else itself permits the activity; without a tenant,
// a role held tenant-wide where all roles so held are roles of the tenant.
func (w *world) must(q req) bool {
	r, alone := false, false
	for _, x := range w.rows {
		own, here, reg := x.p == q.p, x.t == q.t, in(x.t, w.reg)
		ns := !q.hasN || x.n == "" || x.n == q.n
		sc := !q.hasS || x.s == "" || x.s == q.s
		pm := w.ownPermits(x.r, q.group, q.act)
		r = r || own && here && reg && ns && sc && pm
		proper := x.n == "" && x.s == "" && own && reg && pm
		for _, y := range w.rows {
			wide, known := y.p == q.p && y.t == x.t && y.n == "" && y.s == "", w.contains(y.t, y.r, w.roles)
			proper = proper && (!wide || known)
		}
		alone = alone || proper
	}
	known := q.p == "p" || q.p == "q"
	if !q.hasT {
		return known && alone && !q.hasN && !q.hasS && !q.hasG
	}
	nsok := !q.hasN || w.contains(q.t, q.n, w.ns)
	scok := !q.hasS || w.contains(q.t, q.s, w.sc)
	return q.hasT && known && nsok && scok && r
}

// ---- inputs ----

func anyContents(w *world) {
	w.reg = []string{"t0", "t1"}
	w.ns, w.sc, w.roles = map[string][]string{}, map[string][]string{}, map[string][]string{}
	if nd.Choice("t0 has namespaces", 2) == 1 {
		w.ns["t0"] = []string{"n0", "n1"}
	}
	if nd.Choice("t0 has scopes", 2) == 1 {
		w.sc["t0"] = []string{"s0"}
	}
	w.ns["t1"], w.sc["t1"] = []string{"n1"}, []string{"s0", "s1"}
	w.roles["t0"], w.roles["t1"] = roleNames, []string{"r1"}
}

func anyRoles(w *world) {
	w.perms = map[string][]gperm{"r0": {{"g", "a", "x"}, {"", "a", "x"}}, "r1": {{"g", ":id", "y"}, {"", "b", "x"}}}
	w.kids = map[string][]string{}
	if nd.Choice("r1 below r0", 2) == 1 {
		w.kids["r0"] = []string{"r1"}
	}
}

// anyRow: tenant tx is not registered; the anonymous principal stands for rows that attach
// scopes to namespaces.
func anyRow() row {
	return row{nd.Pick("row tenant", "t0", "t1", "tx"), nd.Pick("row principal", "p", "q", ""), nd.Pick("row role", "r0", "r1", "rx", ""), nd.Pick("row namespace", "n0", "n1", ""), nd.Pick("row scope", "s0", "s1", "")}
}

func anyReq(names, given int) req {
	q := req{p: nd.Pick("asking", "p", "zz")}
	q.hasT, q.hasN, q.hasS = names&1 != 0, names&2 != 0, names&4 != 0
	q.hasG, q.hasA = given&1 != 0, given&2 != 0
	if q.hasT {
		q.t = nd.Pick("tenant", "t0", "t1", "tx", "ty")
	}
	if q.hasN {
		q.n = nd.Pick("namespace", "n0", "n1", "nx")
	}
	if q.hasS {
		q.s = nd.Pick("scope", "s0", "s1", "sx")
	}
	if q.hasG {
		q.group = nd.Pick("group", "g", "h")
	}
	if q.hasA {
		q.act = nd.Pick("activity", "a x", "b x", "a y")
	}
	return q
}

// H_Member: arbitrary assignments, every request without activity.
func H_Member() {
	w := &world{}
	anyContents(w)
	for i := 0; i < nd.P("rows", 2); i++ {
		w.rows = append(w.rows, anyRow())
	}
	m := w.build()
	w.fill(m)
	q := anyReq(nd.Choice("names", 8), 0)
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.member(q), "a membership request is granted exactly when an own assignment says so")
}

// H_Activity: arbitrary assignments, every request with a group or an activity.
func H_Activity() {
	w := &world{}
	anyContents(w)
	anyRoles(w)
	for i := 0; i < nd.P("rows", 2); i++ {
		w.rows = append(w.rows, anyRow())
	}
	m := w.build()
	w.fill(m)
	q := anyReq(nd.Choice("names", 8), 1+nd.Choice("given", 3))
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(!got || w.may(q), "an activity is granted only through an applicable role of the principal")
	nd.Assert(got || !w.must(q), "an activity that a role held and bound nowhere else permits is granted")
}

// H_Isolation: with and without one more assignment of another principal or an unrelated tenant.
func H_Isolation() {
	w := &world{}
	anyContents(w)
	anyRoles(w)
	a, extra := anyRow(), anyRow()
	q := anyReq(nd.Choice("names", 8), []int{0, 2, 3}[nd.Choice("given", 3)])
	elsewhere := q.hasT && extra.t != q.t
	nd.Assume(extra.p == "q" || extra.p == "p" && elsewhere)
	m1, m2 := w.build(), w.build()
	put(m1, a)
	put(m2, a)
	put(m2, extra)
	g1, g2 := m1.Authorize(q.p, q.options()...), m2.Authorize(q.p, q.options()...)
	nd.Observe("granted", g2)
	nd.CoverIf(g1, "granted")
	nd.CoverIf(!g1, "denied")
	nd.Assert(g1 == g2, "an assignment of another principal or unrelated tenant changes no decision")
	if q.hasT {
		part := a.p == q.p && a.t == q.t || extra.p == q.p && extra.t == q.t
		nd.Assert(!g2 || part, "a grant in a named tenant needs an assignment there")
	}
}

// H_Changes: an assignment, a decision, then a change (a further assignment, a permission, a link
// of roles or a namespace and scope of the tenant), and a decision that honours it.
func H_Changes() {
	w := &world{reg: []string{"t0", "t1"}}
	w.ns, w.sc = map[string][]string{"t1": {"n1"}}, map[string][]string{"t1": {"s0", "s1"}}
	w.roles = map[string][]string{"t0": roleNames, "t1": {"r1"}}
	w.perms = map[string][]gperm{"r0": {{"g", "a", "x"}}, "r1": {{"g", "b", "x"}}}
	w.kids = map[string][]string{}
	w.rows = append(w.rows, anyRow())
	m := w.build()
	w.fill(m)
	given := []int{0, 3}[nd.Choice("given", 2)]
	names := nd.Choice("names", 8)
	q := anyReq(names, given)
	before := q
	if nd.Choice("same request before", 2) == 0 {
		before = anyReq(names, given)
	}
	g := m.Authorize(before.p, before.options()...)
	role := func(id string) *lib.Role {
		r, _ := m.GetRole(id)
		return r
	}
	switch nd.Choice("change", 4) {
	case 0:
		x := anyRow()
		w.rows = append(w.rows, x)
		put(m, x)
	case 1:
		r := roleNames[nd.Choice("role", 2)]
		w.perms[r] = append(w.perms[r], gperm{"g", "a", "y"})
		nd.Assert(role(r).AddPermission("g", lib.NewAttribute("a", "y")) == nil, "a permission is added")
	case 2:
		w.kids["r0"] = []string{"r1"}
		nd.Assert(role("r0").AddDescendent(role("r1")) == nil, "a link is made")
	case 3:
		t, _ := m.GetTenant("t0")
		t.AddNamespace(m.AddNamespace(lib.NewNamespace("n0")))
		t.AddScopes(m.AddScope(lib.NewScope("s0")))
		w.ns["t0"], w.sc["t0"] = []string{"n0"}, []string{"s0"}
	}
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got && !g, "denied, then granted")
	nd.CoverIf(!got, "denied")
	if given == 0 {
		nd.Assert(got == w.member(q), "a membership request is granted exactly when an own assignment made so far says so")
		return
	}
	nd.Assert(!got || w.may(q), "an activity is granted only through an applicable role of the principal")
	nd.Assert(got || !w.must(q), "an activity that a role held and bound nowhere else permits is granted")
}

package main

import (
	permission "github.com/oarkflow/permission"
	"verif/harness/nd"
)

// row is one row of tenant data as the reference sees it; "" = absent.
type row struct {
	t, n, s, p, r string
	hasN, hasS    bool
	hasP, hasR    bool
	man           bool
	manSet        bool
}

func opt(has bool, v string) any {
	if !has {
		return nil
	}
	return v
}

func (x row) data() *permission.Data {
	d := &permission.Data{Tenant: x.t, Namespace: opt(x.hasN, x.n), Scope: opt(x.hasS, x.s), Principal: opt(x.hasP, x.p), Role: opt(x.hasR, x.r)}
	if x.manSet {
		d.ManageDescendants = x.man
	}
	return d
}

type world struct {
	tenants []string
	kids    map[string][]string
	rows    []row
	links   map[string][]string // role -> descendants
	perms   map[string][]string // role -> activities in group g
}

var roleNames = []string{"r0", "r1", "r2"}

// build registers everything but the rows.
func (w *world) build() *permission.RoleManager {
	m := permission.New()
	objs := map[string]*permission.Tenant{}
	for _, t := range w.tenants {
		objs[t] = permission.NewTenant(t)
		m.AddTenant(objs[t])
	}
	for _, t := range w.tenants {
		for _, k := range w.kids[t] {
			if objs[t].AddDescendant(objs[k]) != nil {
				nd.Assert(false, "an acyclic tenant link is accepted")
			}
		}
	}
	m.AddNamespaces(permission.NewNamespace("n0"), permission.NewNamespace("n1"))
	m.AddScopes(permission.NewScope("s0"), permission.NewScope("s1"))
	m.AddPrincipals(permission.NewPrincipal("p"), permission.NewPrincipal("q"))
	ro := map[string]*permission.Role{}
	for _, r := range roleNames {
		ro[r] = permission.NewRole(r)
		for _, a := range w.perms[r] {
			ro[r].AddPermission("g", permission.NewAttribute(a, "x"))
		}
		m.AddRole(ro[r])
	}
	for _, r := range roleNames {
		for _, d := range w.links[r] {
			if ro[r].AddDescendant(ro[d]) != nil {
				nd.Assert(false, "an acyclic role link is accepted")
			}
		}
	}
	return m
}

func (w *world) fill(m *permission.RoleManager) {
	for _, x := range w.rows {
		m.AddData(x.data())
	}
}

// desc lists the descendants of a tenant.
func (w *world) desc(t string) []string {
	var out []string
	for _, k := range w.kids[t] {
		out = append(out, k)
		out = append(out, w.desc(k)...)
	}
	return out
}

// below: t is a descendant of u, for symbolic u and t.
func (w *world) below(u, t string) bool {
	r := false
	for _, x := range w.tenants {
		isU := u == x
		for _, d := range w.desc(x) {
			isT := t == d
			r = r || isU && isT
		}
	}
	return r
}

type req struct {
	p                string
	t, n, s          string
	hasT, hasN, hasS bool
	group, act       string
	hasGroup, hasAct bool
}

func (q req) options() []func(*permission.Option) {
	var o []func(*permission.Option)
	if q.hasT {
		o = append(o, permission.WithTenant(q.t))
	}
	if q.hasN {
		o = append(o, permission.WithNamespace(q.n))
	}
	if q.hasS {
		o = append(o, permission.WithScope(q.s))
	}
	if q.hasGroup {
		o = append(o, permission.WithAttributeGroup(q.group))
	}
	if q.hasAct {
		o = append(o, permission.WithActivity(q.act))
	}
	return o
}

func (x row) own(p string) bool    { return x.hasP && x.p == p }
func (x row) common(p string) bool { return !x.hasP || x.p == p }

// implicit: p takes part in tenant t.
func (w *world) implicit(p, t string) bool {
	r := false
	for _, x := range w.rows {
		own, here, under := x.own(p), x.t == t, w.below(x.t, t)
		man := x.man && x.manSet
		r = r || own && (here || man && under)
	}
	return r
}

// permits: role r (symbolic) permits the activity, through descendants only where allowed.
func (w *world) permits(q req, role string, allowed func(string) bool) bool {
	res := false
	for _, r := range roleNames {
		is := role == r
		own := false
		for _, a := range w.perms[r] {
			e := q.group == "g" && q.act == a+" x"
			own = own || e
		}
		inh := false
		for _, d := range w.rdesc(r) {
			al := allowed(d)
			for _, a := range w.perms[d] {
				e := q.group == "g" && q.act == a+" x"
				inh = inh || al && e
			}
		}
		res = res || is && (own || inh)
	}
	return res
}

func (w *world) rdesc(r string) []string {
	var out []string
	for _, k := range w.links[r] {
		out = append(out, k)
		out = append(out, w.rdesc(k)...)
	}
	return out
}

// inTenant: the request, asked in tenant t, is satisfied by the data of t.
func (w *world) inTenant(q req, t string) bool {
	r := false
	if !q.hasGroup && !q.hasAct {
		for _, x := range w.rows {
			here, own, com := x.t == t, x.own(q.p), x.common(q.p)
			ns, sc := x.hasN && x.n == q.n, x.hasS && x.s == q.s
			switch {
			case q.hasN && q.hasS:
				wide := !x.hasN
				r = r || here && com && sc && (wide || ns)
			case q.hasN:
				r = r || here && com && ns
			case q.hasS:
				r = r || here && com && sc
			default:
				r = r || here && own
			}
		}
		return r
	}
	if !q.hasGroup || !q.hasAct {
		return false
	}
	allowed := func(d string) bool {
		a := false
		for _, y := range w.rows {
			here, com, is := y.t == t, y.common(q.p), y.hasR && y.r == d
			a = a || here && com && is
		}
		return a
	}
	for _, x := range w.rows {
		if !x.hasR {
			continue
		}
		here, own := x.t == t, x.own(q.p)
		ns := !q.hasN || !x.hasN || x.n == q.n
		sc := !q.hasS || !x.hasS || x.s == q.s
		pm := w.permits(q, x.r, allowed)
		r = r || here && own && ns && sc && pm
	}
	return r
}

// authorize is the reference decision.
func (w *world) authorize(q req) bool {
	known := q.p == "p" || q.p == "q"
	nsok := !q.hasN || q.n == "n0" || q.n == "n1"
	scok := !q.hasS || q.s == "s0" || q.s == "s1"
	grant := false
	if q.hasT {
		reg := false
		for _, t := range w.tenants {
			e := q.t == t
			reg = reg || e
		}
		part := w.implicit(q.p, q.t)
		in := w.inTenant(q, q.t)
		for _, u := range w.tenants {
			man := false
			for _, x := range w.rows {
				own, here, m := x.own(q.p), x.t == u, x.man && x.manSet
				man = man || own && here && m
			}
			bel, inu := w.below(u, q.t), w.inTenant(q, u)
			in = in || man && bel && inu
		}
		grant = reg && part && in
	} else if q.hasN && q.hasS {
		for _, t := range w.tenants {
			own := false
			for _, x := range w.rows {
				o, here := x.own(q.p), x.t == t
				own = own || o && here
			}
			in := w.inTenant(q, t)
			grant = grant || own && in
		}
	}
	return known && nsok && scok && grant
}

// ---- inputs ----

func anyTree(w *world) {
	w.tenants = []string{"t0", "t1"}
	w.kids = map[string][]string{}
	if nd.Choice("t1 below t0", 2) == 1 {
		w.kids["t0"] = []string{"t1"}
	}
}

func anyRoles(w *world) {
	w.perms = map[string][]string{"r0": {"a"}, "r1": {"b"}}
	w.links = map[string][]string{}
	if nd.Choice("r1 below r0", 2) == 1 {
		w.links["r0"] = []string{"r1"}
	}
}

// kinds of rows that the API produces
const nKinds = 9

func anyRow(kind int) row {
	x := row{t: nd.Pick("row tenant", "t0", "t1")}
	switch kind {
	case 0: // principal role
		x.hasP, x.hasR, x.manSet = true, true, true
	case 1: // principal role in a namespace
		x.hasN, x.hasP, x.hasR = true, true, true
	case 2: // role
		x.hasR = true
	case 3: // scope of a principal
		x.hasS, x.hasP, x.manSet = true, true, true
	case 4: // namespace
		x.hasN = true
	case 5: // scope
		x.hasS = true
	case 6: // scope of a namespace
		x.hasN, x.hasS = true, true
	case 7: // scope of a principal in a namespace
		x.hasN, x.hasS, x.hasP = true, true, true
	case 8: // role in namespace and scope
		x.hasN, x.hasS, x.hasP, x.hasR = true, true, true, true
	}
	if x.hasN {
		x.n = nd.Pick("row namespace", "n0", "n1")
	}
	if x.hasS {
		x.s = nd.Pick("row scope", "s0", "s1")
	}
	if x.hasP {
		x.p = nd.Pick("row principal", "p", "q")
	}
	if x.hasR {
		x.r = nd.Pick("row role", "r0", "r1")
	}
	if x.manSet {
		x.man = nd.Choice("row manages", 2) == 1
	}
	return x
}

func anyReq(activity int) req {
	q := req{p: "p"}
	switch nd.Choice("request names", 8) {
	case 0:
		q.hasT = true
	case 1:
		q.hasT, q.hasN = true, true
	case 2:
		q.hasT, q.hasS = true, true
	case 3:
		q.hasT, q.hasN, q.hasS = true, true, true
	case 4:
		q.hasN, q.hasS = true, true
	case 5:
		q.hasN = true
	case 6:
		q.hasS = true
	}
	if q.hasT {
		q.t = nd.Pick("tenant", "t0", "t1", "tx")
	}
	if q.hasN {
		q.n = nd.Pick("namespace", "n0", "n1", "nx")
	}
	if q.hasS {
		q.s = nd.Pick("scope", "s0", "s1", "sx")
	}
	switch activity {
	case 1:
		q.hasGroup, q.hasAct = true, true
	case 2:
		q.hasGroup = true
	case 3:
		q.hasAct = true
	}
	if q.hasGroup {
		q.group = nd.Pick("group", "g", "h")
	}
	if q.hasAct {
		q.act = nd.Pick("activity", "a x", "b x")
	}
	return q
}

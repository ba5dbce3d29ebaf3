package main

import (
	"time"

	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// asg is an assignment as the reference sees it.
type asg struct {
	p, t, ns, sc, role string
	manage             bool
	exp                int // hours from now, 0 = no expiry
}

func (a asg) live() bool { return a.exp >= 0 }

func (a asg) make() *v2.PrincipalRole {
	pr := &v2.PrincipalRole{Principal: a.p, Tenant: a.t, Namespace: a.ns, Scope: a.sc, Role: a.role, ManageChildTenant: a.manage}
	if a.exp != 0 {
		e := time.Now().Add(time.Duration(a.exp) * time.Hour)
		pr.Expiry = &e
	}
	return pr
}

// tcfg is a tenant as the reference sees it.
type tcfg struct {
	id     string
	def    string
	ns     map[string][]string // namespace -> scopes
	status v2.TenantStatus
	kids   []string
	absent bool // exists as a child only, not registered
}

type world struct {
	tenants []*tcfg
	objs    map[string]*v2.Tenant
	perms   map[string][]string // role -> permission strings
	links   map[string][]string // role -> child roles
	asgs    []asg
	def     string // default tenant
}

func (w *world) tenant(id string) *tcfg {
	for _, t := range w.tenants {
		if t.id == id {
			return t
		}
	}
	return nil
}

// build configures an authorizer with everything but the assignments.
func (w *world) build(a *v2.Authorizer) {
	w.objs = map[string]*v2.Tenant{}
	for _, t := range w.tenants {
		var o *v2.Tenant
		if t.def != "" {
			o = v2.NewTenant(t.id, t.def)
		} else {
			o = v2.NewTenant(t.id)
		}
		for _, ns := range []string{"n0", "n1"} {
			if scopes, ok := t.ns[ns]; ok {
				o.AddNamespace(ns)
				for _, s := range scopes {
					o.AddScopeToNamespace(ns, v2.NewScope(s))
				}
			}
		}
		o.Status = t.status
		w.objs[t.id] = o
	}
	for _, t := range w.tenants {
		for _, k := range t.kids {
			w.objs[t.id].AddChildTenant(w.objs[k])
		}
		if !t.absent {
			a.AddTenant(w.objs[t.id])
		}
	}
	for _, r := range []string{"r0", "r1", "r2"} {
		if ps, ok := w.perms[r]; ok {
			role := v2.NewRole(r)
			for _, p := range ps {
				role.AddPermission(perm(p))
			}
			a.AddRole(role)
		}
	}
	for _, r := range []string{"r0", "r1", "r2"} {
		if l := w.links[r]; len(l) > 0 {
			if err := a.AddChildRole(r, l...); err != nil {
				nd.Assert(false, "linking acyclic roles is accepted")
			}
		}
	}
	a.SetDefaultTenant(w.def)
}

func (w *world) assign(a *v2.Authorizer) {
	for _, x := range w.asgs {
		a.AddPrincipalRole(x.make())
	}
}

// perm splits "resource action".
func perm(s string) *v2.Permission {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			return v2.NewPermission("c", s[:i], s[i+1:])
		}
	}
	return v2.NewPermission("c", s, "")
}

// closure lists the registered roles reachable from r, r included.
func (w *world) closure(r string) []string {
	seen := map[string]bool{}
	var out []string
	var walk func(string)
	walk = func(x string) {
		if seen[x] {
			return
		}
		seen[x] = true
		if _, ok := w.perms[x]; !ok {
			return
		}
		out = append(out, x)
		for _, k := range w.links[x] {
			walk(k)
		}
	}
	walk(r)
	return out
}

var roleNames = []string{"r0", "r1", "r2"}

// roleConfers: per role name, whether it confers a permission matching the request, and anything at all.
func (w *world) roleConfers(res, act string) (match, any []bool) {
	for _, r := range roleNames {
		m, n := false, false
		for _, x := range w.closure(r) {
			for _, p := range w.perms[x] {
				n = true
				if (res != "" || act != "") && describes(res+" "+act, p) {
					m = true
				}
			}
		}
		match, any = append(match, m), append(any, n)
	}
	return
}

// one: is s the name for which the flag is set?
func one(s string, names []string, flags []bool) bool {
	r := false
	for i, n := range names {
		eq := s == n
		f := flags[i]
		r = r || eq && f
	}
	return r
}

func (w *world) ids() []string {
	var r []string
	for _, t := range w.tenants {
		r = append(r, t.id)
	}
	return r
}

// targets: per tenant, whether the request targets it.
func (w *world) targets(q v2.Request) []bool {
	var r []bool
	unnamed := q.Tenant == "" && w.def == ""
	for _, t := range w.tenants {
		held := false
		for _, a := range w.asgs {
			p, in := a.p == q.Principal, a.t == t.id
			held = held || p && in
		}
		active := t.status == v2.TenantStatusActive
		isNamed := q.Tenant == t.id
		isDef := q.Tenant == "" && w.def == t.id
		reg := !t.absent
		r = append(r, reg && (isNamed || isDef || unnamed && held && active))
	}
	return r
}

var nsNames = []string{"n0", "n1"}

// namespace: per namespace name, whether it is the one the request means in t and contains the scope.
func (t *tcfg) namespace(q v2.Request) []bool {
	implied := t.def
	if implied == "" && len(t.ns) == 1 {
		for k := range t.ns {
			implied = k
		}
	}
	var r []bool
	for _, n := range nsNames {
		scopes, exists := t.ns[n]
		has := q.Scope == ""
		for _, s := range scopes {
			eq := q.Scope == s
			has = has || eq
		}
		named := q.Namespace == n
		dflt := q.Namespace == "" && implied == n
		r = append(r, exists && has && (named || dflt))
	}
	return r
}

// visited: per tenant, whether it contributes for a request of p in tenant i.
func (w *world) visited(i int, p string) []bool {
	r := make([]bool, len(w.tenants))
	r[i] = true
	for range w.tenants {
		for j, x := range w.tenants {
			man := false
			for _, a := range w.asgs {
				mine, in, lv, mg := a.p == p, a.t == x.id, a.live(), a.manage
				man = man || mine && in && lv && mg
			}
			for _, k := range x.kids {
				for l, y := range w.tenants {
					if y.id == k {
						r[l] = r[l] || r[j] && man
					}
				}
			}
		}
	}
	return r
}

// covers: assignment a counts for a request of q in tenant i with the namespace flags ns.
func (w *world) covers(a asg, q v2.Request, i int, ns []bool, vis []bool) bool {
	mine, in, lv := a.p == q.Principal, one(a.t, w.ids(), vis), a.live()
	nsok := ns[0] || ns[1]
	wide, bound := a.ns == "", one(a.ns, nsNames, ns)
	return mine && in && lv && nsok && (wide || bound)
}

// authorize is the reference decision.
func (w *world) authorize(q v2.Request) bool {
	grant := false
	tg := w.targets(q)
	match, any := w.roleConfers(q.Resource, q.Action)
	for i, t := range w.tenants {
		ns := t.namespace(q)
		vis := w.visited(i, q.Principal)
		scoped, scopedAny, global := false, false, false
		for _, a := range w.asgs {
			in := w.covers(a, q, i, ns, vis)
			m, n := one(a.role, roleNames, match), one(a.role, roleNames, any)
			inScope, wide := a.sc == q.Scope, a.sc == ""
			scoped = scoped || in && inScope && m
			scopedAny = scopedAny || in && inScope && n
			global = global || in && wide && m
		}
		tgt := tg[i]
		grant = grant || tgt && (scoped || !scopedAny && global)
	}
	return grant
}

// can is the reference role check.
func (w *world) can(q v2.Request, roles ...string) bool {
	grant := false
	tg := w.targets(q)
	for i, t := range w.tenants {
		ns := t.namespace(q)
		vis := w.visited(i, q.Principal)
		here := false
		for _, a := range w.asgs {
			in := w.covers(a, q, i, ns, vis)
			held := false
			for _, want := range roles {
				same := a.role == want && a.role != ""
				held = held || same
				for _, r := range roleNames {
					is := a.role == r
					for _, c := range w.closure(r) {
						inc := c == want
						held = held || is && inc
					}
				}
			}
			here = here || in && held
		}
		tgt := tg[i]
		grant = grant || tgt && here
	}
	return grant
}

// describes: the pattern language on concrete strings.
func describes(v, p string) bool {
	if p == "" {
		return v == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(v); i++ {
			if describes(v[i:], p[1:]) {
				return true
			}
		}
		return false
	case ':':
		i, j := 0, 0
		for i < len(v) && v[i] != '/' && v[i] != ' ' {
			i++
		}
		for j < len(p) && p[j] != '/' && p[j] != ' ' {
			j++
		}
		return i > 0 && describes(v[i:], p[j:])
	}
	return v != "" && v[0] == p[0] && describes(v[1:], p[1:])
}

// dirty leaves maximal content in the package's pools, as an earlier request of somebody else would.
func dirty() {
	a := v2.NewAuthorizer()
	t := v2.NewTenant("t0", "n0")
	t.AddScopeToNamespace("n0", v2.NewScope("s0"))
	a.AddTenant(t)
	r := v2.NewRole("r0")
	r.AddPermission(perm("* *"))
	a.AddRole(r)
	a.AddPrincipalRole(&v2.PrincipalRole{Principal: "q", Tenant: "t0", Role: "r0"},
		&v2.PrincipalRole{Principal: "q", Tenant: "t0", Scope: "s0", Role: "r0"},
		&v2.PrincipalRole{Principal: "q", Tenant: "t1", Role: "r1"})
	q := v2.Request{Principal: "q", Tenant: "t0", Scope: "s0", Resource: "a", Action: "x"}
	nd.Assert(a.Authorize(q), "another request is granted")
	nd.Assert(a.Can(q, "r0"), "another role check holds")
}

// ---- inputs ----

func anyTenants() []*tcfg {
	t0 := &tcfg{id: "t0", ns: map[string][]string{}}
	switch nd.Choice("t0 namespaces", 3) {
	case 0:
		t0.def = "n0"
		t0.ns["n0"] = []string{"s0"}
		t0.ns["n1"] = []string{"s1"}
	case 1:
		t0.ns["n1"] = []string{"s0", "s1"}
	case 2:
		t0.ns["n0"] = []string{"s0"}
		t0.ns["n1"] = nil
	}
	t1 := &tcfg{id: "t1", def: "n0", ns: map[string][]string{"n0": {"s0", "s1"}}}
	switch nd.Choice("t1 child of t0", 3) {
	case 1:
		t0.kids = []string{"t1"}
	case 2: // each below the other
		t0.kids, t1.kids = []string{"t1"}, []string{"t0"}
	}
	return []*tcfg{t0, t1}
}

func anyRoles(w *world) {
	w.perms = map[string][]string{"r0": {"a x"}, "r1": {"b x"}}
	w.links = map[string][]string{}
	switch nd.Choice("roles", 4) {
	case 0:
	case 1:
		w.links["r0"] = []string{"r1"}
	case 2:
		w.perms["r0"] = []string{"/:id x", "b *", "* y"}
	case 3:
		w.perms["r2"] = nil
		w.links["r2"] = []string{"r1", "rx"}
		w.links["r1"] = []string{"r0"}
	}
}

func anyAsg(first bool, roles ...string) asg {
	a := asg{p: nd.Pick("assignment principal", "p", "q"), t: nd.Pick("assignment tenant", "t0", "t1"), ns: nd.Pick("assignment namespace", "", "n0", "n1"),
		sc: nd.Pick("assignment scope", "", "s0", "s1"), role: nd.Pick("assignment role", roles...), manage: nd.Bool("manage"), exp: 1}
	if first {
		a.exp = nd.Int("expiry", 0, 1)
	}
	if nd.Bool("expired") {
		a.exp = -1
	}
	return a
}

func anyTarget() v2.Request {
	return v2.Request{Principal: "p", Tenant: nd.Pick("tenant", "", "t0", "t1", "tx"), Namespace: nd.Pick("namespace", "", "n0", "n1"), Scope: nd.Pick("scope", "", "s0", "s1")}
}

func anyRequest() v2.Request {
	q := anyTarget()
	switch nd.Choice("resource", 6) {
	case 0:
		q.Resource, q.Action = "a", "x"
	case 1:
		q.Resource, q.Action = "b", "x"
	case 2:
		q.Resource, q.Action = "/7", "x"
	case 3:
	case 4:
		q.Resource = "b"
	case 5:
		q.Action = "y"
	}
	return q
}

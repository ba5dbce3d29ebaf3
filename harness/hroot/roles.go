package main

import (
	lib "github.com/oarkflow/permission"
	"verif/harness/nd"
)

// rmodel is what the roles should be.
type rmodel struct {
	objs  map[string]*lib.Role
	perms map[string][]gperm // own permissions
	kids  map[string][]string
}

type gperm struct{ group, res, act string }

func newRModel(names []string) *rmodel {
	w := &rmodel{objs: map[string]*lib.Role{}, perms: map[string][]gperm{}, kids: map[string][]string{}}
	for _, n := range names {
		w.objs[n] = lib.NewRole(n)
	}
	return w
}

// below lists the roles reachable from r, r excluded, each once.
func (w *rmodel) below(r string) []string {
	var out []string
	seen := map[string]bool{r: true}
	var walk func(string)
	walk = func(x string) {
		for _, k := range w.kids[x] {
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
				walk(k)
			}
		}
	}
	walk(r)
	return out
}

// describes: the permission (res act) describes the activity "x y" asked; activities asked here
// have the resources a, b or a/b and the actions x or y.
func describes(p gperm, act string) bool {
	exact := act == p.res+" "+p.act
	plain := act == "a "+p.act || act == "b "+p.act
	param := p.res == ":id" && plain
	star := p.res == "*" && (plain || act == "a/b "+p.act)
	return exact || param || star
}

func (w *rmodel) own(r, group, act string) bool {
	res := false
	for _, p := range w.perms[r] {
		g, d := p.group == group, describes(p, act)
		res = res || g && d
	}
	return res
}

func (w *rmodel) has(r, group, act string, restricted bool, allowed []string) bool {
	res := w.own(r, group, act)
	for _, d := range w.below(r) {
		ok := !restricted
		for _, x := range allowed {
			if x == d {
				ok = true
			}
		}
		if ok {
			o := w.own(d, group, act)
			res = res || o
		}
	}
	return res
}

func anyPerm(name string) gperm {
	return gperm{nd.Pick(name+" group", "g", "h"), nd.Pick(name+" resource", "a", ":id", "*", "a/b"), nd.Pick(name+" action", "x", "y")}
}

// listed: the listing holds exactly the permissions for which want is true; asked about one
// arbitrary permission.
func listed(l map[string][]lib.Attribute, p gperm) bool {
	in := false
	for _, a := range l[p.group] {
		e := a.String("|") == p.res+"|"+p.act
		in = in || e
	}
	return in
}

func (w *rmodel) holds(roles []string, p gperm) bool {
	in := false
	for _, r := range roles {
		for _, x := range w.perms[r] {
			e := x.group == p.group && x.res == p.res && x.act == p.act
			in = in || e
		}
	}
	return in
}

// H_RoleHas: every acyclic shape over three roles, arbitrary permissions, every query and restriction.
func H_RoleHas() {
	nd.MapOrder(nd.P("order", 0))
	names := []string{"r0", "r1", "r2"}
	w := newRModel(names)
	link := func(p, c string) {
		w.kids[p] = append(w.kids[p], c)
		nd.Assert(w.objs[p].AddDescendant(w.objs[c]) == nil, "an acyclic link is accepted")
	}
	shape := nd.Choice("links", 8)
	late := nd.Choice("links first", 2) == 0
	links := func() {
		if shape&1 != 0 {
			link("r0", "r1")
		}
		if shape&2 != 0 {
			link("r1", "r2")
		}
		if shape&4 != 0 {
			link("r0", "r2")
		}
	}
	if !late {
		links()
	}
	for i := 0; i < nd.P("perms", 2); i++ {
		r := names[nd.Choice("permission of", 3)]
		p := anyPerm("permission")
		w.perms[r] = append(w.perms[r], p)
		nd.Assert(w.objs[r].AddPermission(p.group, lib.NewAttribute(p.res, p.act)) == nil, "an unlocked role takes a permission")
	}
	if late {
		links()
	}
	r := names[nd.Choice("asked", 2)]
	group, act := nd.Pick("group", "g", "h"), nd.Pick("activity", "a x", "b x", "a/b x", "a y", "b")
	var allowed []string
	restricted := false
	switch nd.Choice("restriction", 4) {
	case 1:
		allowed, restricted = []string{"r1"}, true
	case 2:
		allowed, restricted = []string{"r2"}, true
	case 3:
		allowed, restricted = []string{"r0"}, true
	}
	got := w.objs[r].Has(group, act, allowed...)
	nd.Observe("has", got)
	nd.CoverIf(got, "permitted")
	nd.CoverIf(!got, "not permitted")
	nd.Assert(got == w.has(r, group, act, restricted, allowed), "a role permits exactly its own and its (allowed) descendants' permissions")
	q := anyPerm("listed")
	nd.Assert(listed(w.objs[r].GetAllImplicitPermissions(), q) == w.holds(append(w.below(r), r), q), "the implicit permissions are those of the role and its descendants")
	nd.Assert(listed(w.objs[r].GetPermissions(), q) == w.holds([]string{r}, q), "the permissions listed are the role's own")
	in := false
	for _, a := range w.objs[r].GetResourceGroupPermissions(q.group) {
		e := a.String("|") == q.res+"|"+q.act
		in = in || e
	}
	nd.Assert(in == w.holds([]string{r}, q), "the permissions of a group are the role's own in it")
}

// H_RoleOps: arbitrary sequences of changes to two roles, shared groups and locks.
func H_RoleOps() {
	names := []string{"r0", "r1"}
	w := newRModel(names)
	m := lib.New()
	m.AddRoles(w.objs["r0"], w.objs["r1"])
	shared := lib.NewAttributeGroup("g")
	shared.AddAttributes(lib.NewAttribute("a", "x"), lib.NewAttribute("b", "x"))
	m.AddAttributeGroup(shared)
	locked := map[string]bool{}
	has := map[string]bool{} // role has a group g
	take := func(r string, ps ...gperm) {
		for _, p := range ps {
			w.perms[r] = append(w.perms[r], p)
			if p.group == "g" {
				has[r] = true
			}
		}
	}
	for k := 0; k < nd.P("ops", 3); k++ {
		r := names[nd.Choice("role", 2)]
		o := w.objs[r]
		var err error
		bad := locked[r]
		switch nd.Choice("operation", 8) {
		case 0:
			k := nd.Choice("group", 3)
			p := gperm{[]string{"g", "h", "g"}[k], nd.Pick("resource", "a", "c"), "x"}
			if k == 2 { // two at once
				err = o.AddPermission(p.group, lib.NewAttribute("b", "x"), lib.NewAttribute(p.res, p.act))
				if !bad {
					take(r, gperm{p.group, "b", "x"})
				}
			} else {
				err = o.AddPermission(p.group, lib.NewAttribute(p.res, p.act))
			}
			if !bad {
				take(r, p)
			}
		case 1:
			err = o.AddPermissionResourceGroup(shared)
			if !bad && !has[r] {
				take(r, gperm{"g", "a", "x"}, gperm{"g", "b", "x"})
			}
		case 2:
			nd.Assume(r == "r0" && len(w.kids["r0"]) == 0)
			if nd.Choice("two at once", 2) == 1 {
				err = o.AddDescendant(w.objs["r1"], lib.NewRole("zz"))
			} else {
				err = o.AddDescendant(w.objs["r1"])
			}
			if !bad {
				w.kids["r0"] = []string{"r1"}
			}
		case 3:
			o.Lock()
			locked[r], bad = true, false
		case 4:
			o.Unlock()
			locked[r], bad = false, false
		case 5:
			res := []string{nd.Pick("resource", "a", "b", "c")}
			attrs := []*lib.Attribute{lib.NewAttribute(res[0], "x")}
			if nd.Choice("second", 2) == 1 {
				res = append(res, nd.Pick("resource", "a", "c"))
				attrs = append(attrs, lib.NewAttribute(res[1], "x"))
			}
			for _, x := range res {
				out := x == "c"
				bad = bad || out
			}
			err = m.AddPermissionsToRole(r, "g", attrs...)
			if !bad {
				for _, x := range res {
					take(r, gperm{"g", x, "x"})
				}
			}
		case 6:
			err = m.AddPermissionsToRole("zz", "g", lib.NewAttribute("a", "x"))
			bad = true
		case 7:
			err = m.AddPermissionsToRole(r, "zz", lib.NewAttribute("a", "x"))
			bad = true
		}
		nd.Assert((err != nil) == bad, "an operation fails exactly when the role is locked or something named is unknown")
		nd.CoverIf(err != nil, "refused")
		nd.CoverIf(err == nil, "accepted")
	}
	r := names[nd.Choice("asked", 2)]
	group, act := nd.Pick("group", "g", "h"), nd.Pick("activity", "a x", "b x", "c x")
	got := w.objs[r].Has(group, act)
	nd.Observe("has", got)
	nd.CoverIf(got, "permitted")
	nd.Assert(got == w.has(r, group, act, false, nil), "a role permits exactly what was attached to it and its descendants")
	q := gperm{group, nd.Pick("listed", "a", "b", "c"), "x"}
	nd.Assert(listed(w.objs[r].GetPermissions(), q) == w.holds([]string{r}, q), "the permissions listed are the role's own")
	nd.Assert(listed(w.objs[r].GetAllImplicitPermissions(), q) == w.holds(append(w.below(r), r), q), "the implicit permissions are those of the role and its descendants")
}

// H_RoleLinks: arbitrary sequences of links among roles; one that closes a cycle is refused
// as a whole, the others take effect.
func H_RoleLinks() {
	names := []string{"r0", "r1", "r2", "r3"}[:nd.P("roles", 3)]
	w := newRModel(names)
	for _, n := range names {
		w.objs[n].AddPermission("g", lib.NewAttribute(n, "x"))
		w.perms[n] = []gperm{{"g", n, "x"}}
	}
	for k := 0; k < nd.P("links", 3); k++ {
		p := nd.Choice("parent", len(names))
		cs := []string{names[nd.Choice("child", len(names))]}
		if nd.P("double", 1) == 1 && nd.Choice("two at once", 2) == 1 {
			cs = append(cs, names[nd.Choice("child", len(names))])
		}
		closes := false
		var objs []*lib.Role
		for _, c := range cs {
			objs = append(objs, w.objs[c])
			if c == names[p] {
				closes = true
			}
			for _, d := range w.below(c) {
				if d == names[p] {
					closes = true
				}
			}
		}
		nd.Assert(w.objs[names[p]].AddDescendant(lib.NewRole(names[p])) != nil, "a role is not its own descendant")
		err := w.objs[names[p]].AddDescendant(objs...)
		nd.CoverIf(closes, "cycle")
		nd.CoverIf(!closes, "no cycle")
		nd.Assert((err != nil) == closes, "a link is refused exactly when a role would become its own descendant")
		if !closes {
			w.kids[names[p]] = append(w.kids[names[p]], cs...)
		}
	}
	r := names[nd.Choice("asked", len(names))]
	act := nd.Pick("activity", "r0 x", "r1 x", "r2 x", "r3 x")
	got := w.objs[r].Has("g", act)
	nd.Observe("has", got)
	nd.Assert(got == w.has(r, "g", act, false, nil), "a role permits exactly what its descendants permit")
	for _, n := range names {
		in, want := false, false
		for _, d := range w.objs[r].GetDescendantRoles() {
			if d.ID() == n {
				in = true
			}
		}
		for _, d := range w.below(r) {
			if d == n {
				want = true
			}
		}
		nd.Assert(in == want, "the descendants listed are those reachable")
	}
}

// H_RoleLong: a chain of many roles, one with many permissions; any asked of any.
func H_RoleLong() {
	n := nd.P("roles", 7)
	id := []string{"00", "01", "02", "03", "04", "05", "06", "07", "08", "09", "10", "11", "12", "13"}
	var rs []*lib.Role
	for i := 0; i < n; i++ {
		rs = append(rs, lib.NewRole(id[i]))
		nd.Assert(rs[i].AddPermission("g", lib.NewAttribute("x"+id[i], "do")) == nil, "an unlocked role takes a permission")
	}
	for i := n - 2; i >= 0; i-- {
		nd.Assert(rs[i].AddDescendant(rs[i+1]) == nil, "a chain is accepted")
	}
	for _, x := range id {
		nd.Assert(rs[1].AddPermission("g", lib.NewAttribute("y"+x, "do")) == nil, "an unlocked role takes a permission")
	}
	asked := nd.Pick("asked", id[:n]...)
	only := nd.Pick("allowed", id[:n]...)
	for i := 0; i < n; i++ {
		got := rs[i].Has("g", "x"+asked+" do")
		below := id[i] <= asked
		nd.CoverIf(got && below, "inherited")
		nd.Assert(got == below, "a role permits what any role of the chain below it permits")
		own := id[i] == asked
		allowed := below && only == asked
		nd.Assert(rs[i].Has("g", "x"+asked+" do", only) == (own || allowed), "a restriction counts at every depth")
		nd.Assert(rs[i].Has("g", "y"+asked+" do") == (i <= 1), "each of many permissions counts")
		in := false
		for _, a := range rs[i].GetAllImplicitPermissions()["g"] {
			e := a.String() == "x"+asked+" do"
			in = in || e
		}
		nd.Assert(in == below, "the listing of implicit permissions agrees")
		refused := rs[n-1].AddDescendant(rs[i]) != nil
		nd.Assert(refused, "a link that closes a cycle of any length is not made")
	}
	nd.Observe("done", true)
}

// H_RoleNames: permissions and activities of arbitrary bytes; only equal ones are permitted.
func H_RoleNames() {
	k := nd.P("len", 2)
	plain := func(name string) string {
		s := nd.Str(name, k)
		for i := 0; i < k; i++ {
			nd.Assume(i >= len(s) || s[i] != '*' && s[i] != ':')
		}
		return s
	}
	r := lib.NewRole("r")
	c := lib.NewRole("c")
	nd.Assert(r.AddDescendant(c) == nil, "an acyclic link is accepted")
	var ps []gperm
	for i := 0; i < 2; i++ {
		p := gperm{nd.Str("group", 1), plain("resource"), plain("action")}
		o := r
		if i == 1 && nd.Choice("second role", 2) == 1 {
			o = c
		}
		nd.Assert(o.AddPermission(p.group, lib.NewAttribute(p.res, p.act)) == nil, "an unlocked role takes a permission")
		ps = append(ps, p)
	}
	group, act := nd.Str("asked group", 1), nd.Str("activity", 2*k+1)
	want := false
	for _, p := range ps {
		e := p.group == group && p.res+" "+p.act == act
		want = want || e
	}
	got := r.Has(group, act)
	nd.Observe("has", got)
	nd.CoverIf(got, "permitted")
	nd.CoverIf(!got, "not permitted")
	nd.Assert(got == want, "a role permits exactly the activities given to it")
}

// H_RoleBig: a role with many permissions in many groups and many descendants, and a longer chain;
// the outermost and middle ones asked.
func H_RoleBig() {
	n, deep := nd.P("many", 70), nd.P("deep", 11)
	top := lib.NewRole("top")
	var attrs []*lib.Attribute
	for i := 0; i < n; i++ {
		attrs = append(attrs, lib.NewAttribute("y"+many[i], "do"))
		nd.Assert(top.AddPermission("g"+many[i], lib.NewAttribute("x"+many[i], "do")) == nil, "an unlocked role takes a permission")
		c := lib.NewRole("c" + many[i])
		nd.Assert(c.AddPermission("g", lib.NewAttribute("z"+many[i], "do")) == nil, "an unlocked role takes a permission")
		nd.Assert(top.AddDescendant(c) == nil, "a descendant is accepted")
	}
	nd.Assert(top.AddPermission("g", attrs...) == nil, "an unlocked role takes many permissions")
	above := lib.NewRole("0")
	first := above
	for i := 1; i < deep; i++ {
		next := lib.NewRole("d" + many[i])
		nd.Assert(above.AddDescendant(next) == nil, "a chain is accepted")
		above = next
	}
	nd.Assert(above.AddPermission("g", lib.NewAttribute("deep", "do")) == nil, "an unlocked role takes a permission")
	k, o := nd.Pick("which", some(n)...), nd.Pick("other", some(n)...)
	got := top.Has("g"+k, "x"+o+" do")
	nd.Observe("permitted", got)
	nd.CoverIf(got, "permitted")
	nd.CoverIf(!got, "not permitted")
	nd.Assert(got == (k == o), "each of many groups counts")
	nd.Assert(top.Has("g", "y"+k+" do"), "each of many permissions counts")
	nd.Assert(top.Has("g", "z"+k+" do"), "each of many descendants counts")
	nd.Assert(top.Has("g", "z"+k+" do", "c"+o) == (k == o), "a restriction to one of many descendants counts")
	var but []string
	out := some(n)[1]
	for i := 0; i < n; i++ {
		if many[i] != out {
			but = append(but, "c"+many[i])
		}
	}
	nd.Assert(top.Has("g", "z"+k+" do", but...) == (k != out), "a restriction to many descendants counts")
	nd.Assert(first.Has("g", "deep do"), "a descendant counts however deep")
	all := top.GetAllImplicitPermissions()
	nd.Assert(len(all) == n+1 && len(all["g"]) == 2*n && len(all["g"+k]) == 1, "every implicit permission is listed")
	nd.Assert(len(top.GetPermissions()["g"]) == n && len(top.GetDescendantRoles()) == n, "every own permission and descendant is listed")
}

// H_RoleAsked: questions between the changes; the answer to each is that of the roles as they are
// then, whatever was asked before and under whatever restriction.
func H_RoleAsked() {
	names := []string{"r0", "r1", "r2"}
	w := newRModel(names)
	for k := 0; k < nd.P("rounds", 3); k++ {
		switch nd.Choice("change", 4) {
		case 0:
			p := nd.Choice("parent", 2)
			c := p + 1
			if p == 0 {
				c += nd.Choice("child", 2)
			}
			w.kids[names[p]] = append(w.kids[names[p]], names[c])
			nd.Assert(w.objs[names[p]].AddDescendant(w.objs[names[c]]) == nil, "an acyclic link is accepted")
		case 1:
			r := names[nd.Choice("permission of", 3)]
			w.perms[r] = append(w.perms[r], gperm{"g", nd.Pick("resource", "a", ":id"), "x"})
			p := w.perms[r][len(w.perms[r])-1]
			nd.Assert(w.objs[r].AddPermission(p.group, lib.NewAttribute(p.res, p.act)) == nil, "an unlocked role takes a permission")
		case 2: // both, further down
			w.kids["r1"] = append(w.kids["r1"], "r2")
			w.perms["r2"] = append(w.perms["r2"], gperm{"h", "b", "x"})
			nd.Assert(w.objs["r1"].AddDescendant(w.objs["r2"]) == nil && w.objs["r2"].AddPermission("h", lib.NewAttribute("b", "x")) == nil, "an acyclic link and a permission are accepted")
		}
		r := names[nd.Choice("asked", 2)]
		group, act := nd.Pick("group", "g", "h"), nd.Pick("activity", "a x", "b x")
		var allowed []string
		restricted := nd.Choice("restricted", 2) == 1
		if restricted {
			allowed = []string{nd.Pick("allowed", "r1", "r2")}
		}
		got := w.objs[r].Has(group, act, allowed...)
		nd.CoverIf(got && restricted, "permitted through an allowed role")
		nd.CoverIf(!got && w.has(r, group, act, false, nil), "permitted only through another")
		nd.Assert(got == w.has(r, group, act, restricted, allowed), "a role permits what it and its (allowed) descendants permit then")
		q := gperm{"g", "a", "x"}
		nd.Assert(listed(w.objs[r].GetAllImplicitPermissions(), q) == w.holds(append(w.below(r), r), q), "the implicit permissions are those of the role and its descendants then")
		for _, n := range names {
			in, want := false, false
			for _, d := range w.objs[r].GetDescendantRoles() {
				in = in || d.ID() == n
			}
			for _, d := range w.below(r) {
				want = want || d == n
			}
			nd.Assert(in == want, "the descendants listed are those reachable then")
		}
		nd.Observe("has", got)
	}
}

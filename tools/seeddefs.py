V2 = '''package v2

import "testing"

func mk(t *testing.T) *Authorizer {
	a := NewAuthorizer()
	te := NewTenant("t", "n")
	te.AddScopeToNamespace("n", NewScope("s"))
	a.AddTenant(te)
	r := NewRole("r")
	r.AddPermission(NewPermission("", "doc", "read"))
	a.AddRole(r)
	return a
}

'''
def v2(body, *imports):
    s = V2
    if imports:
        s = s.replace('import "testing"', 'import (\n' + ''.join(f'\t"{i}"\n' for i in sorted(imports + ('testing',))) + ')')
    return s + 'func TestDemo(t *testing.T) {\n' + body + '}\n'
seed('c01-tenant-buffer', 'C01', 'a principal with assignments in more than ten tenants asking without naming a tenant, with no default tenant',
 'tenants beyond the tenth are not looked at, so a permission held only there is denied',
 [('v2/v2.go', '''		if tenantCount <= len(tenantBuffer) {
			copy(tenantBuffer[:], tenants)
			targetTenants = tenantBuffer[:tenantCount]
		} else {
			targetTenants = tenants
		}
''', '''		if tenantCount = copy(tenantBuffer[:], tenants); tenantCount > 0 {
			targetTenants = tenantBuffer[:tenantCount]
		}
''')], 'v2', v2('''	a := mk(t)
	for i := 0; i < 11; i++ {
		id := fmt.Sprint("x", i)
		a.AddTenant(NewTenant(id, "n"))
		a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: id, Role: "none"})
	}
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	for i := 0; i < 200; i++ {
		if !a.Authorize(Request{Principal: "p", Resource: "doc", Action: "read"}) {
			t.Fatal("denied")
		}
	}
''', 'fmt'))
seed('c01-scope-empty-request', 'C01', 'an assignment bound to a scope and a request that names no scope',
 'an assignment bound to one scope confers its permissions on requests outside any scope',
 [('v2/v2.go', '				if userRole.Scope == scopeName {\n', '				if userRole.Scope == scopeName || scopeName == "" {\n')],
 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Scope: "s", Role: "r"})
	if a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("granted outside the scope")
	}
'''))
seed('c01-child-namespace', 'C01', 'a managed child tenant with an assignment bound to a namespace other than the requested one',
 'an assignment in a managed child tenant counts whatever namespace it is bound to',
 [('v2/v2.go', '''			if userRole.Principal != userID || userRole.Tenant != current.ID {
				continue
			}
			if userRole.IsExpired() {
				continue
			}
			if userRole.Namespace == "" || userRole.Namespace == namespace {
				permissions''', '''			if userRole.Principal != userID || userRole.Tenant != tenantID && userRole.Tenant != current.ID {
				continue
			}
			if userRole.IsExpired() {
				continue
			}
			if userRole.Namespace == "" || userRole.Namespace == namespace || current.ID != tenantID {
				permissions''')], 'v2', v2('''	a := mk(t)
	c := NewTenant("c", "other")
	te, _ := a.GetTenant("t")
	te.AddChildTenant(c)
	a.AddTenant(c)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "x", ManageChildTenant: true})
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "c", Namespace: "other", Role: "r"})
	if a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("granted by an assignment bound to another namespace")
	}
'''))
seed('c03-empty-role-stops', 'C03', 'a role in the middle of a chain that has no permissions of its own',
 'the roles below a role without own permissions confer nothing',
 [('v2/role.go', '''		role, exists := dag.roles[current]
		if !exists {
			continue
		}
		role.m.RLock()
''', '''		role, exists := dag.roles[current]
		if !exists || len(role.Permissions) == 0 {
			continue
		}
		role.m.RLock()
''')], 'v2', v2('''	a := mk(t)
	a.AddRoles(NewRole("top"), NewRole("mid"))
	a.AddChildRole("top", "mid")
	a.AddChildRole("mid", "r")
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "top"})
	if !a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("not inherited")
	}
'''))
seed('c05-namespace-index', 'C05', 'a removal pattern naming a scope while assignments without a scope exist',
 'assignments that carry no scope are removed together with those of the named scope',
 [('v2/v2.go', '''		if target.Scope != "" && pr.Scope != target.Scope {
''', '''		if target.Scope != "" && pr.Scope != "" && pr.Scope != target.Scope {
''')], 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"}, &PrincipalRole{Principal: "p", Tenant: "t", Scope: "s", Role: "x"})
	a.RemovePrincipalRole(PrincipalRole{Principal: "p", Scope: "s"})
	if !a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("another assignment was removed too")
	}
'''))
seed('c10-growth', 'C10', 'a search with more than ten results',
 'the eleventh result replaces the tenth when the result slice grows',
 [('trie/trie.go', '''				newResults := make([]*T, len(results), 2*cap(results))
				copy(newResults, results)
				results = newResults
''', '''				newResults := make([]*T, len(results)-1, 2*cap(results))
				copy(newResults, results)
				results = newResults
				resultCount--
''')], 'trie', '''package trie

import "testing"

type rowT struct{ a any }

func TestDemo(t *testing.T) {
	tr := New[rowT](func(f, r *rowT) bool { return f.a == nil || f.a == r.a }, func(r *rowT) []any { return []any{r.a} })
	for i := 0; i < 15; i++ {
		tr.Insert(&rowT{i})
	}
	if n := len(tr.Search(&rowT{})); n != 15 {
		t.Fatal(n)
	}
}
''')
ROOT = '''package permission

import "testing"

type fixT struct {
	*RoleManager
	t, c       *Tenant
	r, child   *Role
}

// fix: tenant t with namespace n and scope s, role r with permission "doc read" in group g, principals p and q
func fix() fixT {
	m := New()
	f := fixT{RoleManager: m}
	f.t, f.c = m.AddTenant(NewTenant("t")), m.AddTenant(NewTenant("c"))
	m.AddNamespaces(NewNamespace("n"), NewNamespace("n2"))
	m.AddScopes(NewScope("s"), NewScope("s2"))
	m.AddPrincipals(NewPrincipal("p"), NewPrincipal("q"))
	f.r, f.child = m.AddRole(NewRole("r")), m.AddRole(NewRole("child"))
	f.child.AddPermission("g", NewAttribute("doc", "read"))
	f.r.AddDescendant(f.child)
	return f
}

func TestDemo(t *testing.T) {
'''
def root(body, *imports):
    s = ROOT
    if imports:
        s = s.replace('import "testing"', 'import (\n' + ''.join(f'\t"{i}"\n' for i in sorted(imports + ('testing',))) + ')')
    return s + body + '}\n'
seed('c02-root-other-role', 'C02', 'another principal holding a scope-bound role in the tenant, and a request naming only the tenant',
 'a role another principal holds for a scope counts for everyone in the tenant',
 [('authorize.go', '''			if d.Principal == principalID {
				roles''', '''			if d.Principal == principalID || d.Scope != nil {
				roles''')], '.', root('''	f := fix()
	f.AddData(&Data{Tenant: "t", Principal: "p"})
	f.AddData(&Data{Tenant: "t", Scope: "s", Role: "child", Principal: "q"})
	if f.Authorize("p", WithTenant("t"), WithAttributeGroup("g"), WithActivity("doc read")) {
		t.Fatal("granted by another principal's role")
	}
'''))
seed('c02-v1-namespace-holder', 'C02', 'a request naming namespace and scope but no tenant, while another principal of the tenant is assigned to them',
 'a request for a namespace and scope is granted because another principal is assigned to them',
 [('v1/role_manager.go', '''		userRoles := u.GetPrincipalRoles(tenant, principalID)
		for _, r := range userRoles {
''', '''		for _, r := range u.GetTenantRoles(tenant) {
''')], 'v1', '''package v1

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	te := m.AddTenant(NewTenant("t"))
	n, s := m.AddNamespace(NewNamespace("n")), m.AddScope(NewScope("s"))
	m.AddPrincipals(NewPrincipal("p"), NewPrincipal("q"))
	te.AddNamespace(n)
	te.AddScopes(s)
	m.AddPrincipalRole("p", "r", te, nil, nil)
	m.AddPrincipalRole("q", "r", te, n, s)
	if m.Authorize("p", WithNamespace("n"), WithScope("s")) {
		t.Fatal("granted by another principal's assignment")
	}
}
''')
seed('c04-pool-clear', 'C04', 'a decision that leaves permissions in the pooled map, then one in which nothing is held',
 'permissions left over from an earlier decision are granted to whoever asks next',
 [('v2/v2.go', '''	clear(scopedPermissions)
	clear(globalPermissions)
	clear(checkedTenants)
	defer func() {
		scopedPermissionsPool''', '''	clear(scopedPermissions)
	clear(checkedTenants)
	defer func() {
		if len(scopedPermissions) == 0 {
			clear(globalPermissions)
		}
		scopedPermissionsPool''')], 'v2', v2('''	a := mk(t)
	r2 := NewRole("r2")
	r2.AddPermission(NewPermission("", "doc", "list"))
	a.AddRole(r2)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"}, &PrincipalRole{Principal: "p", Tenant: "t", Scope: "s", Role: "r2"})
	for i := 0; i < 100; i++ {
		a.Authorize(Request{Principal: "p", Tenant: "t", Scope: "s", Resource: "doc", Action: "list"})
		if a.Authorize(Request{Principal: "z", Tenant: "t", Resource: "doc", Action: "read"}) {
			t.Fatal("granted to a stranger")
		}
	}
'''))
seed('c04-resolved-late', 'C04', 'a role check, then a second child role linked to the same parent, then the role check again',
 'a second link of a role made after a role check stays unknown to later role checks',
 [('v2/role.go', '''	dag.edges[parent] = append(dag.edges[parent], child...)
	clear(dag.resolved)
''', '''	edges := dag.edges[parent]
	dag.edges[parent] = append(edges, child...)
	if len(edges) == 0 {
		clear(dag.resolved)
	}
''')], 'v2', v2('''	a := mk(t)
	a.AddRoles(NewRole("x"), NewRole("late"))
	a.AddChildRole("r", "x")
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	q := Request{Principal: "p", Tenant: "t"}
	a.Can(q, "late")
	a.AddChildRole("r", "late")
	if !a.Can(q, "late") {
		t.Fatal("stale answer")
	}
'''))
seed('c06-minute', 'C06', 'a decision made less than a minute after the expiry',
 'an assignment keeps its effect for up to a minute after it expired',
 [('v2/v2.go', '	return time.Now().After(*pr.Expiry)\n', '	return time.Now().Truncate(time.Minute).After(*pr.Expiry)\n')],
 'v2', v2('''	a := mk(t)
	e := time.Now().Add(time.Millisecond)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r", Expiry: &e})
	time.Sleep(5 * time.Millisecond)
	if a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("granted by an expired assignment")
	}
''', 'time'))
seed('c06-bad-duration', 'C06', 'an unparsable duration given to an assignment that has an expiry',
 'an unparsable duration drops the expiry the assignment had',
 [('v2/v2.go', '''		duration, err = time.ParseDuration(dur)
		if err != nil {
			return err
''', '''		if duration, err = time.ParseDuration(dur); err != nil {
			pr.ClearExpiry()
			return err
''')],
 'v2', v2('''	e := time.Now().Add(time.Hour)
	pr := &PrincipalRole{Expiry: &e}
	if pr.SetExpiryDuration("soon") == nil || pr.Expiry == nil || !pr.Expiry.Equal(e) {
		t.Fatal("the assignment changed")
	}
''', 'time'))
seed('c06-manager-expired', 'C06', 'an expired assignment that manages child tenants, and a role check',
 'an expired assignment that manages child tenants still carries its role',
 [('v2/v2.go', '''			if userRole.IsExpired() {
				continue
			}
			if (userRole''', '''			if userRole.IsExpired() && !userRole.ManageChildTenant {
				continue
			}
			if (userRole''')],
 'v2', v2('''	a := mk(t)
	e := time.Now().Add(-time.Hour)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r", Expiry: &e, ManageChildTenant: true})
	if a.Can(Request{Principal: "p", Tenant: "t"}, "r") {
		t.Fatal("the expired assignment still counts")
	}
''', 'time'))
seed('c08-multiple-roles', 'C08', 'a role check for several roles of which only a later one is held',
 'a role check looks at the first asked role only',
 [('v2/v2.go', '			if slices.Contains(roles, role) {\n', '			if len(roles) > 0 && slices.Contains(roles[:(len(roles)+1)/2], role) {\n')],
 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	if !a.Can(Request{Principal: "p", Tenant: "t"}, "x", "r") {
		t.Fatal("not found")
	}
'''))
seed('c09-scope-attr', 'C09', 'a request that names a scope but no namespace, with an audit logger',
 'the audit record omits the scope of requests that name no namespace',
 [('v2/v2.go', '''		if request.Scope != "" {
			args''', '''		if request.Scope != "" && request.Namespace != "" {
			args''')],
 'v2', v2('''	var b bytes.Buffer
	a := NewAuthorizer(slog.New(slog.NewTextHandler(&b, nil)))
	te := NewTenant("t", "n")
	te.AddScopeToNamespace("n", NewScope("s"))
	a.AddTenant(te)
	a.Authorize(Request{Principal: "p", Tenant: "t", Scope: "s", Resource: "doc", Action: "read"})
	if !strings.Contains(b.String(), "scope=s") {
		t.Fatal(b.String())
	}
''', 'bytes', 'log/slog', 'strings'))
seed('c11-default-namespace', 'C11', 'a tenant link made when the parent has a default namespace, then a principal added to the child',
 'the default namespace is not passed down to a linked tenant, so access there is denied',
 [('tenant.go', '''			descendant.AddNamespace(c.defaultNamespace)
			descendant.SetDefaultNamespace(c.defaultNamespace.id)
''', '''			descendant.AddNamespace(c.defaultNamespace)
			c.SetDefaultNamespace(c.defaultNamespace.id)
''')], '.', root('''	f := fix()
	f.t.SetDefaultNamespace("n")
	f.t.AddDescendant(f.c)
	f.c.AddPrincipalWithRole("p", "r", false)
	found := false
	for _, d := range f.Data().Data() {
		found = found || *d == Data{Tenant: "c", Namespace: "n", Principal: "p", Role: "r", ManageDescendants: false}
	}
	if !found {
		t.Fatal("no row for the default namespace")
	}
'''))
seed('c12-first-row', 'C12', 'a principal with several rows in one tenant of which one manages descendants',
 'only the row met first decides whether the descendants count, so answers depend on map order',
 [('query.go', '''		existingTenant[tenantID] = struct{}{}
		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
''', '''		_, seen := existingTenant[tenantID]
		existingTenant[tenantID] = struct{}{}
		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage && !seen {
''')], '.', root('''	for i := 0; i < 300; i++ {
		f := fix()
		f.t.AddDescendant(f.c)
		f.AddData(&Data{Tenant: "t", Principal: "p", Role: "r", ManageDescendants: true})
		f.AddData(&Data{Tenant: "t", Principal: "p", Role: "child", Namespace: "n"})
		f.AddData(&Data{Tenant: "t", Principal: "p", Role: "child", Namespace: "n2"})
		if _, ok := f.GetImplicitTenants("p")["c"]; !ok {
			t.Fatal("descendant missing")
		}
	}
'''))
seed('c13-lock-group', 'C13', 'a locked role to which a permission group is attached',
 'a permission group can be attached to a locked role',
 [('role.go', '''func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
	if r.lock {
''', '''func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
	if r.lock && r.permissions.Size() == 0 {
''')], '.', root('''	f := fix()
	g := NewAttributeGroup("h")
	g.AddAttributes(NewAttribute("x", "do"))
	f.child.Lock()
	if f.child.AddPermissionResourceGroup(g) == nil || f.child.Has("h", "x do") {
		t.Fatal("a locked role changed")
	}
'''))
seed('c13-allowed-deep', 'C13', 'a restriction to a descendant two levels down through a role that is not allowed',
 'in v1 a permission inherited through a chain is lost when the intermediate role is not among the allowed ones',
 [('v1/role.go', '''		descendants = append(descendants, child)
		descendants = append(descendants, child.GetDescendantRoles()...)
		return true
''', '''		descendants = append(descendants, child)
		if child.permissions.Len() > 0 {
			descendants = append(descendants, child.GetDescendantRoles()...)
		}
		return true
''')], 'v1', '''package v1

import "testing"

func TestDemo(t *testing.T) {
	a, b, c := NewRole("a"), NewRole("b"), NewRole("c")
	c.AddPermission("g", NewAttribute("x", "do"))
	b.AddDescendent(c)
	a.AddDescendent(b)
	if !a.Has("g", "x do", "c") {
		t.Fatal("lost")
	}
}
''')
seed('c13-partial-add', 'C13', 'permissions attached through the manager of which a later one is outside the group',
 'the permissions before the offending one are added although an error is reported',
 [('v1/role_manager.go', '''		if _, ok := attributeGroup.permissions.Get(attr.String()); !ok {
			return fmt.Errorf("attribute '%s' not associated to the group '%s'", attr.String(), attributeGroupID)
		}
	}
	return role.AddPermission(attributeGroupID, attrs...)
''', '''		if _, ok := attributeGroup.permissions.Get(attr.String()); !ok {
			return fmt.Errorf("attribute '%s' not associated to the group '%s'", attr.String(), attributeGroupID)
		}
		if err := role.AddPermission(attributeGroupID, attr); err != nil {
			return err
		}
	}
	return nil
''')], 'v1', '''package v1

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	r := m.AddRole(NewRole("r"))
	g := NewAttributeGroup("g")
	ok := NewAttribute("x", "do")
	g.AddAttributes(ok)
	m.AddAttributeGroup(g)
	if m.AddPermissionsToRole("r", "g", ok, NewAttribute("y", "do")) == nil || r.Has("g", "x do") {
		t.Fatal("partly added")
	}
}
''')
seed('c14-namespace-null-principal', 'C14', 'the namespaces of a principal in a tenant that also has namespace rows of other principals with roles',
 'the namespaces listed for a principal include those of another principal',
 [('filters.go', '''	return MatchTenant(row, filter) &&
		(utils.IsNil(row.Principal) || MatchPrincipal(row, filter))
''', '''	return MatchTenant(row, filter) &&
		(utils.IsNil(row.Principal) || MatchPrincipal(row, filter) || !utils.IsNil(row.Scope))
''')], '.', root('''	f := fix()
	f.AddData(&Data{Tenant: "t", Principal: "q", Namespace: "n", Scope: "s", Role: "r"})
	if len(f.GetNamespacesForPrincipalByTenant("p", "t")) > 0 {
		t.Fatal("another principal's namespace is listed")
	}
'''))
seed('c15-replace', 'C15', 'a second group with the same identifier that has attributes while the first has none',
 'a group registered later replaces an empty one registered first',
 [('activity_group.go', '''	if d, ok := u.attributeGroups.Get(attr.id); ok {
''', '''	if d, ok := u.attributeGroups.Get(attr.id); ok && (d.permissions.Size() > 0 || attr.permissions.Size() == 0) {
''')], '.', root('''	f := fix()
	a, b := NewAttributeGroup("h"), NewAttributeGroup("h")
	b.AddAttributes(NewAttribute("x", "do"))
	f.AddAttributeGroup(a)
	if f.AddAttributeGroup(b) != a {
		t.Fatal("replaced")
	}
'''))
seed('c16-scope-any-namespace', 'C16', 'an assignment with a scope but no namespace and a request naming tenant, namespace and scope',
 'an assignment for a scope only is taken to cover every namespace',
 [('v1/role_manager.go', '''	userRoles := u.GetPrincipalRoles(tenantID, principalID)
	for _, r := range userRoles {
		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
			return true
		}
	}
	if len''', '''	userRoles := u.GetPrincipalRoles(tenantID, principalID)
	for _, r := range userRoles {
		if (r.NamespaceID == namespaceID || r.NamespaceID == "") && r.ScopeID == scopeID {
			return true
		}
	}
	if len''')], 'v1', '''package v1

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	te := m.AddTenant(NewTenant("t"))
	n, s := m.AddNamespace(NewNamespace("n")), m.AddScope(NewScope("s"))
	m.AddPrincipal(NewPrincipal("p"))
	te.AddNamespace(n)
	te.AddScopes(s)
	m.AddPrincipalRole("p", "r", te, nil, s)
	if m.Authorize("p", WithTenant("t"), WithNamespace("n"), WithScope("s")) {
		t.Fatal("granted for a namespace it does not name")
	}
}
''')
seed('c17-scope-role', 'C17', 'two assignments of one principal that differ only in the scope',
 'assignments that carry no role are not listed among the implicit roles when the tenant has descendants',
 [('v1/role_manager.go', '''		if tenant.descendants.Len() > 0 {
''', '''		if tenant.descendants.Len() > 0 && len(data) > 0 {
''')], 'v1', '''package v1

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	te, c := m.AddTenant(NewTenant("t")), m.AddTenant(NewTenant("c"))
	te.AddDescendent(c)
	m.AddPrincipalRole("p", "r", c, nil, nil)
	if len(m.GetImplicitPrincipalRoles("t", "p")) != 1 {
		t.Fatal("missing")
	}
}
''')
seed('c19-shared-slice', 'C19', 'a sequence made by concatenation whose slice is taken twice and written to',
 'slices taken from one sequence share memory',
 [('ds/ds.go', '''type appendLink[A any] struct {
	element A
	next    Link[A]
}
''', '''type appendLink[A any] struct {
	element A
	next    Link[A]
	slice   []A
}
'''), ('ds/ds.go', '''	slice := a.next.AsSlice()
	return append(slice, a.element)
''', '''	if a.slice == nil {
		a.slice = append(a.next.AsSlice(), a.element)
	}
	return a.slice
''')], 'ds', '''package ds

import "testing"

func TestDemo(t *testing.T) {
	l := Empty[int]().Append(1).Append(2).Append(3)
	x, y := l.Append(4), l.Append(5)
	a := x.AsSlice()
	y.AsSlice()
	if a[3] != 4 {
		t.Fatal(a)
	}
	l.AsSlice()[0] = 9
	if l.AsSlice()[0] != 1 {
		t.Fatal("shared")
	}
}
''')
seed('c20-inplace', 'C20', 'a slice with duplicates whose caller keeps using it',
 'de-duplication overwrites the slice it is given',
 [('utils/str.go', '	result := []any{}\n', '	result := slice[:0]\n')], 'utils', '''package utils

import "testing"

func TestDemo(t *testing.T) {
	in := []any{1, 1, 2}
	Compact(in)
	if in[1] != 1 {
		t.Fatal(in)
	}
}
''')
seed('c20-join-break', 'C20', 'a left element that joins with several right elements',
 'the join stops once it has one more result than the left side has elements',
 [('utils/filters.go', '			if joinFn(l, r) {\n', '			if joinFn(l, r) && len(result) <= len(left) {\n')], 'utils', '''package utils

import "testing"

func TestDemo(t *testing.T) {
	n := len(JoinSlices([]int{1, 1, 1}, []int{1, 1}, func(a, b int) bool { return a == b }, func(a, b int) int { return a }))
	if n != 6 {
		t.Fatal(n)
	}
}
''')
seed('c10-first-nil', 'C10', 'a row that satisfies the predicate stored below another row\'s prefix',
 'searching goes no deeper than a row that is stored at an inner node',
 [('trie/trie.go', '			if dfs(child) {\n', '			if (!node.isEnd || !child.isEnd) && dfs(child) {\n')], 'trie', '''package trie

import "testing"

type rowT struct{ a []any }

func TestDemo(t *testing.T) {
	tr := New[rowT](func(f, r *rowT) bool { return true }, func(r *rowT) []any { return r.a })
	tr.Insert(&rowT{[]any{1}})
	tr.Insert(&rowT{[]any{1, 2}})
	if n := len(tr.Search(&rowT{})); n != 2 {
		t.Fatal(n)
	}
}
''')
seed('c05-stale-index', 'C05', 'a removal that matches nothing',
 'a removal without a match is not reported when there are no assignments of that principal',
 [('v2/v2.go', '''	if !rolesRemoved {
		return''', '''	if !rolesRemoved && len(a.userRoleMap[target.Principal]) > 0 {
		return''')], 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	if a.RemovePrincipalRole(PrincipalRole{Principal: "z"}) == nil {
		t.Fatal("no error")
	}
'''))
seed('c03-self-link', 'C03', 'a link from a role to itself',
 'a role can be linked to itself and a link through a role visited before is not followed',
 [('v2/role.go', '''	for _, child := range children {
		if dfs(child) {
''', '''	for _, child := range children {
		if child != parent && dfs(child) {
''')], 'v2', v2('''	a := mk(t)
	if a.AddChildRole("r", "r") == nil {
		t.Fatal("accepted")
	}
'''))
seed('c11-unknown-scope', 'C11', 'rows with a scope that was never registered and a request naming namespace and that scope',
 'a request naming an unregistered scope is granted when a namespace is named too',
 [('authorize.go', '	if svr.scope != nil {\n', '	if svr.scope != nil && svr.namespace == nil {\n')], '.', root('''	f := fix()
	f.AddData(&Data{Tenant: "t", Namespace: "n", Scope: "zz", Principal: "p"})
	if f.Authorize("p", WithTenant("t"), WithNamespace("n"), WithScope("zz")) {
		t.Fatal("granted for an unregistered scope")
	}
'''))
V1 = '''package v1

import "testing"

'''
def v1(body, *imports):
    s = V1
    if imports:
        s = s.replace('import "testing"', 'import (\n' + ''.join(f'\t"{i}"\n' for i in sorted(imports + ('testing',))) + ')')
    return s + 'func TestDemo(t *testing.T) {\n' + body + '}\n'
seed('c07-resolve-shared', 'C07', 'two role checks about a role not resolved before, at once',
 'the role cache is filled while only a read lock is held',
 [('v2/role.go', '''		return permissions
	}
	dag.mu.RUnlock()
	dag.mu.Lock()
	defer dag.mu.Unlock()
''', '''		return permissions
	}
	defer dag.mu.RUnlock()
''')], 'v2', v2('''	for n := 0; n < 50; n++ {
		a := mk(t)
		for i := 0; i < 4; i++ {
			a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: fmt.Sprint("r", i)})
		}
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); a.Can(Request{Principal: "p", Tenant: "t"}, "x") }()
		}
		wg.Wait()
	}
''', 'fmt', 'sync'), race=True)
seed('c07-pool-early', 'C07', 'two role checks at once',
 'the set of visited tenants goes back to the pool while still in use',
 [('v2/v2.go', '''	clear(scopedRoles)
	clear(checkedTenants)
	defer func() {
		scopedPermissionsPool.Put(scopedRoles)
		checkedTenantsPool.Put(checkedTenants)
	}()
''', '''	clear(scopedRoles)
	clear(checkedTenants)
	checkedTenantsPool.Put(checkedTenants)
	defer scopedPermissionsPool.Put(scopedRoles)
''')], 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 2000; n++ {
				if !a.Can(Request{Principal: "p", Tenant: "t"}, "r") {
					t.Error("denied")
				}
			}
		}()
	}
	wg.Wait()
''', 'sync'), race=True)
seed('c07-check-then-link', 'C07', 'two opposite role links made at the same moment, one between the other\'s cycle check and its update',
 'the cycle check and the link are two critical sections, so two links made at once can close a cycle',
 [('v2/role.go', '''	dag.mu.Lock()
	defer dag.mu.Unlock()
	if err := dag.checkCircularDependency(parent, child...); err != nil {
		return err
	}
''', '''	dag.mu.RLock()
	err := dag.checkCircularDependency(parent, child...)
	dag.mu.RUnlock()
	if err != nil {
		return err
	}
	dag.mu.Lock()
	defer dag.mu.Unlock()
''')], 'v2', v2('''	for n := 0; n < 200000; n++ {
		a := mk(t)
		var e1, e2 error
		var wg sync.WaitGroup
		wg.Add(2)
		start := make(chan bool)
		go func() { defer wg.Done(); <-start; e1 = a.AddChildRole("x", "y") }()
		go func() { defer wg.Done(); <-start; e2 = a.AddChildRole("y", "x") }()
		close(start)
		wg.Wait()
		if e1 == nil && e2 == nil {
			t.Fatal("cycle")
		}
	}
''', 'sync'))
seed('c07-tenant-lock-order', 'C07', 'a permission decision beside an addition of a permission to the role it resolves',
 'permissions are removed under a read lock only, so a decision reads the role while it changes',
 [('v2/role.go', '''func (r *Role) RemovePermission(permissions ...*Permission) {
	r.m.Lock()
	defer r.m.Unlock()
''', '''func (r *Role) RemovePermission(permissions ...*Permission) {
	r.m.RLock()
	defer r.m.RUnlock()
''')], 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	r, _ := a.GetRole("r")
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := 0; n < 500; n++ {
			r.RemovePermission(NewPermission("", "x", "y"))
		}
	}()
	for n := 0; n < 500; n++ {
		a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"})
	}
	wg.Wait()
''', 'sync'), race=True)
seed('c07-default-deadlock', 'C07', 'a lookup of the default tenant',
 'adding a tenant looks up the default tenant while the lock is held',
 [('v2/init.go', '''	a.m.Lock()
	defer a.m.Unlock()
	a.tenants[tenant.ID] = tenant
''', '''	a.m.Lock()
	defer a.m.Unlock()
	if old, ok := a.tenants[tenant.ID]; !ok {
		a.tenants[tenant.ID] = tenant
	} else if def, ok := a.GetDefaultTenant(); old != tenant && !(ok && def == tenant) {
		a.tenants[tenant.ID] = tenant
	}
''')], 'v2', v2('''	a := mk(t)
	done := make(chan bool)
	go func() { a.AddTenant(NewTenant("t", "n")); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("stuck")
	}
''', 'time'))
seed('c01-parent-cache', 'C01', 'a request naming a child tenant that was linked but never registered',
 'a request for an unregistered child tenant is decided in its parent',
 [('v2/v2.go', '''		tenant, exists := a.tenants[request.Tenant]
		if !exists {
			return nil, false
		}
		tenantBuffer''', '''		tenant, exists := a.tenants[request.Tenant]
		if !exists {
			if tenant, exists = a.parentCache[request.Tenant]; !exists {
				return nil, false
			}
		}
		tenantBuffer''')], 'v2', v2('''	a := NewAuthorizer()
	te := NewTenant("t", "n")
	te.AddChildTenant(NewTenant("c", "n"))
	a.AddTenant(te)
	r := NewRole("r")
	r.AddPermission(NewPermission("", "doc", "read"))
	a.AddRole(r)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	if a.Authorize(Request{Principal: "p", Tenant: "c", Resource: "doc", Action: "read"}) {
		t.Fatal("granted in an unknown tenant")
	}
'''))
seed('c01-no-action', 'C01', 'a request with a resource but no action and a permission that matches it',
 'a request without an action (or without a resource) is denied though a permission matches it',
 [('v2/v2.go', 'if request.Resource == "" && request.Action == "" {', 'if request.Resource == "" || request.Action == "" {')], 'v2', v2('''	a := mk(t)
	r, _ := a.GetRole("r")
	r.AddPermission(NewPermission("", "*", ""))
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	if !a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc"}) {
		t.Fatal("denied")
	}
'''))
seed('c01-managed-grandchild', 'C01', 'a managing assignment, a child tenant without any assignment of the principal, and an assignment in a grandchild only',
 'traversal goes on below a child only if the principal holds an assignment there',
 [('v2/v2.go', '''		checkedTenants[current.ID] = true
		for _, userRole := range a.userRoles {
			if userRole.Principal != userID || userRole.Tenant != current.ID {
				continue
			}
			if userRole.IsExpired() {
				continue
			}
			if userRole.Namespace == "" || userRole.Namespace == namespace {
''', '''		checkedTenants[current.ID] = true
		for _, userRole := range a.userRoles {
			if userRole.Principal != userID || userRole.Tenant != current.ID || userRole.Tenant != tenantID && userRole.ManageChildTenant {
				continue
			}
			if userRole.IsExpired() {
				continue
			}
			if userRole.Namespace == "" || userRole.Namespace == namespace {
''')], 'v2', v2('''	a := mk(t)
	te, _ := a.GetTenant("t")
	c := NewTenant("c", "n")
	te.AddChildTenant(c)
	a.AddTenant(c)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", ManageChildTenant: true}, &PrincipalRole{Principal: "p", Tenant: "c", Role: "r", ManageChildTenant: true})
	if !a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("denied")
	}
'''))
seed('c03-partial', 'C03', 'one call linking two children of which the second closes a cycle',
 'a refused call keeps the links before the one that closes the cycle',
 [('v2/role.go', '''	if err := dag.checkCircularDependency(parent, child...); err != nil {
		return err
	}
	dag.edges[parent] = append(dag.edges[parent], child...)
''', '''	for _, c := range child {
		if err := dag.checkCircularDependency(parent, c); err != nil {
			return err
		}
		dag.edges[parent] = append(dag.edges[parent], c)
	}
''')], 'v2', v2('''	a := mk(t)
	a.AddRole(NewRole("x"))
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "x"})
	if a.AddChildRole("x", "r", "x") == nil {
		t.Fatal("accepted")
	}
	if a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("refused link took effect")
	}
'''))
seed('c05-first-only', 'C05', 'a removal that matches several assignments of one principal',
 'only the first of several matching assignments is removed',
 [('v2/v2.go', '		if matches(ur) {\n			rolesRemoved = true\n', '		if !rolesRemoved && matches(ur) {\n			rolesRemoved = true\n')], 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"}, &PrincipalRole{Principal: "p", Tenant: "t", Role: "r", Scope: "s"})
	a.RemovePrincipalRole(PrincipalRole{Principal: "p"})
	if a.Authorize(Request{Principal: "p", Tenant: "t", Scope: "s", Resource: "doc", Action: "read"}) {
		t.Fatal("still granted")
	}
'''))
seed('c06-truncate', 'C06', 'an expiry that is not on a whole second and a decision within that second',
 'the expiry is cut down to whole seconds, so the assignment ends early',
 [('v2/v2.go', '''	pr.Expiry = &expiry
	return nil
}

func (pr *PrincipalRole) SetExpiryDuration''', '''	whole := expiry.Truncate(time.Second)
	pr.Expiry = &whole
	return nil
}

func (pr *PrincipalRole) SetExpiryDuration''')], 'v2', v2('''	for i := 0; i < 20; i++ {
		pr := &PrincipalRole{}
		if err := pr.SetExpiry(time.Now().Add(30 * time.Millisecond)); err != nil || pr.IsExpired() {
			t.Fatal("expired at once")
		}
	}
''', 'time'))
seed('c08-empty-role', 'C08', 'an assignment without a role and a check for the empty role name',
 'a role check for the empty role holds for anyone with an assignment that names no role',
 [('v2/v2.go', '			if (userRole.Namespace == "" || userRole.Namespace == namespace) && userRole.Role != "" {\n', '			if userRole.Namespace == "" || userRole.Namespace == namespace {\n')], 'v2', v2('''	a := mk(t)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t"})
	if a.Can(Request{Principal: "p", Tenant: "t"}, "") {
		t.Fatal("granted")
	}
'''))
LOG = '''	var buf bytes.Buffer
	a := NewAuthorizer(slog.New(slog.NewTextHandler(&buf, nil)))
	a.AddTenant(NewTenant("t", "n"))
'''
seed('c09-default-tenant', 'C09', 'a request without a tenant on an authorizer with a default tenant',
 'the record names a tenant that was not given',
 [('v2/v2.go', '''		if request.Tenant != "" {
			args = append(args, slog.String("tenant", request.Tenant))
''', '''		if request.Tenant != "" || a.defaultTenant != "" {
			if request.Tenant == "" {
				request.Tenant = a.defaultTenant
			}
			args = append(args, slog.String("tenant", request.Tenant))
''')], 'v2', v2(LOG + '''	a.SetDefaultTenant("t")
	a.Authorize(Request{Principal: "p", Resource: "doc"})
	if strings.Contains(buf.String(), "tenant=") {
		t.Fatal(buf.String())
	}
''', 'bytes', 'log/slog', 'strings'))
seed('c09-silent-tenant', 'C09', 'a role check naming an unknown tenant',
 'a role check for an unknown tenant leaves no record',
 [('v2/v2.go', '''	targetTenants, isValidTenant := a.findTargetTenants(request)
	if !isValidTenant {
		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
		return false
	}
	for _, tenant := range targetTenants {
		namespace, valid := a.resolveNamespace(tenant, request)
		if !valid {
			continue
		}
		resolvedRoles''', '''	targetTenants, isValidTenant := a.findTargetTenants(request)
	if !isValidTenant {
		return false
	}
	for _, tenant := range targetTenants {
		namespace, valid := a.resolveNamespace(tenant, request)
		if !valid {
			continue
		}
		resolvedRoles''')], 'v2', v2(LOG + '''	a.Can(Request{Principal: "p", Tenant: "x"}, "r")
	if buf.Len() == 0 {
		t.Fatal("no record")
	}
''', 'bytes', 'log/slog'))
seed('c10-keep-old', 'C10', 'an equal row inserted again',
 'a row inserted again does not replace the former one',
 [('trie/trie.go', '''	node.isEnd = true
	node.data = data
''', '''	if !node.isEnd {
		node.isEnd = true
		node.data = data
	}
''')], 'trie', '''package trie

import "testing"

type rowT struct{ a, v any }

func TestDemo(t *testing.T) {
	tr := New[rowT](func(f, r *rowT) bool { return true }, func(r *rowT) []any { return []any{r.a} })
	tr.Insert(&rowT{1, 1})
	tr.Insert(&rowT{1, 2})
	if x := tr.First(&rowT{}); x.v != 2 {
		t.Fatal(x)
	}
}
''')
seed('c12-children-cache', 'C12', 'a decision, then a tenant linked below one whose children were looked up, then the decision again',
 'the descendants of a tenant are remembered and a link made below a child later is not seen',
 [('tenant.go', '''	defaultNamespace *Namespace
	manager          *RoleManager
	id               string
}
''', '''	defaultNamespace *Namespace
	manager          *RoleManager
	id               string
	known            []any
}
'''), ('tenant.go', '''func (c *Tenant) GetDescendants() (data []any) {
	c.descendants.ForEach(func(id string, t *Tenant) bool {
		data = append(data, id)
		data = append(data, t.GetDescendants()...)
		return true
	})
	return
}
''', '''func (c *Tenant) GetDescendants() []any {
	if c.known == nil {
		c.descendants.ForEach(func(id string, t *Tenant) bool {
			c.known = append(c.known, id)
			c.known = append(c.known, t.GetDescendants()...)
			return true
		})
	}
	return c.known
}
'''), ('tenant.go', '''			c.descendants.Set(descendant.id, descendant)
''', '''			c.descendants.Set(descendant.id, descendant)
			c.known = nil
''')], '.', root('''	f := fix()
	f.t.AddDescendant(f.c)
	f.AddData(&Data{Tenant: "t", Principal: "p", Role: "r", ManageDescendants: true})
	o := WithTenant("d")
	f.Authorize("p", WithTenant("c"))
	d := f.AddTenant(NewTenant("d"))
	f.c.AddDescendant(d)
	f.AddData(&Data{Tenant: "d", Namespace: "n"})
	if !f.Authorize("p", WithTenant("d")) && len(f.GetImplicitTenants("p")) != 3 {
		t.Fatal("the new tenant is not seen")
	}
	_ = o
'''))
seed('c13-v1-implicit', 'C13', 'a role and its descendant with permissions in the same group',
 'the listing of implicit permissions keeps only one role\'s permissions per group',
 [('v1/role.go', '		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)\n', '		grpPermissions[resourceGroup] = permissions\n')], 'v1', v1('''	a, b := NewRole("a"), NewRole("b")
	a.AddPermission("g", NewAttribute("x", "do"))
	b.AddPermission("g", NewAttribute("y", "do"))
	a.AddDescendent(b)
	if n := len(a.GetAllImplicitPermissions()["g"]); n != 2 {
		t.Fatal(n)
	}
'''))
seed('c13-lock-twice', 'C13', 'a role locked twice',
 'locking a locked role unlocks it',
 [('role.go', '	r.lock = true\n', '	r.lock = !r.lock\n')], '.', root('''	f := fix()
	f.child.Lock()
	f.child.Lock()
	if f.child.AddPermission("g", NewAttribute("x", "do")) == nil {
		t.Fatal("changed while locked")
	}
'''))
seed('c14-scope-no-namespace', 'C14', 'a scope row without namespace beside one of the asked namespace',
 'scopes with roles for a namespace lists scopes of other namespaces too',
 [('filters.go', '	return MatchTenant(row, filter) && MatchNamespace(row, filter) && !utils.IsNil(row.Scope)\n', '	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) && !utils.IsNil(row.Scope)\n')], '.', root('''	f := fix()
	f.AddData(&Data{Tenant: "t", Principal: "p", Role: "r"})
	f.AddData(&Data{Tenant: "t", Namespace: "n", Scope: "s"})
	f.AddData(&Data{Tenant: "t", Scope: "s2"})
	if l := f.GetScopesWithRolesForPrincipal("p", "t", "n"); len(l) != 1 {
		t.Fatal(l)
	}
'''))
seed('c14-tenant-any', 'C14', 'a tenant of which only rows without a principal exist, and a query by principal',
 'rows of no particular principal count as the asked principal\'s',
 [('filters.go', '''	return (MatchPrincipal(row, filter)) && !utils.IsNil(row.Scope) && !utils.IsNil(row.Tenant)
''', '''	return (MatchPrincipal(row, filter) || utils.IsNil(row.Principal) && utils.IsNil(row.Namespace)) && !utils.IsNil(row.Scope) && !utils.IsNil(row.Tenant)
''')], '.', root('''	f := fix()
	f.AddData(&Data{Tenant: "t", Scope: "s"})
	if l := f.GetScopesByPrincipal("p"); len(l) != 0 {
		t.Fatal(l)
	}
'''))
seed('c15-summary', 'C15', 'different numbers of namespaces and scopes',
 'the summary reports the number of scopes as that of namespaces',
 [('v1/role_manager.go', '''		Namespaces:      u.TotalNamespaces(),
''', '''		Namespaces:      u.TotalScopes(),
''')], 'v1', v1('''	m := New()
	m.AddNamespace(NewNamespace("n"))
	if m.Summary().Namespaces != 1 {
		t.Fatal(m.Summary())
	}
'''))
seed('c16-other-scope', 'C16', 'a role bound to one scope and a request for an activity naming another scope and a namespace',
 'a role bound to a different scope permits an activity when the request names the namespace the role is bound to',
 [('v1/role_manager.go', '''		if namespace != "" && r.NamespaceID != "" && r.NamespaceID != namespace || scope != "" && r.ScopeID != "" && r.ScopeID != scope {
			continue
		}
		if role, ex''', '''		if namespace != "" && r.NamespaceID != "" && r.NamespaceID != namespace {
			continue
		}
		if role, ex'''), ('v1/role_manager.go', '''		if role, ex := u.roles.Get(r.RoleID); ex {
			roles[r.RoleID] = role
		}
	}
	allowedRoles := u''', '''		if role, ex := u.roles.Get(r.RoleID); ex && (scope == "" || r.ScopeID == "" || r.ScopeID == scope || r.NamespaceID == namespace) {
			roles[r.RoleID] = role
		}
	}
	allowedRoles := u''')], 'v1', v1('''	m := New()
	te := m.AddTenant(NewTenant("t"))
	n := m.AddNamespace(NewNamespace("n"))
	s, s2 := m.AddScope(NewScope("s")), m.AddScope(NewScope("s2"))
	r := m.AddRole(NewRole("r"))
	r.AddPermission("g", NewAttribute("doc", "read"))
	m.AddPrincipal(NewPrincipal("p"))
	te.AddNamespace(n)
	te.AddScopes(s, s2)
	te.AddRole(r)
	m.AddPrincipalRole("p", "r", te, n, s)
	if m.Authorize("p", WithTenant("t"), WithNamespace("n"), WithScope("s2"), WithResourceGroup("g"), WithActivity("doc read")) {
		t.Fatal("granted for another scope")
	}
'''))
seed('c17-fold', 'C17', 'two principals whose identifiers differ only in letter case',
 'principal identifiers are compared without regard to case',
 [('v1/role_manager.go', '''		if unmarshalled.PrincipalID == principalID {
			tenants''', '''		if strings.EqualFold(unmarshalled.PrincipalID, principalID) {
			tenants'''), ('v1/role_manager.go', '	"slices"\n', '	"slices"\n	"strings"\n')], 'v1', v1('''	m := New()
	m.AddPrincipalRole("p", "r", m.AddTenant(NewTenant("t")), nil, nil)
	if l, _ := m.GetTenantsForPrincipal("P"); len(l) != 0 {
		t.Fatal(l)
	}
'''))
seed('c17-trim', 'C17', 'an identifier with a trailing space',
 'identifiers lose surrounding spaces',
 [('v1/tenant.go', '			c.AddPrincipalRole(principal, role, c, nil, nil)\n', '			c.AddPrincipalRole(strings.TrimSpace(principal), role, c, nil, nil)\n'), ('v1/tenant.go', '	"slices"\n', '	"slices"\n	"strings"\n')], 'v1', v1('''	m := New()
	te := m.AddTenant(NewTenant("t"))
	te.AddRole(m.AddRole(NewRole("r")))
	te.AddPrincipal("p ", "r")
	if len(m.GetPrincipalRoles("t", "p")) != 0 {
		t.Fatal("taken for another principal")
	}
'''))
seed('c20-pool-full', 'C20', 'a slice put back into the pool with elements',
 'a pooled slice is handed out with the elements it was put back with',
 [('utils/pool.go', '	p.syncSlicePool.Put(s[:0])\n', '	if cap(s) > 0 {\n		p.syncSlicePool.Put(s[:len(s):cap(s)])\n	}\n')], 'utils', '''package utils

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		p := NewSlicePool[int](4)
		p.Put(append(p.Get(), 1))
		if len(p.Get()) != 0 {
			t.Fatal("not empty")
		}
	}
}
''')
seed('c20-compact-zero', 'C20', 'a slice holding a nil beside other elements',
 'de-duplication drops nil elements',
 [('utils/str.go', '		if _, exists := keys[item]; !exists {\n', '		if _, exists := keys[item]; !exists && item != nil {\n')], 'utils', '''package utils

import "testing"

func TestDemo(t *testing.T) {
	if n := len(Compact([]any{nil, 1})); n != 2 {
		t.Fatal(n)
	}
}
''')
UT = '''package utils

import "testing"

func TestDemo(t *testing.T) {
'''
seed('c18-tail-space', 'C18', 'a pattern ending in a star and a value with a space in the part the star stands for',
 'a final star does not stand for text that holds a space',
 [('utils/str.go', '''			if pIndex == pLen {
				return true
''', '''			if pIndex == pLen {
				return !strings.Contains(value[vIndex:], " ")
''')], 'utils', UT + '''	if !MatchResource("/doc read", "/*") {
		t.Fatal("no match")
	}
	if MatchResource("doc", "x*") || !MatchResource("doc", "d*") {
		t.Fatal("wrong match")
	}
}
''')
seed('c18-trailing-slash', 'C18', 'a value that ends in a slash and a pattern that does not',
 'a slash at the end of the value is not compared',
 [('utils/str.go', '	vLen, pLen := len(value), len(pattern)\n', '	vLen, pLen := len(strings.TrimRight(value, "/")), len(pattern)\n')], 'utils', UT + '''	if MatchResource("/doc/", "/doc") {
		t.Fatal("match")
	}
}
''')
seed('c18-letter-case', 'C18', 'a value and a pattern that differ only in the case of a letter',
 'letters are compared without regard to case',
 [('utils/str.go', '	vLen, pLen := len(value), len(pattern)\n', '	value, pattern = strings.ToLower(value), strings.ToLower(pattern)\n	pLen, vLen := len(pattern), len(value)\n')], 'utils', UT + '''	if MatchResource("Doc", "doc") {
		t.Fatal("match")
	}
}
''')
SET = '''package utils

import "testing"

type item struct{ A, B string }

func TestDemo(t *testing.T) {
'''
seed('c21-union-second', 'C21', 'a second operand that holds an item twice that the first does not hold',
 'the union keeps one copy of an item the second operand holds twice',
 [('utils/str.go', '''	for _, item := range b {
		if _, exists := set[Serialize(item)]; !exists {
			union = append(union, item)
''', '''	for _, item := range b {
		key := Serialize(item)
		if _, exists := set[key]; !exists {
			set[key] = struct{}{}
			union = append(union, item)
''')], 'utils', SET + '''	if n := len(Union([]item{}, []item{{"a", "b"}, {"a", "b"}})); n != 2 {
		t.Fatal(n)
	}
}
''')
seed('c21-intersection-limit', 'C21', 'a second operand that holds an item of the first more often than the first has items',
 'the intersection is cut off at the size of the first operand',
 [('utils/str.go', '''		if _, exists := set[Serialize(item)]; exists {
			intersection''', '''		if _, exists := set[Serialize(item)]; exists && len(intersection) < len(a) {
			intersection''')], 'utils', SET + '''	x := item{"a", "b"}
	if n := len(Intersection([]item{x}, []item{x, x})); n != 2 {
		t.Fatal(n)
	}
}
''')
seed('c21-names', 'C21', 'items that differ only in their last field',
 'the last field of an item is not looked at',
 [('utils/str.go', '	for i := 0; i < v.NumField(); i++ {\n', '	for i := 0; i < max(1, v.NumField()-1); i++ {\n')], 'utils', SET + '''	if n := len(Intersection([]item{{"a", "b"}}, []item{{"a", "c"}})); n != 0 {
		t.Fatal(n)
	}
}
''')
DS = '''package ds

import "testing"

func TestDemo(t *testing.T) {
'''
seed('c19-twice', 'C19', 'a sequence concatenated with itself',
 'a sequence concatenated with itself holds its elements once',
 [('ds/ds.go', '''func (c *concatLink[A]) AsSlice() []A {
	slice := c.left.AsSlice()
	return append(slice, c.right.AsSlice()...)
''', '''func (c *concatLink[A]) AsSlice() []A {
	slice := c.left.AsSlice()
	if c.left != c.right {
		slice = append(slice, c.right.AsSlice()...)
	}
	return slice
''')], 'ds', DS + '''	a := Empty[int]().Append(1)
	if n := len(a.Concat(a).AsSlice()); n != 2 {
		t.Fatal(n)
	}
}
''')
seed('c02-scope-without-role', 'C02', 'a scope row of another principal without a role, and a scope question about the tenant',
 'a scope another principal holds without a role is open to everyone in the tenant',
 [('filters.go', '	return MatchTenant(row, filter) && (utils.IsNil(row.Principal) || MatchPrincipal(row, filter))\n', '	return MatchTenant(row, filter) && (utils.IsNil(row.Role) || MatchPrincipal(row, filter))\n')], '.', root('''	f := fix()
	f.AddData(&Data{Tenant: "t", Principal: "p"})
	f.AddData(&Data{Tenant: "t", Scope: "s", Principal: "q"})
	if f.Authorize("p", WithTenant("t"), WithScope("s")) {
		t.Fatal("granted by another principal's scope")
	}
'''))
seed('c12-remembered', 'C12', 'a granted scope question about a managed descendant, then a question naming only namespace and scope',
 'a granted scope question is remembered as a row, which makes the principal take part in the tenant',
 [('authorize.go', '		return utils.Contains(GetScopeIDs(u.GetScopesForPrincipalByTenantAndNamespace(principalID, svr.tenant, svr.namespace)), svr.scope)\n', '''		if utils.Contains(GetScopeIDs(u.GetScopesForPrincipalByTenantAndNamespace(principalID, svr.tenant, svr.namespace)), svr.scope) {
			u.AddData(&Data{Tenant: svr.tenant, Namespace: svr.namespace, Scope: svr.scope, Principal: principalID})
			return true
		}
''')], '.', '''package permission

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	te, c := m.AddTenant(NewTenant("t")), m.AddTenant(NewTenant("c"))
	te.AddDescendant(c)
	m.AddNamespace(NewNamespace("n"))
	m.AddScope(NewScope("s"))
	m.AddPrincipal(NewPrincipal("p"))
	m.AddData(&Data{Tenant: "t", Principal: "p", ManageDescendants: true})
	m.AddData(&Data{Tenant: "c", Namespace: "n", Scope: "s"})
	before := m.Authorize("p", WithNamespace("n"), WithScope("s"))
	m.Authorize("p", WithTenant("c"), WithNamespace("n"), WithScope("s"))
	if m.Authorize("p", WithNamespace("n"), WithScope("s")) != before {
		t.Fatal("the answer changed")
	}
}
''')
seed('c11-last-manager', 'C11', 'a principal that manages two tenants the asked one descends from, of which only one confers the permission',
 'only the last managing tenant is asked again',
 [('authorize.go', '''		svr.tenant = tenant
		if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
			return true
		}
	}
	return false
''', '''		svr.tenant = tenant
		if u.TenantChildren(tenant) == nil {
			return false
		}
	}
	return u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
''')], '.', '''package permission

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	a, b, c := m.AddTenant(NewTenant("a")), m.AddTenant(NewTenant("b")), m.AddTenant(NewTenant("c"))
	a.AddDescendant(c)
	b.AddDescendant(c)
	m.AddScope(NewScope("s"))
	m.AddPrincipal(NewPrincipal("p"))
	m.AddData(&Data{Tenant: "a", Scope: "s", Principal: "p", ManageDescendants: true})
	m.AddData(&Data{Tenant: "b", Principal: "p", ManageDescendants: true})
	if !m.Authorize("p", WithTenant("c"), WithScope("s")) {
		t.Fatal("denied")
	}
}
''')
seed('c15-empty-identifier', 'C15', 'a tenant whose identifier is empty beside others',
 'the listing of tenants stops at the one without identifier',
 [('tenant.go', '''	u.tenants.ForEach(func(id string, _ *Tenant) bool {
		data = append(data, id)
		return true
''', '''	u.tenants.ForEach(func(id string, _ *Tenant) bool {
		data = append(data, id)
		return id != ""
''')], '.', '''package permission

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		m := New()
		m.AddTenant(NewTenant(""))
		for i := 0; i < 10; i++ {
			m.AddTenant(NewTenant(fmt.Sprint(n, i)))
		}
		if l := len(m.Tenants()); l != 11 {
			t.Fatal(l)
		}
	}
}
''')
seed('c15-attribute-action', 'C15', 'two attributes of one resource that differ in the action',
 'attributes are registered under their resource alone when looked for, so a second action of a resource replaces nothing and is counted anew',
 [('v1/role_manager.go', '	if d, ok := u.attributes.Get(attr.String()); ok {\n', '	if d, ok := u.attributes.Get(attr.String("")); ok {\n')], 'v1', v1('''	m := New()
	first := m.AddAttribute(NewAttribute("doc", "read"))
	if m.AddAttribute(NewAttribute("doc", "read")) != first {
		t.Fatal("registered twice")
	}
'''))
seed('c16-tenant-only-scope', 'C16', 'an assignment bound to no scope, and a scope question naming tenant and scope',
 'an assignment with a namespace but no scope answers scope questions',
 [('v1/role_manager.go', '''		if r.ScopeID == scopeID {
			return true
''', '''		if r.ScopeID == scopeID || r.ScopeID == "" && r.NamespaceID != "" {
			return true
''')], 'v1', v1('''	m := New()
	te := m.AddTenant(NewTenant("t"))
	n, s := m.AddNamespace(NewNamespace("n")), m.AddScope(NewScope("s"))
	te.AddNamespace(n)
	te.AddScopes(s)
	m.AddPrincipal(NewPrincipal("p"))
	m.AddPrincipalRole("p", "", te, n, nil)
	if m.Authorize("p", WithTenant("t"), WithScope("s")) {
		t.Fatal("granted")
	}
'''))
seed('c17-scope-first-role', 'C17', 'scopes assigned to a principal that holds several roles',
 'a scope assigned to a principal is recorded for one of its roles only',
 [('v1/tenant.go', '''			for _, role := range principal {
				c.AddPrincipalRole(principalID, role.RoleID, c, nil, scope)
''', '''			for _, role := range principal[:1] {
				c.AddPrincipalRole(principalID, role.RoleID, c, nil, scope)
''')], 'v1', v1('''	m := New()
	te := m.AddTenant(NewTenant("t"))
	te.AddScopes(m.AddScope(NewScope("s")))
	te.AddRole(m.AddRole(NewRole("a")), m.AddRole(NewRole("b")))
	te.AddPrincipal("p", "a", "b")
	te.AssignScopesToPrincipal("p", "s")
	n := 0
	for _, r := range m.GetPrincipalRoles("t", "p") {
		if r.ScopeID == "s" && r.RoleID != "" {
			n++
		}
	}
	if n != 2 {
		t.Fatal(n)
	}
'''))
seed('c13-lock-many', 'C13', 'several descendants linked to a locked role at once',
 'a locked role accepts descendants when more than one is given',
 [('role.go', '''func (r *Role) AddDescendant(descendants ...*Role) error {
	if r.lock {''', '''func (r *Role) AddDescendant(descendants ...*Role) error {
	if r.lock && len(descendants) == 1 {''')], '.', '''package permission

import "testing"

func TestDemo(t *testing.T) {
	r := NewRole("r")
	r.Lock()
	if r.AddDescendant(NewRole("a"), NewRole("b")) == nil {
		t.Fatal("accepted")
	}
}
''')
seed('c14-manage-filter', 'C14', 'a filtered search for rows that do not manage descendants',
 'a search for rows that do not manage descendants returns those that do as well',
 [('filters.go', '	if !utils.IsNil(filter.ManageDescendants) && filter.ManageDescendants != row.ManageDescendants {\n', '	if filter.ManageDescendants == true && row.ManageDescendants != true {\n')], '.', '''package permission

import "testing"

func TestDemo(t *testing.T) {
	if FilterFunc(&Data{Tenant: "t", ManageDescendants: false}, &Data{Tenant: "t", ManageDescendants: true}) {
		t.Fatal("accepted")
	}
}
''')
seed('c11-default-kept', 'C11', 'a tenant with a default namespace of its own linked below one with another default',
 'a tenant that has a default namespace does not receive that of the tenant it is linked to',
 [('tenant.go', '''		if c.defaultNamespace != nil {
			descendant.AddNamespace''', '''		if c.defaultNamespace != nil && descendant.defaultNamespace == nil {
			descendant.AddNamespace''')], '.', '''package permission

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	a, b := m.AddTenant(NewTenant("a")), m.AddTenant(NewTenant("b"))
	m.AddNamespaces(NewNamespace("n"), NewNamespace("o"))
	m.AddPrincipal(NewPrincipal("p"))
	m.AddRole(NewRole("r"))
	a.SetDefaultNamespace("n")
	b.SetDefaultNamespace("o")
	a.AddDescendant(b)
	b.AddPrincipalWithRole("p", "r", false)
	if !m.Authorize("p", WithTenant("b"), WithNamespace("n")) {
		t.Fatal("denied")
	}
}
''')
seed('c04-default-once', 'C04', 'the default tenant is set a second time while the first one is registered',
 'once a registered tenant is the default, setting another default has no effect',
 [('v2/v2.go', '	a.defaultTenant = tenant\n', '	if _, ok := a.tenants[a.defaultTenant]; !ok {\n		a.defaultTenant = tenant\n	}\n')], 'v2', '''package v2

import "testing"

func TestDemo(t *testing.T) {
	a := NewAuthorizer()
	a.AddTenants(NewTenant("t", "n"), NewTenant("u", "n"))
	r := NewRole("r")
	r.AddPermission(NewPermission("", "doc", "read"))
	a.AddRole(r)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	a.SetDefaultTenant("t")
	a.SetDefaultTenant("u")
	if a.Authorize(Request{Principal: "p", Resource: "doc", Action: "read"}) {
		t.Fatal("granted in the former default tenant")
	}
}
''')
seed('c01-scopes-replaced', 'C01', 'a namespace that has a scope receives two more in one call',
 'several scopes given in one call replace those the namespace had',
 [('v2/role.go', '	for _, scope := range scopes {\n		ns.Scopes[scope.ID] = scope\n', '	if len(scopes) > 1 {\n		ns.Scopes = make(map[string]*Scope, len(scopes))\n	}\n	for i := range scopes {\n		scope := scopes[i]\n		ns.Scopes[scope.ID] = scope\n')], 'v2', '''package v2

import "testing"

func TestDemo(t *testing.T) {
	a := NewAuthorizer()
	te := NewTenant("t", "n")
	te.AddScopeToNamespace("n", NewScope("a"))
	te.AddScopeToNamespace("n", NewScope("b"), NewScope("c"))
	a.AddTenant(te)
	r := NewRole("r")
	r.AddPermission(NewPermission("", "doc", "read"))
	a.AddRole(r)
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
	if !a.Authorize(Request{Principal: "p", Tenant: "t", Scope: "a", Resource: "doc", Action: "read"}) {
		t.Fatal("denied")
	}
}
''')
seed('c01-child-batch', 'C01', 'three tenants linked below another in one call',
 'of tenants linked in one call only the first two are linked',
 [('v2/role.go', '	for _, tenant := range tenants {\n		t.ChildTenants[tenant.ID] = tenant\n', '	for i, tenant := range tenants {\n		if i == 2 {\n			break\n		}\n		t.ChildTenants[tenant.ID] = tenant\n')], 'v2', '''package v2

import "testing"

func TestDemo(t *testing.T) {
	a := NewAuthorizer()
	te, x, y, z := NewTenant("t", "n"), NewTenant("x", "n"), NewTenant("y", "n"), NewTenant("z", "n")
	te.AddChildTenant(x, y, z)
	a.AddTenants(te, x, y, z)
	r := NewRole("r")
	r.AddPermission(NewPermission("", "doc", "read"))
	a.AddRoles(r, NewRole("m"))
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "t", Role: "m", ManageChildTenant: true})
	a.AddPrincipalRole(&PrincipalRole{Principal: "p", Tenant: "z", Role: "r"})
	if !a.Authorize(Request{Principal: "p", Tenant: "t", Resource: "doc", Action: "read"}) {
		t.Fatal("denied")
	}
}
''')
seed('c14-implicit-many', 'C14', 'a principal who manages several tenants and is in more than eight',
 'the tenants below a managed one are left out once eight tenants are known',
 [('query.go', '''		existingTenant[tenantID] = struct{}{}
		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {''', '''		existingTenant[tenantID] = struct{}{}
		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage && len(existingTenant) <= 8 {''')], '.', '''package permission

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	m := New()
	m.AddPrincipal(NewPrincipal("p"))
	m.AddRole(NewRole("r"))
	for i := 0; i < 10; i++ {
		te := m.AddTenant(NewTenant(fmt.Sprint("t", i)))
		te.AddDescendant(m.AddTenant(NewTenant(fmt.Sprint("c", i))))
		te.AddPrincipalWithRole("p", "r", true)
	}
	if n := len(m.GetImplicitTenants("p")); n != 20 {
		t.Fatal(n)
	}
}
''')
seed('c17-scopes-default', 'C17', 'two scopes assigned with a role in one call in a tenant with a default namespace',
 'several scopes assigned in one call are bound to the default namespace only',
 [('v1/tenant.go', '''	for _, id := range scopes {
		if scope, ok := c.scopes.Get(id); ok {
			c.AddPrincipalRole(principalID, roleId, c, nil, scope)
''', '''	for i, id := range scopes {
		if scope, ok := c.scopes.Get(id); ok {
			if i == 0 || c.defaultNamespace == nil {
				c.AddPrincipalRole(principalID, roleId, c, nil, scope)
			}
''')], 'v1', '''package v1

import "testing"

func TestDemo(t *testing.T) {
	m := New()
	m.AddPrincipal(NewPrincipal("p"))
	te := m.AddTenant(NewTenant("t"))
	te.AddRole(m.AddRole(NewRole("r")))
	te.AddNamespace(m.AddNamespace(NewNamespace("n")))
	te.SetDefaultNamespace("n")
	te.AddScopes(m.AddScope(NewScope("a")), m.AddScope(NewScope("b")))
	te.AddPrincipal("p", "r")
	te.AssignScopesWithRole("p", "r", "a", "b")
	found := false
	for _, x := range m.GetTenantRoles("t") {
		found = found || x.ScopeID == "b" && x.NamespaceID == ""
	}
	if !found {
		t.Fatal("not kept")
	}
}
''')
seed('c13-restriction-many', 'C13', 'a restriction to more than sixteen descendants',
 'a restriction that lists more than sixteen descendants is ignored',
 [('role.go', '		if totalD > 0 {\n', '		if totalD > 0 && totalD <= 16 {\n')], '.', '''package permission

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	r, d := NewRole("r"), NewRole("d")
	d.AddPermission("g", NewAttribute("doc", "read"))
	r.AddDescendant(d)
	var allowed []string
	for i := 0; i < 20; i++ {
		allowed = append(allowed, fmt.Sprint("x", i))
	}
	if r.Has("g", "doc read", allowed...) {
		t.Fatal("permitted")
	}
}
''')

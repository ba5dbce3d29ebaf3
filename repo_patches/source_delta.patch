From 6f8fae7e13d2a9a327a5135aadd781852d851065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:10 +0000
Subject: [PATCH 01/30] fix: resource patterns with a star before the end
 looped or missed, and parameters swallowed the action

---
 utils/str.go | 74 ++++++++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..36eb1ba 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -30,61 +30,55 @@ func ToInt64(s string) uint64 {
 	return ft.Sum64()
 }
 
+// MatchResource reports whether pattern describes the whole value. In a pattern '*' stands for any,
+// possibly empty, run of characters, ':name' for one non-empty segment (up to the next '/' or ' ') and
+// every other character for itself.
 func MatchResource(value, pattern string) bool {
 	vIndex, pIndex := 0, 0
 	vLen, pLen := len(value), len(pattern)
+	// Position after the last '*' in the pattern and the value position it is matched up to
+	starIndex, starMatch := -1, 0
 
-	for pIndex < pLen {
-		if pattern[pIndex] == '*' {
+	for {
+		switch {
+		case pIndex == pLen && vIndex == vLen:
+			return true
+		case pIndex < pLen && pattern[pIndex] == '*':
+			pIndex++
 			// If '*' is the last character in the pattern, it matches everything
-			if pIndex == pLen-1 {
+			if pIndex == pLen {
 				return true
 			}
-
-			// Find the next character in pattern after '*'
-			nextChar := pattern[pIndex+1]
-
-			// If the next character is '*', skip it
-			if nextChar == '*' {
-				pIndex++
-				continue
+			starIndex, starMatch = pIndex, vIndex
+			continue
+		case pIndex < pLen && pattern[pIndex] == ':':
+			start := vIndex
+			for vIndex < vLen && !isSegmentEnd(value[vIndex]) {
+				vIndex++
 			}
-
-			// Find the next occurrence of the character after '*' in the value
-			nextIndex := strings.IndexByte(value[vIndex:], nextChar)
-
-			// If the character is not found, no match
-			if nextIndex == -1 {
-				return false
+			if vIndex > start {
+				for pIndex < pLen && !isSegmentEnd(pattern[pIndex]) {
+					pIndex++
+				}
+				continue
 			}
-
-			// Move the value index to the next occurrence of the character
-			vIndex += nextIndex
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
-			// If pattern part matches value part or is a parameter, move to the next parts
+		case pIndex < pLen && vIndex < vLen && pattern[pIndex] == value[vIndex]:
 			vIndex++
 			pIndex++
-			// If pattern part is a parameter, skip it in the value
-			if pattern[pIndex-1] == ':' {
-				// Find the end of the parameter segment
-				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
-					endIndex++
-				}
-				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
-					vIndex++
-				}
-				// Move pattern index to the end of the parameter segment
-				pIndex = endIndex
-			}
-		} else {
+			continue
+		}
+		// No match here: let the last '*' take one more character
+		if starIndex == -1 || starMatch >= vLen {
 			return false
 		}
+		starMatch++
+		vIndex, pIndex = starMatch, starIndex
 	}
+}
 
-	// If both value and pattern are exhausted, return true
-	return vIndex == vLen && pIndex == pLen
+// isSegmentEnd reports whether c ends a path segment; a space separates the resource from the action.
+func isSegmentEnd(c byte) bool {
+	return c == '/' || c == ' '
 }
 
 // ToByte converts a string to a byte slice without memory allocation.
-- 
2.43.0


From 9dae71a1a7211ed17b7a3b006d44415d091dea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:51 +0000
Subject: [PATCH 02/30] fix: v2 RemovePrincipalRole dropped unrelated
 assignments and left nil ones behind

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..6957169 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -133,13 +133,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		return true
 	}
 	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
+		updatedRoles[j] = ur
 		j++
-		updatedRoles[i] = ur
 	}
 	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
-- 
2.43.0


From 3a9aa8203dd31e010953195a45df88eb3d2e7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:53 +0000
Subject: [PATCH 03/30] fix: v2 cached role resolution went stale and mixed
 permissions with roles

---
 v2/role.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..92b4b8d 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -79,6 +79,7 @@ func (dag *RoleDAG) AddRole(roles ...*Role) {
 	for _, role := range roles {
 		dag.roles[role.Name] = role
 	}
+	clear(dag.resolved)
 }
 
 func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
@@ -88,6 +89,7 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 		return err
 	}
 	dag.edges[parent] = append(dag.edges[parent], child...)
+	clear(dag.resolved)
 	return nil
 }
 
@@ -117,13 +119,7 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -143,7 +139,6 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
 
-- 
2.43.0


From 29426c3f93900fb4be13b535daea14d19c254e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:55 +0000
Subject: [PATCH 04/30] fix: v2 AddChildRole refused a role reachable over two
 paths as circular

---
 v2/role.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 92b4b8d..0637780 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -94,12 +94,15 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 }
 
 func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) error {
-	visited := map[string]bool{parent: true}
+	visited := make(map[string]bool)
 	var dfs func(string) bool
 	dfs = func(role string) bool {
-		if visited[role] {
+		if role == parent {
 			return true
 		}
+		if visited[role] {
+			return false
+		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
 			if dfs(child) {
-- 
2.43.0


From 70875f2cfa2a17f007855737efb3d7b2409e6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:56 +0000
Subject: [PATCH 05/30] fix: v2 expired assignments still gave access through
 child tenants

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 6957169..d275b43 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -224,7 +224,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -280,7 +280,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From 46ad98268a586b98c04305f05c6cb98f8b02d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:58 +0000
Subject: [PATCH 06/30] fix: v2 SetExpiryDuration ignored durations it could
 not use

---
 v2/v2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index d275b43..b8d6f60 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,10 +43,12 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
+	default:
+		return fmt.Errorf("invalid expiry duration: %v", dur)
 	}
 	expiry := time.Now().Add(duration)
 	pr.Expiry = &expiry
-- 
2.43.0


From 2869f8153e8e1c9e604758e9c00c3e36728b0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:01 +0000
Subject: [PATCH 07/30] fix: v2 decisions read maps they had already returned
 to the pool

---
 v2/v2.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index b8d6f60..1ab0dd9 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"log/slog"
+	"maps"
 	"slices"
 	"sync"
 	"time"
@@ -240,10 +241,10 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		return nil, err
 	}
 	if len(scopedPermissions) > 0 {
-		return scopedPermissions, nil
+		return maps.Clone(scopedPermissions), nil
 	}
 	if len(globalPermissions) > 0 {
-		return globalPermissions, nil
+		return maps.Clone(globalPermissions), nil
 	}
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
@@ -296,7 +297,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 		return nil, err
 	}
 	if len(scopedRoles) > 0 {
-		return scopedRoles, nil
+		return maps.Clone(scopedRoles), nil
 	}
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
-- 
2.43.0


From c736af80a088f3a6d4d78fb38f0d5ed6bb2b4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:25 +0000
Subject: [PATCH 08/30] fix: v2 decisions and administrative operations raced
 on shared state

---
 v2/init.go |  4 ++-
 v2/role.go | 13 +++++++++
 v2/v2.go   | 86 +++++++++++++++++++++++++++++-------------------------
 3 files changed, 62 insertions(+), 41 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..df7f1c0 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,6 +10,8 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
+	a.roleDAG.mu.RLock()
+	defer a.roleDAG.mu.RUnlock()
 	role, ok := a.roleDAG.roles[val]
 	return role, ok
 }
@@ -28,7 +30,7 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.ChildTenants {
+	for _, child := range tenant.children() {
 		a.parentCache[child.ID] = tenant
 	}
 	return tenant
diff --git a/v2/role.go b/v2/role.go
index 0637780..3a1524c 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -58,6 +58,17 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 	}
 }
 
+// children returns the current child tenants
+func (t *Tenant) children() []*Tenant {
+	t.m.RLock()
+	defer t.m.RUnlock()
+	tenants := make([]*Tenant, 0, len(t.ChildTenants))
+	for _, tenant := range t.ChildTenants {
+		tenants = append(tenants, tenant)
+	}
+	return tenants
+}
+
 type RoleDAG struct {
 	mu       sync.RWMutex
 	roles    map[string]*Role
@@ -137,9 +148,11 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		if !exists {
 			continue
 		}
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
+		role.m.RUnlock()
 		queue = append(queue, dag.edges[current]...)
 	}
 	return result
diff --git a/v2/v2.go b/v2/v2.go
index 1ab0dd9..b9a347b 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -99,6 +99,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -115,6 +117,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -178,8 +182,11 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
@@ -228,7 +235,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -284,7 +291,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -356,30 +363,16 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 }
 
 func (a *Authorizer) Can(request Request, roles ...string) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.resolveNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
@@ -399,30 +392,16 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 }
 
 func (a *Authorizer) Authorize(request Request) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.resolveNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
@@ -441,6 +420,33 @@ func (a *Authorizer) Authorize(request Request) bool {
 	return false
 }
 
+// resolveNamespace finds the namespace of the tenant that the request targets
+func (a *Authorizer) resolveNamespace(tenant *Tenant, request Request) (string, bool) {
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
+	namespace := request.Namespace
+	if namespace == "" {
+		if tenant.DefaultNS != "" {
+			namespace = tenant.DefaultNS
+		} else if len(tenant.Namespaces) == 1 {
+			for ns := range tenant.Namespaces {
+				namespace = ns
+				break
+			}
+		} else {
+			return "", false
+		}
+	}
+	ns, exists := tenant.Namespaces[namespace]
+	if !exists {
+		return "", false
+	}
+	if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		return "", false
+	}
+	return namespace, true
+}
+
 func (a *Authorizer) isScopeValidForNamespace(ns *Namespace, scopeName string) bool {
 	_, exists := ns.Scopes[scopeName]
 	return exists
-- 
2.43.0


From 11ff7f684fca9b46bbb167f7e60b8c44960e8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:08 +0000
Subject: [PATCH 09/30] fix: trie rows lacking different fields overwrote each
 other

---
 trie/trie.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..8f21855 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -6,6 +6,9 @@ import (
 
 type DataProps any
 
+// absent is the key of a field that has no value, so that rows lacking different fields stay apart.
+type absent struct{}
+
 type SearchFunc[T DataProps] func(filter *T, row *T) bool
 
 type KeyExtractor[T DataProps] func(data *T) []any
@@ -69,7 +72,7 @@ func (t *Trie[T]) Insert(data *T) {
 
 	for _, key := range keys {
 		if key == nil {
-			continue
+			key = absent{}
 		}
 		child, _ := node.addChild(key)
 		node = child
-- 
2.43.0


From 54e95e1ff62bd9c14ce9da4a6867908b915344f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:32 +0000
Subject: [PATCH 10/30] fix: root decisions used tenants cached before later
 assignments and links

---
 query.go        |  5 -----
 role_manager.go | 11 +----------
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..0c4b459 100644
--- a/query.go
+++ b/query.go
@@ -37,10 +37,6 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-	principalTenant, exists := u.principalCache.Get(principalID)
-	if exists {
-		return principalTenant
-	}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
@@ -57,7 +53,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 			}
 		}
 	}
-	u.principalCache.Set(principalID, existingTenant)
 	return existingTenant
 }
 
diff --git a/role_manager.go b/role_manager.go
index 9c7353d..436627b 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -18,8 +18,6 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
-	hierarchy       maps.IMap[string, []any]
-	principalCache  maps.IMap[string, map[string]struct{}]
 }
 
 func New() *RoleManager {
@@ -32,8 +30,6 @@ func New() *RoleManager {
 		attributes:      maps.NewMap[string, *Attribute](),
 		attributeGroups: maps.NewMap[string, *AttributeGroup](),
 		trie:            trie.New[Data](FilterFunc, DataKeyExtractor),
-		hierarchy:       maps.NewMap[string, []any](),
-		principalCache:  maps.NewMap[string, map[string]struct{}](),
 	}
 }
 
@@ -122,16 +118,11 @@ func (u *RoleManager) TotalScopes() int {
 }
 
 func (u *RoleManager) TenantChildren(t string) []any {
-	if hierarchy, exists := u.hierarchy.Get(t); exists {
-		return hierarchy
-	}
 	tenant, exists := u.GetTenant(t)
 	if !exists {
 		return nil
 	}
-	hierarchy := tenant.GetDescendants()
-	u.hierarchy.Set(t, utils.Compact(hierarchy))
-	return hierarchy
+	return utils.Compact(tenant.GetDescendants())
 }
 
 func (u *RoleManager) TotalTenants() int {
-- 
2.43.0


From 2e5dbcec90735548e4d4a8fa9b345ab3b37e6861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:34 +0000
Subject: [PATCH 11/30] fix: implicit tenants ignored the managing row of a
 tenant listed after another one

---
 query.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/query.go b/query.go
index 0c4b459..1ddae40 100644
--- a/query.go
+++ b/query.go
@@ -41,9 +41,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
 		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
-			continue
-		}
 		existingTenant[tenantID] = struct{}{}
 		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
 			for _, desc := range u.TenantChildren(tenantID) {
-- 
2.43.0


From 26539ddee56cfb7359cffd93b9750d00c7754ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:35 +0000
Subject: [PATCH 12/30] fix: root Authorize ignored an activity given without
 its group and the reverse

---
 authorize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 9b79c4e..1fcfae9 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,7 +22,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
-	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
+	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
 	tsFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope != nil
-- 
2.43.0


From 9f9e66f1ceaa6f1f455dad58d193c19e78de4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:37 +0000
Subject: [PATCH 13/30] fix: root Authorize granted requests for tenants the
 principal has no part in

---
 authorize.go | 10 ++++++----
 query.go     | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/authorize.go b/authorize.go
index 1fcfae9..a8add24 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,6 +22,11 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
+	if svr.tenant != nil {
+		if _, ok := userRoles[svr.tenant.(string)]; !ok {
+			return false
+		}
+	}
 	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
@@ -31,10 +36,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 		return true
 	}
-	for tenant := range userRoles {
-		if svr.tenant == tenant && svr.tenant != nil {
-			continue
-		}
+	for _, tenant := range u.managingTenants(principalID, svr.tenant) {
 		svr.tenant = tenant
 		if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 			return true
diff --git a/query.go b/query.go
index 1ddae40..9f756ae 100644
--- a/query.go
+++ b/query.go
@@ -2,6 +2,7 @@ package permission
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/oarkflow/permission/utils"
 )
@@ -53,6 +54,21 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	return existingTenant
 }
 
+// managingTenants returns the tenants in which the principal manages descendants, the given tenant being one of them.
+func (u *RoleManager) managingTenants(principalID, tenantID any) (tenants []string) {
+	for _, rs := range u.search(Data{Principal: principalID}, filterTenantsByPrincipal) {
+		tenant := rs.Tenant.(string)
+		if canManage, ok := rs.ManageDescendants.(bool); !ok || !canManage || slices.Contains(tenants, tenant) {
+			continue
+		}
+		if utils.Contains(u.TenantChildren(tenant), tenantID) {
+			tenants = append(tenants, tenant)
+		}
+	}
+	slices.Sort(tenants)
+	return tenants
+}
+
 func (u *RoleManager) GetScopesByPrincipal(principalID any) (data []*Data) {
 	results := u.search(Data{Principal: principalID}, filterScopeByPrincipal)
 	return results
-- 
2.43.0


From 493f398a54c5edacc04cc41f5006c1c88d12ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:39 +0000
Subject: [PATCH 14/30] fix: scopes with roles for a tenant came from an
 arbitrary other tenant of the principal

---
 activity_group.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/activity_group.go b/activity_group.go
index 590872b..33bc47f 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -42,10 +42,7 @@ func (u *RoleManager) GetScopesWithRolesForPrincipal(principalID, tenantID, name
 	data := Data{Principal: principalID, Tenant: tenantID, Namespace: namespaceID}
 	tenantPrincipals := u.search(data, filterPrincipalByTenant)
 	if len(tenantPrincipals) == 0 {
-		for tenant := range u.GetImplicitTenants(principalID.(string)) {
-			if tenant == tenantID {
-				continue
-			}
+		for _, tenant := range u.managingTenants(principalID, tenantID) {
 			data.Tenant = tenant
 			tenantPrincipals = u.search(data, filterPrincipalByTenant)
 			if len(tenantPrincipals) > 0 {
-- 
2.43.0


From 81b8254158d63923174046441c285a03eb33256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:10 +0000
Subject: [PATCH 15/30] fix: roles by tenant were never found, so tenant
 requests with an activity were denied

---
 authorize.go | 12 +++++++-----
 filters.go   |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/authorize.go b/authorize.go
index a8add24..dc323be 100644
--- a/authorize.go
+++ b/authorize.go
@@ -135,7 +135,9 @@ func (u *RoleManager) collectRoles(principalID string, tenant any) (roles, allow
 			if d.Principal == principalID {
 				roles = append(roles, d.Role.(string))
 			}
-			allowedRoles = append(allowedRoles, d.Role.(string))
+			if d.Principal == nil || d.Principal == principalID {
+				allowedRoles = append(allowedRoles, d.Role.(string))
+			}
 		}
 	}
 	return
@@ -143,7 +145,7 @@ func (u *RoleManager) collectRoles(principalID string, tenant any) (roles, allow
 
 func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenant, namespace any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
+		if d.Role != nil && (d.Principal == nil || d.Principal == principalID) {
 			allowedRoles = append(allowedRoles, d.Role.(string))
 		}
 	}
@@ -159,7 +161,7 @@ func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenan
 
 func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
+		if d.Role != nil && (d.Principal == nil || d.Principal == principalID) {
 			allowedRoles = append(allowedRoles, d.Role.(string))
 		}
 	}
@@ -176,7 +178,7 @@ func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, s
 func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namespace, scope any) (roles, allowedRoles []string) {
 	for _, t := range u.GetTenants(principalID) {
 		for _, d := range u.GetRolesByTenant(t.Tenant) {
-			if d.Role != nil {
+			if d.Role != nil && (d.Principal == nil || d.Principal == principalID) {
 				allowedRoles = append(allowedRoles, d.Role.(string))
 			}
 		}
@@ -193,7 +195,7 @@ func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namesp
 
 func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string, tenant, namespace, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
+		if d.Role != nil && (d.Principal == nil || d.Principal == principalID) {
 			allowedRoles = append(allowedRoles, d.Role.(string))
 		}
 	}
diff --git a/filters.go b/filters.go
index 3b79b4d..2809bb1 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From e8503056e7989ebd196798a4fb05c606777c28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:12 +0000
Subject: [PATCH 16/30] fix: role queries included rows of other principals,
 tenants and namespaces

---
 filters.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/filters.go b/filters.go
index 2809bb1..c50973d 100644
--- a/filters.go
+++ b/filters.go
@@ -108,24 +108,25 @@ func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bo
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 56d6b01651d373fb52b799e2fed6de5bbdbbe15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:14 +0000
Subject: [PATCH 17/30] fix: a scope assigned in one namespace counted in every
 namespace of the tenant

---
 filters.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filters.go b/filters.go
index c50973d..06bc1c1 100644
--- a/filters.go
+++ b/filters.go
@@ -99,9 +99,9 @@ func filterScopeForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Scope) {
 		return false
 	}
-	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) && utils.IsNil(row.Principal) ||
-		MatchNamespace(row, filter) && utils.IsNil(row.Principal) ||
-		MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Principal) || MatchPrincipal(row, filter))
 }
 
 func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bool {
-- 
2.43.0


From 380dc2a01d51a83a56717e5a0d633804d14511fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:17 +0000
Subject: [PATCH 18/30] fix: requests without a tenant combined a role of one
 tenant with descendants allowed in another

---
 authorize.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/authorize.go b/authorize.go
index dc323be..e663df5 100644
--- a/authorize.go
+++ b/authorize.go
@@ -111,16 +111,22 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 		roles, allowedRoles = u.collectRolesByTenantAndScope(principalID, svr.tenant, svr.scope)
 	}
 	if nsFlagProvided {
-		roles, allowedRoles = u.collectRolesByNamespaceAndScope(principalID, svr.namespace, svr.scope)
+		for _, tenant := range u.GetTenantsByPrincipal(principalID) {
+			roles, allowedRoles = u.collectRolesByTenantNamespaceAndScope(principalID, tenant, svr.namespace, svr.scope)
+			if u.anyRoleHas(roles, allowedRoles, svr) {
+				return true
+			}
+		}
+		return false
 	}
 	if tnsFlagProvided {
 		roles, allowedRoles = u.collectRolesByTenantNamespaceAndScope(principalID, svr.tenant, svr.namespace, svr.scope)
 	}
 
-	if len(roles) == 0 {
-		return false
-	}
+	return u.anyRoleHas(roles, allowedRoles, svr)
+}
 
+func (u *RoleManager) anyRoleHas(roles, allowedRoles []string, svr *Option) bool {
 	for _, role := range slices.Compact(roles) {
 		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), slices.Compact(allowedRoles)...) {
 			return true
@@ -175,24 +181,6 @@ func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, s
 	return
 }
 
-func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namespace, scope any) (roles, allowedRoles []string) {
-	for _, t := range u.GetTenants(principalID) {
-		for _, d := range u.GetRolesByTenant(t.Tenant) {
-			if d.Role != nil && (d.Principal == nil || d.Principal == principalID) {
-				allowedRoles = append(allowedRoles, d.Role.(string))
-			}
-		}
-		for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, t.Tenant, namespace, scope) {
-			if d.Role != nil {
-				if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
-					roles = append(roles, d.Role.(string))
-				}
-			}
-		}
-	}
-	return
-}
-
 func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string, tenant, namespace, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
 		if d.Role != nil && (d.Principal == nil || d.Principal == principalID) {
-- 
2.43.0


From ff034b6e2f939b505262c68bca05f810cb399480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 19/30] fix: a role without permissions of its own in a group
 did not inherit those of its descendants

---
 role.go    | 29 ++++++++++++++---------------
 v1/role.go | 29 ++++++++++++++---------------
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/role.go b/role.go
index 7f3f8f2..b55400c 100644
--- a/role.go
+++ b/role.go
@@ -56,22 +56,21 @@ func (r *Role) Unlock() {
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
-	if !ok || resourceGroupPermissions == nil {
-		return false
-	}
-	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
-		return true
-	}
-	matched := false
-	resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
-		if utils.MatchResource(permissionName, perm) {
-			matched = true
-			return false
+	if ok && resourceGroupPermissions != nil {
+		if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
+			return true
+		}
+		matched := false
+		resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
+			if utils.MatchResource(permissionName, perm) {
+				matched = true
+				return false
+			}
+			return true
+		})
+		if matched {
+			return true
 		}
-		return true
-	})
-	if matched {
-		return true
 	}
 	totalD := len(allowedDescendants)
 	// Check inherited permissions recursively
diff --git a/v1/role.go b/v1/role.go
index b4ab22a..b92178e 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -55,22 +55,21 @@ func (r *Role) Unlock() {
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
-	if !ok || resourceGroupPermissions == nil {
-		return false
-	}
-	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
-		return true
-	}
-	matched := false
-	resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
-		if utils.MatchResource(permissionName, perm) {
-			matched = true
-			return false
+	if ok && resourceGroupPermissions != nil {
+		if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
+			return true
+		}
+		matched := false
+		resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
+			if utils.MatchResource(permissionName, perm) {
+				matched = true
+				return false
+			}
+			return true
+		})
+		if matched {
+			return true
 		}
-		return true
-	})
-	if matched {
-		return true
 	}
 	totalD := len(allowedDescendants)
 	// Check inherited permissions recursively
-- 
2.43.0


From 85762657377746727c27b8fd6d75a6ae92cfb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:07 +0000
Subject: [PATCH 20/30] fix: a cycle of descendants made role and tenant
 queries recurse forever

---
 role.go      | 5 +++++
 tenant.go    | 7 +++++++
 v1/role.go   | 5 +++++
 v1/tenant.go | 8 ++++++++
 4 files changed, 25 insertions(+)

diff --git a/role.go b/role.go
index b55400c..b1ac890 100644
--- a/role.go
+++ b/role.go
@@ -105,6 +105,11 @@ func (r *Role) AddDescendant(descendants ...*Role) error {
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
+	for _, descendant := range descendants {
+		if descendant.id == r.id || slices.ContainsFunc(descendant.GetDescendantRoles(), func(d *Role) bool { return d.id == r.id }) {
+			return errors.New("role can not be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := r.descendants.Get(descendant.id); !ok {
 			r.descendants.Set(descendant.id, descendant)
diff --git a/tenant.go b/tenant.go
index 6ff7ad6..26cc34a 100644
--- a/tenant.go
+++ b/tenant.go
@@ -4,6 +4,8 @@ import (
 	"errors"
 
 	maps "github.com/oarkflow/xsync"
+
+	"github.com/oarkflow/permission/utils"
 )
 
 func WithTenant(tenant any) func(*Option) {
@@ -38,6 +40,11 @@ func (c *Tenant) GetDescendants() (data []any) {
 }
 
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
+	for _, descendant := range descendants {
+		if descendant.id == c.id || utils.Contains(descendant.GetDescendants(), c.id) {
+			return errors.New("tenant can not be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
diff --git a/v1/role.go b/v1/role.go
index b92178e..57bb24d 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -104,6 +104,11 @@ func (r *Role) AddDescendent(descendants ...*Role) error {
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
+	for _, descendant := range descendants {
+		if descendant.id == r.id || slices.ContainsFunc(descendant.GetDescendantRoles(), func(d *Role) bool { return d.id == r.id }) {
+			return errors.New("role can not be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := r.descendants.Get(descendant.id); !ok {
 			r.descendants.Set(descendant.id, descendant)
diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..1fa4a39 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -1,6 +1,9 @@
 package v1
 
 import (
+	"errors"
+	"slices"
+
 	"github.com/oarkflow/maps"
 )
 
@@ -30,6 +33,11 @@ func (c *Tenant) GetDescendantTenants() []*Tenant {
 
 // AddDescendent adds a new permission to the role
 func (c *Tenant) AddDescendent(descendants ...*Tenant) error {
+	for _, descendant := range descendants {
+		if descendant.id == c.id || slices.ContainsFunc(descendant.GetDescendantTenants(), func(d *Tenant) bool { return d.id == c.id }) {
+			return errors.New("tenant can not be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
-- 
2.43.0


From 155ff492b8d57326c0c6a9e355f9681534be5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 21/30] fix: adding a permission to a role gave it to every
 role sharing the attribute group

---
 role.go    | 13 +++++++------
 v1/role.go | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/role.go b/role.go
index b1ac890..f4036f9 100644
--- a/role.go
+++ b/role.go
@@ -123,12 +123,13 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
-	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
-	if !exists || resourceGroupAttributes == nil {
-		resourceGroupAttributes = &AttributeGroup{
-			id:          resourceGroup,
-			permissions: maps.NewMap[string, *Attribute](),
-		}
+	// The group may be shared with other roles, so add to a copy
+	resourceGroupAttributes := NewAttributeGroup(resourceGroup)
+	if existing, exists := r.permissions.Get(resourceGroup); exists && existing != nil {
+		existing.permissions.ForEach(func(name string, attr *Attribute) bool {
+			resourceGroupAttributes.permissions.Set(name, attr)
+			return true
+		})
 	}
 	perm := resourceGroupAttributes.permissions
 	for _, permission := range permissions {
diff --git a/v1/role.go b/v1/role.go
index 57bb24d..6a9c62d 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -122,12 +122,13 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
-	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
-	if !exists || resourceGroupAttributes == nil {
-		resourceGroupAttributes = &AttributeGroup{
-			id:          resourceGroup,
-			permissions: maps.New[string, *Attribute](),
-		}
+	// The group may be shared with other roles, so add to a copy
+	resourceGroupAttributes := NewAttributeGroup(resourceGroup)
+	if existing, exists := r.permissions.Get(resourceGroup); exists && existing != nil {
+		existing.permissions.ForEach(func(name string, attr *Attribute) bool {
+			resourceGroupAttributes.permissions.Set(name, attr)
+			return true
+		})
 	}
 	perm := resourceGroupAttributes.permissions
 	for _, permission := range permissions {
-- 
2.43.0


From 71bd3326715639f6226174cffbf17f3587bf75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:39 +0000
Subject: [PATCH 22/30] fix: v1 assignments of identifiers containing an
 underscore were read back as other identifiers

---
 v1/role_manager.go | 54 ++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..99ee4f0 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"strings"
 
 	"github.com/oarkflow/maps"
 
@@ -38,7 +37,7 @@ type RoleManager struct {
 	roles            maps.IMap[string, *Role]
 	attributes       maps.IMap[string, *Attribute]
 	attributeGroups  maps.IMap[string, *AttributeGroup]
-	tenantPrincipals map[string]struct{}
+	tenantPrincipals map[TenantPrincipal]struct{}
 }
 
 func New() *RoleManager {
@@ -50,7 +49,7 @@ func New() *RoleManager {
 		roles:            maps.New[string, *Role](),
 		attributes:       maps.New[string, *Attribute](),
 		attributeGroups:  maps.New[string, *AttributeGroup](),
-		tenantPrincipals: make(map[string]struct{}),
+		tenantPrincipals: make(map[TenantPrincipal]struct{}),
 	}
 }
 
@@ -271,36 +270,26 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
-func getTenantPrincipals(hash string) TenantPrincipal {
-	parts := strings.Split(hash, "_")
-	m := false
-	if parts[5] == "true" {
-		m = true
-	}
-	return TenantPrincipal{
-		TenantID:             parts[2],
-		PrincipalID:          parts[0],
-		RoleID:               parts[1],
-		NamespaceID:          parts[3],
-		ScopeID:              parts[4],
-		CanManageDescendants: m,
-	}
-}
-
 func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant *Tenant, namespace *Namespace, scope *Scope, canManageDescendants ...bool) {
 	manageDescendants := true
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
+	h := TenantPrincipal{
+		TenantID:             tenant.ID(),
+		PrincipalID:          principalID,
+		RoleID:               roleID,
+		NamespaceID:          getNamespaceID(namespace),
+		ScopeID:              getScopeID(scope),
+		CanManageDescendants: manageDescendants,
+	}
 	if _, exists := u.tenantPrincipals[h]; !exists {
 		u.tenantPrincipals[h] = struct{}{}
 	}
 }
 
 func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []string, err error) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID {
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
@@ -315,8 +304,7 @@ type PrincipalPermissions struct {
 }
 
 func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -325,8 +313,7 @@ func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []Tena
 }
 
 func (u *RoleManager) GetTenantRoles(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -339,8 +326,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 	if tenant, ok := u.tenants.Get(tenantID); ok {
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
-				for tenantPrincipal := range u.tenantPrincipals {
-					unmarshalled := getTenantPrincipals(tenantPrincipal)
+				for unmarshalled := range u.tenantPrincipals {
 					if unmarshalled.TenantID == id {
 						data = append(data, unmarshalled)
 					}
@@ -353,8 +339,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 }
 
 func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (data []PrincipalPermissions) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			if unmarshalled.RoleID != "" {
 				if r, ok := u.roles.Get(unmarshalled.RoleID); ok {
@@ -371,8 +356,7 @@ func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (da
 }
 
 func (u *RoleManager) GetPrincipalRolesByTenant(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -411,8 +395,7 @@ func (u *RoleManager) GetScopesForPrincipal(principalID string) ([]string, error
 		return nil, errors.New("no principal available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
@@ -430,8 +413,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 		return nil, errors.New("no tenant available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" && unmarshalled.TenantID == tenantID {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
-- 
2.43.0


From 5427b2cb8e5269d5f0ad403d7044b493a03b79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:40 +0000
Subject: [PATCH 23/30] fix: v1 granted every principal access to every tenant

---
 v1/role_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 99ee4f0..d968af7 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -509,7 +509,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -602,9 +602,9 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
 	_, exists := u.GetTenant(tenantID)
-	return exists
+	return exists && len(u.GetPrincipalRoles(tenantID, principalID)) > 0
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From 4698d81c53c7229c50d6eb3abe10c3b082a58a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 24/30] fix: v1 granted a namespace and scope because another
 principal had been assigned to them

---
 v1/role_manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index d968af7..f56dffd 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -593,9 +593,13 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if len(userRoles) == 0 {
+		return false
+	}
+	// Scopes attached to the namespace are open to every principal of the tenant
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
-- 
2.43.0


From 1bcac25c419c8728e1cac3d7e4a035dc4bea05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:44 +0000
Subject: [PATCH 25/30] fix: v1 used roles bound to another namespace or scope

---
 v1/role_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index f56dffd..89e9a42 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -700,6 +700,9 @@ func (u *RoleManager) authorizeComplex(svr *Option, principalID string) bool {
 	}
 	roles := make(map[string]*Role)
 	for _, r := range principalRoles {
+		if namespace != "" && r.NamespaceID != "" && r.NamespaceID != namespace || scope != "" && r.ScopeID != "" && r.ScopeID != scope {
+			continue
+		}
 		if role, ex := u.roles.Get(r.RoleID); ex {
 			roles[r.RoleID] = role
 		}
-- 
2.43.0


From 290eba63a1981c5a49095aced75bd19e31f15ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:45 +0000
Subject: [PATCH 26/30] fix: v1 allowed roles were read from a slice already
 returned to the pool

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 89e9a42..9e98804 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -496,7 +496,7 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From 6b4b2605e794b89e64548b95a8f54252cd782558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:46 +0000
Subject: [PATCH 27/30] fix: v1 crashed on an activity of a principal assigned
 in an unregistered tenant

---
 v1/role_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 9e98804..896539f 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -441,7 +441,10 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 		principalRoleSlice.Put(principalNamespaceScopeRole)
 	}()
 	tenantID := principalRoles[0].TenantID
-	tenant, _ := u.tenants.Get(tenantID)
+	tenant, exists := u.tenants.Get(tenantID)
+	if !exists {
+		return nil
+	}
 	mod, modExists := tenant.namespaces.Get(namespace)
 	_, entExists := tenant.scopes.Get(scope)
 	if (scope != "" && !entExists) || (namespace != "" && !modExists) {
-- 
2.43.0


From 2c2a56f046e0e1f769b479be5555972a3762090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:48 +0000
Subject: [PATCH 28/30] fix: v1 listed other principals' assignments as
 implicit roles and tenants twice

---
 v1/role_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 896539f..bf938c2 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -294,6 +294,7 @@ func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []stri
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
 	}
+	slices.Sort(tenants)
 	tenants = slices.Compact(tenants)
 	return
 }
@@ -327,7 +328,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
 				for unmarshalled := range u.tenantPrincipals {
-					if unmarshalled.TenantID == id {
+					if unmarshalled.TenantID == id && unmarshalled.PrincipalID == principalID {
 						data = append(data, unmarshalled)
 					}
 				}
-- 
2.43.0


From 384f69ef4d4435cddd35a61c30a4afe2f372d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:07 +0000
Subject: [PATCH 29/30] fix: set operations took different items for equal and
 equal maps for different ones

---
 utils/str.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index 36eb1ba..28da83f 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -158,22 +158,24 @@ func Union[T any](a, b []T) []T {
 func Serialize[T any](item T) string {
 	v := reflect.ValueOf(item)
 	if v.Kind() == reflect.Map {
-		keys := v.MapKeys()
-		sort.Slice(keys, func(i, j int) bool {
-			return keys[i].String() < keys[j].String()
-		})
-		var builder strings.Builder
-		for _, k := range keys {
-			builder.WriteString(fmt.Sprintf("%s:%v|", k, v.MapIndex(k)))
+		entries := make([]string, 0, v.Len())
+		for _, k := range v.MapKeys() {
+			entries = append(entries, serializeValue(k.Interface())+":"+serializeValue(v.MapIndex(k).Interface())+"|")
 		}
-		return builder.String()
+		sort.Strings(entries)
+		return strings.Join(entries, "")
 	}
 
 	var builder strings.Builder
 	t := v.Type()
 	for i := 0; i < v.NumField(); i++ {
-		builder.WriteString(fmt.Sprintf("%s:%v|", t.Field(i).Name, v.Field(i).Interface()))
+		builder.WriteString(t.Field(i).Name + ":" + serializeValue(v.Field(i).Interface()) + "|")
 	}
 
 	return builder.String()
 }
+
+// serializeValue renders a value so that values which differ are rendered differently.
+func serializeValue(value any) string {
+	return fmt.Sprintf("%T:%#v", value, value)
+}
-- 
2.43.0


From f0caedc14e844144632eaa9f754366097cd47c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:40 +0000
Subject: [PATCH 30/30] fix: descendant tenants reachable over two paths were
 listed twice

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 9f756ae..c704138 100644
--- a/query.go
+++ b/query.go
@@ -34,7 +34,7 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 	if !ok {
 		return nil
 	}
-	return tenant.GetDescendants()
+	return utils.Compact(tenant.GetDescendants())
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-- 
2.43.0


#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "v2 grants a request exactly when a live assignment confers it",
 "The v2 authorizer grants a request if and only if, in a tenant the request targets (the named one, else the default tenant, else any active tenant in which the principal holds an assignment), the namespace resolves and exists, a named scope belongs to that namespace, and an unexpired assignment of that principal in that tenant (or, when the principal manages child tenants there, in its descendant tenants) that covers the namespace and scope holds a role whose own or inherited permissions match the resource and action. "
 "Permissions held in the requested scope take precedence over tenant-wide ones, and a request with neither resource nor action, or for an unknown tenant, is denied.",
 ["inputs", "configurations"], "every configuration of tenants, namespaces, scopes, roles and assignments and every request, within the stated sizes, with arbitrary identifiers, and every map iteration order explored",
 "The tests build one tenant, one role and one assignment and try seven fixed requests; the guarantee ranges over all configurations and all requests.",
 ["v2/v2.go", "v2/role.go", "v2/entities.go", "v2/init.go"],
 [("target tenant selection", "v2/v2.go findTargetTenants, findPrincipalTenants"), ("namespace and scope resolution", "v2/v2.go Authorize"), ("collecting permissions of applicable assignments", "v2/v2.go resolvePrincipalPermissions")],
 [("userRoles", "the assignments", "v2/v2.go Authorizer"), ("tenants", "registered tenants", "v2/v2.go Authorizer")], ["Authorizer.Authorize return value"])

prop("C02", "Other principals and other tenants never influence a decision",
 "In each of the three implementations (root package, v1, v2), adding any assignment that belongs to a different principal leaves every decision about this principal unchanged. "
 "A request that names a tenant is never granted unless the principal itself holds an assignment in that tenant or manages an ancestor of it, and an assignment bound to one tenant never confers anything in an unrelated tenant.",
 ["inputs", "configurations", "histories"], "every base configuration, every added assignment of another principal or another tenant, every request, within the stated sizes",
 "Isolation is a relation between two runs over all configurations; the existing tests contain a single principal and a single tenant.",
 ["authorize.go", "filters.go", "query.go", "v1/role_manager.go", "v2/v2.go"],
 [("row filters", "filters.go"), ("managed-tenant fallback", "authorize.go Authorize"), ("per principal and tenant lookup", "v1/role_manager.go GetPrincipalRoles"), ("assignment match", "v2/v2.go resolvePrincipalPermissions")],
 None, ["Authorize return values"])

prop("C03", "v2 role hierarchy stays acyclic and confers exactly its closure",
 "Linking child roles in v2 is refused with an error exactly when the link would close a cycle (a role reaching itself), a refused link changes nothing, and an accepted one takes effect. "
 "A role confers exactly the permissions of itself and of every registered role reachable from it, whatever the order in which roles and links were added and however many paths lead to a role.",
 ["inputs", "histories"], "every sequence of role registrations, permission additions and child-role links over arbitrary role names, within the stated sizes",
 "The test named for circular roles builds an empty authorizer; no test links two roles. Graph shapes (diamonds, repeated and self links) are unbounded.",
 ["v2/role.go", "v2/init.go"],
 [("cycle check before linking", "v2/role.go checkCircularDependency"), ("closure computation", "v2/role.go ResolvePermissions, ResolveChildRoles")],
 [("edges", "parent to child links", "v2/role.go RoleDAG")], ["AddChildRole error", "Authorize return value", "Can return value"])

prop("C04", "v2 changes and revocations take effect at the next decision",
 "A v2 decision depends only on the current configuration, never on which decisions were made before: after any history of grants, revocations, role-permission additions and removals, links and earlier decisions of either kind, the answer equals that of a fresh authorizer built directly in the final configuration. "
 "In particular a permission removed from a role is no longer granted, and one added is granted at once.",
 ["histories", "inputs"], "every interleaving of a bounded number of administrative operations and decisions, on arbitrary identifiers, including every object a pool may hand out again",
 "Tests make one decision per authorizer; stale caches and reused scratch objects only show after particular histories.",
 ["v2/v2.go", "v2/role.go", "v2/init.go", "utils/pool.go"],
 [("resolution cache", "v2/role.go RoleDAG.resolved"), ("scratch map pools", "v2/v2.go scopedPermissionsPool, globalPermissionsPool, checkedTenantsPool")],
 [("resolved", "memoised role closure", "v2/role.go RoleDAG")], ["Authorize and Can return values"])

prop("C05", "v2 assignment removal removes exactly the matching assignments",
 "Removing v2 assignments by a pattern (each non-empty field must match) removes every matching assignment and no other: the removed ones confer nothing afterwards, all the others keep conferring what they did, and no later operation crashes. "
 "An error is returned if and only if nothing matched, and then nothing changes.",
 ["inputs", "histories"], "every list of assignments and every removal pattern, applied one or more times, within the stated sizes",
 "Removal is not tested at all; which positions survive depends on the pattern of matches.",
 ["v2/v2.go"], [("filtering the assignment list and the index", "v2/v2.go RemovePrincipalRole")],
 [("userRoles", "the assignments", "v2/v2.go Authorizer")], ["RemovePrincipalRole error", "Authorize and Can return values"])

prop("C06", "An expired v2 assignment confers nothing",
 "At any instant an assignment whose expiry has passed has no effect on any decision, exactly as if it had been removed, including the right to act through child tenants; an assignment without expiry, or whose expiry has not passed, has its full effect. "
 "Setting an absolute expiry in the past is refused, an unparsable duration is reported as an error and leaves the assignment as it was, and clearing the expiry restores the assignment.",
 ["inputs", "histories", "schedules"], "every expiry instant, every sequence of clock advances and expiry operations, every configuration within the stated sizes",
 "No test sets an expiry; the outcome depends on the clock at each decision.",
 ["v2/v2.go"], [("expiry test", "v2/v2.go IsExpired"), ("skipping expired assignments", "v2/v2.go resolvePrincipalPermissions, resolvePrincipalRoles")],
 [("Expiry", "instant after which the assignment is void", "v2/v2.go PrincipalRole")], ["IsExpired, SetExpiry, SetExpiryDuration results", "Authorize and Can return values"])

prop("C07", "Concurrent decisions and updates do not interfere",
 "Two decisions made concurrently on one authorizer (root package, v1 or v2) never share unprotected mutable state, so each returns what it would return alone. "
 "In v2 any two operations on the authorizer, its roles or its tenants (decisions, role checks, lookups and administrative changes) may run concurrently without a data race or deadlock and leave the result of one after the other (both take effect, no role cycle is closed), and a decision is not disturbed by a change that does not concern it.",
 ["schedules", "inputs"], "every pair of operations from the stated set, on every configuration and argument within the stated sizes, under every schedule within the stated number of preemptions, and under every reordering of it that locks, pools and reads permit",
 "The tests are single-threaded and races depend on the schedule.",
 ["v2/v2.go", "v2/role.go", "v2/init.go", "utils/pool.go", "v1/role_manager.go", "v1/util.go", "query.go"],
 [("mutexes", "v2/v2.go Authorizer.m, v2/role.go RoleDAG.mu, v2/entities.go Role.m, Tenant.m"), ("object pools", "utils/pool.go")],
 None, ["decisions under concurrency", "race detector"])

prop("C08", "v2 role check holds exactly for roles held or inherited",
 "The v2 role check answers true if and only if, in a tenant the request targets whose namespace (and scope, if named) resolves, some unexpired assignment of that principal covering the namespace (there, or in descendant tenants the principal manages) carries one of the asked roles or a role that inherits it. "
 "Its answer is independent of any permission and of earlier permission decisions.",
 ["inputs", "configurations", "histories"], "every configuration, role hierarchy, request and asked role set within the stated sizes",
 "No test calls the role check.",
 ["v2/v2.go", "v2/role.go"], [("role collection", "v2/v2.go resolvePrincipalRoles"), ("closure", "v2/role.go ResolveChildRoles")],
 None, ["Authorizer.Can return value"])

prop("C09", "Every v2 decision leaves an audit record that agrees with it",
 "With an audit logger configured, every v2 permission decision and role check emits, as its last record, one whose message says granted exactly when the answer is true and failed when it is false, carrying the principal, tenant, namespace, scope, resource and action of the request that were given and nothing from another request. "
 "Whether a logger is configured never changes the answer.",
 ["inputs", "configurations"], "every configuration and request within the stated sizes",
 "No test configures a logger.",
 ["v2/v2.go"], [("audit logging", "v2/v2.go Log, Authorize, Can")], None, ["records received by the log handler"])

prop("C10", "The trie returns exactly the stored rows that satisfy the predicate",
 "After any sequence of insertions, a search returns every inserted row that satisfies the predicate exactly once and nothing else; rows are distinct when any of their key fields differs, including which field is absent, and inserting an equal row again replaces it. "
 "A first-match search returns one such row if any exists and nothing otherwise.",
 ["inputs", "histories"], "every sequence of insertions of rows with arbitrary, possibly absent, key fields and every filter, within the stated sizes, every child iteration order",
 "The only trie test is a benchmark; loss of rows depends on equal identifiers in different fields and on result counts.",
 ["trie/trie.go", "filters.go", "role_manager.go"], [("key path", "trie/trie.go Insert"), ("search", "trie/trie.go search"), ("row keys", "filters.go DataKeyExtractor"), ("row match", "filters.go FilterFunc")],
 [("child", "children by key", "trie/trie.go Node")], ["Search, SearchFunc, First, FirstFunc, Data results"])

prop("C11", "The root authorizer grants exactly what its tenant data confer",
 "The root package's authorizer grants a request only if the principal and every named tenant, namespace and scope are registered. Without an activity it grants if and only if the principal takes part in the named tenant (has a row there or manages an ancestor's descendants) and that tenant, or such an ancestor, has data rows of that principal (or of no particular principal) for the named namespace and scope, a scope row counting only for its own namespace. "
 "With an activity it grants if and only if a role the principal holds there, not bound to another namespace or scope, permits it, itself or through a descendant role that has data in that tenant. A request naming no tenant must name both namespace and scope and is decided in the tenants the principal belongs to; one giving only one of attribute group and activity is denied. The tenant's methods add exactly the data they name: an assignment is repeated in the tenant's default namespace, which a linked tenant takes over, and naming an unknown principal, role or scope is refused.",
 ["inputs", "configurations"], "every configuration of tenants, hierarchy, namespaces, scopes, roles and assignments and every combination of request options, within the stated sizes",
 "The root package has no tests, only a benchmark.",
 ["authorize.go", "query.go", "filters.go", "tenant.go", "role.go"],
 [("membership and resource checks", "authorize.go checkNoActivity, validateResources"), ("role collection", "authorize.go collectRoles*"), ("row filters", "filters.go")],
 [("trie", "rows of tenant data", "role_manager.go RoleManager")], ["RoleManager.Authorize return value"])

prop("C12", "Root decisions depend only on current data, not on history or map order",
 "A root-package decision depends only on the current data: it is the same whatever decisions or queries were made before, whatever the order in which the same data was added, and whatever order internal maps iterate in, so repeating it gives the same answer. "
 "Assignments and tenant links added after a decision are honoured by the next one.",
 ["histories", "schedules", "inputs"], "every interleaving of a bounded number of additions and decisions, every insertion order and every map iteration order, within the stated sizes",
 "Tests run each decision once on a fixed history; map order is random per run.",
 ["query.go", "authorize.go", "role_manager.go", "tenant.go"],
 [("per-principal tenant cache", "query.go GetImplicitTenants"), ("tenant hierarchy cache", "role_manager.go TenantChildren")],
 [("principalCache", "tenants reachable per principal", "role_manager.go"), ("hierarchy", "descendants per tenant", "role_manager.go")], ["RoleManager.Authorize return value"])

prop("C13", "A role permits exactly its own and inherited permissions; locks hold",
 "In the root package and v1, a role permits an activity in a group if and only if the role itself, or a descendant role (among the allowed ones when a restriction is given), has in that group a permission equal to or matching the activity; this agrees with the listing of its implicit permissions. "
 "While a role is locked every operation on it that would change its permissions or descendants reports an error and changes nothing; adding a permission to one role never gives it to a role that is not its ancestor; a link that would make a role or tenant its own descendant is not made, so every query terminates. "
 "Attaching permissions to a role through the manager either adds all of them or, when the role or group is unknown or an attribute is outside the group, reports an error and adds none.",
 ["inputs", "histories"], "every role hierarchy, permission set, lock/unlock and update sequence, query and restriction, within the stated sizes, every iteration order",
 "v1 tests check one role with one permission; the root package none. Hierarchies and update sequences are unbounded.",
 ["role.go", "permission.go", "tenant.go", "v1/role.go", "v1/role_manager.go", "v1/tenant.go"],
 [("permission lookup", "role.go Has, v1/role.go Has"), ("lock", "role.go AddPermission, AddDescendant, AddPermissionResourceGroup"), ("group membership check", "role.go AddPermissionsToRole")],
 None, ["Role.Has, GetAllImplicitPermissions, GetPermissions, AddPermission, AddDescendant results"])

prop("C14", "Root queries list exactly the matching tenant data",
 "Each query of the root package (tenants, namespaces, scopes and roles by tenant, by principal or by both; implicit tenants; filtered search of the data) returns exactly the rows or identifiers of the current data that satisfy the question asked - none missing, none of another tenant or principal - and identifier lists contain no duplicates; scopes with roles lists, for a principal of the asked tenant, exactly the scopes of the asked namespace (all the tenant's when that has none) with the roles it holds in the tenant, and the scopes it holds a role in with those roles. "
 "The implicit tenants of a principal are exactly those it has a row in plus all descendants of those it manages.",
 ["inputs", "configurations"], "every set of rows and hierarchy and every query argument within the stated sizes",
 "No test calls a query of the root package.",
 ["query.go", "filters.go", "activity_group.go", "role_manager.go", "permission.go"],
 [("filters", "filters.go"), ("identifier extraction", "role_manager.go GetTenantIDs..GetScopeIDs"), ("join", "activity_group.go GetScopesWithRolesForPrincipal, utils/filters.go JoinSlices")],
 None, ["query results"])

prop("C15", "Registries keep the first object per identifier and count distinct ones",
 "In the root package and v1, adding a tenant, namespace, scope, principal, role, attribute or attribute group whose identifier is already registered returns the one registered first and changes nothing; otherwise it is registered and returned. "
 "Lookups find exactly what was registered, listings contain each identifier once, and totals and summaries equal the number of distinct identifiers of each kind.",
 ["histories", "inputs"], "every sequence of additions with arbitrary, possibly repeated, identifiers within the stated sizes",
 "The tests add one object of each kind once.",
 ["permission.go", "tenant.go", "namespace.go", "scope.go", "principal.go", "activity.go", "activity_group.go", "role_manager.go", "v1/role_manager.go"],
 [("get-or-add", "Add* methods"), ("listing", "Tenants, Namespaces, Scopes, Principals, Roles, Attributes"), ("totals", "Total*, Summary")],
 None, ["Add*, Get*, listing, Total*, Summary results"])

prop("C16", "v1 grants exactly what the principal's own assignments confer",
 "The v1 authorizer grants a request without an activity if and only if the principal is registered and itself holds an assignment in the named tenant (for requests naming no tenant: in some tenant) that names every requested namespace and scope, or the requested scope is attached to the requested namespace in a tenant the principal is assigned to; a request naming only a namespace needs any assignment in a tenant containing it. "
 "With an activity and a tenant it grants only if a role the principal holds in that tenant, not bound to a different namespace or scope, permits it itself or through a descendant, and it does grant an activity that such a role itself permits whenever the named namespace and scope exist in the tenant; an activity asked alone is granted only through a role held tenant-wide in some tenant, and is when such a role itself permits it and the roles so held there are all roles of the tenant.",
 ["inputs", "configurations"], "every configuration of tenants, namespaces, scopes, roles and assignments and every combination of request options within the stated sizes",
 "The tests ask one request that the principal should get and print another.",
 ["v1/role_manager.go", "v1/tenant.go", "v1/role.go"],
 [("dispatch on given options", "v1/role_manager.go Authorize"), ("membership checks", "v1/role_manager.go authorizeFor*"), ("activity check", "v1/role_manager.go authorizeComplex, GetAllowedRoles")],
 [("tenantPrincipals", "the assignments", "v1/role_manager.go RoleManager")], ["v1 RoleManager.Authorize return value"])

prop("C17", "v1 assignments keep their fields for every identifier",
 "A v1 assignment of a principal to a role, tenant, namespace and scope is reported back with exactly those five identifiers, whatever characters they contain, and two assignments that differ in any field stay distinct. "
 "The per-principal and per-tenant queries list exactly the assignments made, implicit roles are all the principal's own, and no identifier spelling lets one principal, role or tenant be taken for another.",
 ["inputs", "histories"], "every identifier string up to the stated length, any bytes, every sequence of assignments within the stated size",
 "The tests use four fixed alphanumeric identifiers.",
 ["v1/role_manager.go", "v1/tenant.go"],
 [("assignment storage", "v1/role_manager.go AddPrincipalRole"), ("queries", "v1/role_manager.go GetPrincipalRoles, GetTenantRoles, GetTenantsForPrincipal, GetScopesForPrincipal")],
 [("tenantPrincipals", "the assignments", "v1/role_manager.go")], ["query results"])

prop("C18", "Resource patterns match exactly the resources they describe",
 "For every value and pattern, resource matching terminates and answers true exactly when the pattern describes the whole value: a star stands for any possibly empty run of characters, a colon parameter stands for exactly one non-empty segment (characters other than slash and space), and every other character stands for itself. "
 "In particular a parameter never swallows a following path segment or the action.",
 ["inputs"], "every value and every pattern over arbitrary bytes up to the stated lengths",
 "No test calls the matcher with a star, and only three fixed parameter patterns are exercised at all; the input space is all pairs of strings.",
 ["utils/str.go", "v2/v2.go"], [("pattern matching", "utils/str.go MatchResource"), ("use on resource and action", "v2/v2.go matchPermission, role.go Has")],
 None, ["MatchResource return value"])

prop("C19", "Persistent links keep every element, in order, and never mutate",
 "For the linked sequences of the ds package, appending and concatenating yield exactly the elements of the operands in order, emptiness agrees with the contents, and no operation on a sequence changes what any previously built sequence, or any slice previously taken from one, contains.",
 ["histories", "inputs"], "every program of empty, append, concat and slice-extraction operations up to the stated length, including writes to extracted slices",
 "The package has no tests; sharing between versions only shows in particular operation trees.",
 ["ds/ds.go"], [("links", "ds/ds.go Append, Concat, AsSlice")], None, ["AsSlice, IsEmpty results"])

prop("C20", "Collection helpers compute the sets they name",
 "For every input slice, de-duplication keeps the first occurrence of each distinct element in order and nothing else, membership answers exactly whether an equal element is present, the join returns exactly the combinations of pairs satisfying the join condition in order, and field filtering accepts exactly the rows whose selected fields are all present and equal to the filter's; none of them modifies its inputs. "
 "Text conversion returns strings and byte slices unchanged and pooled slices are always handed out empty.",
 ["inputs"], "every slice up to the stated length over arbitrary elements",
 "None of the helpers is tested directly.",
 ["utils/str.go", "utils/filters.go", "utils/pool.go"], [("helpers", "utils/str.go Compact, Contains, ToString, ToByte, FromByte; utils/filters.go Match, JoinSlices, FilterByFields; utils/pool.go")],
 None, ["return values"])

prop("C21", "Struct set operations identify items by all their fields",
 "Intersection and union of item slices treat two items as the same exactly when all their fields (or map entries) are equal: the intersection holds exactly the items of the second operand that occur in the first, and the union all items of the first followed by those of the second that do not occur in it.",
 ["inputs"], "every pair of slices of structs or maps",
 "The functions are not tested; distinct items that render to the same text are conflated.",
 ["utils/str.go"], [("textual item identity", "utils/str.go Serialize, Intersection, Union")], None, ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

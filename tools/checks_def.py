check('C01', [
    h('hv2', 'H_AtOnce', 'one thing given first and that many in one call (scopes, tenants, tenants below, permissions added and removed, roles, child roles, assignments), any asked about', dict(many=5), dict(many=12)),
    h('hv2', 'H_Authorize', 'that many arbitrary assignments over two tenants (optionally parent and child; any default tenant, any status of the first), two namespaces, two scopes, two roles (optionally linked), arbitrary permission patterns drawn from the stated set, every request', dict(assignments=2), dict(assignments=3)),
    h('hv2', 'H_Chain', 'tenant chains three deep with managing assignments, roles three deep'),
    h('hv2', 'H_ManyTenants', 'one principal with assignments in up to 12 tenants'),
    h('hv2', 'H_Names', 'one assignment with arbitrary-byte identifiers'),
    h('hv2', 'H_Setup', 'a tenant set up by every sequence of that many calls (namespaces, defaults, scopes), every request', dict(ops=2), dict(ops=3)),
    h('hv2', 'H_Deep', 'a chain of that many tenants with managing assignments, any gap, any conferring tenant, any asked', dict(tenants=7), dict(tenants=12)),
    h('hv2', 'H_Wide', 'that many assignments, namespaces, scopes, child roles and permissions, any of them asked', dict(many=14), dict(many=19)),
    h('hv2', 'H_Big', 'that many assignments, namespaces, scopes, child roles and permissions, the outermost and middle ones asked', dict(many=100), dict(many=250)),
    h('hv2', 'H_BigDeep', 'a chain of that many tenants, the outermost and middle ones conferring, asked and not managed', dict(tenants=40), dict(tenants=100)),
    h('hv2', 'H_BigTenants', 'one principal with assignments in that many tenants, any of them conferring', dict(tenants=70), dict(tenants=140)),
    h('hv2', 'H_BigLong', 'a chain of that many roles, the outermost and middle ones held and asked', dict(roles=70), dict(roles=150)),
], 'every configuration and request within the stated sizes; identifiers are drawn from small sets except in H_Names; larger configurations and longer identifiers are outside', budget=500)
check('C02', [
    h('hv2', 'H_Isolation', 'v2: every base configuration with and without one more assignment of another principal or tenant, every request'),
    h('hv2', 'H_IsolationCan', 'v2 role check: the same'),
    h('hroot', 'H_Isolation', 'root: every row with and without one more row of another principal or unrelated tenant, every request'),
    h('hv1', 'H_Isolation', 'v1: every assignment with and without one more of another principal or unrelated tenant, every request'),
    h('hv2', 'H_Names', 'v2: one assignment and one request with identifiers of arbitrary bytes up to that length', dict(len=2), dict(len=4)),
    h('hroot', 'H_Names', 'root: one row and one request with identifiers of arbitrary bytes up to that length', dict(len=3), dict(len=5)),
    h('hv1', 'H_AssignAuthorize', 'v1: one assignment and one request with identifiers of arbitrary bytes up to that length', dict(len=2), dict(len=4)),
    h('hv2', 'H_BigPrincipals', 'v2: that many principals and tenants with a role each, the outermost and middle ones asking and asked', dict(many=70), dict(many=150)),
    h('hroot', 'H_BigPrincipals', 'root: the same', dict(many=70), dict(many=150)),
    h('hv1', 'H_BigPrincipals', 'v1: the same', dict(many=50), dict(many=100)),
], 'two-run comparison within the stated sizes')
check('C03', [
    h('hv2', 'H_AtOnce', 'one thing given first and that many in one call (scopes, tenants, tenants below, permissions added and removed, roles, child roles, assignments), any asked about', dict(many=5), dict(many=12)),
    h('hv2', 'H_Links', 'every sequence of that many links among that many roles, in any order relative to registration', dict(roles=3, links=3), dict(roles=4, links=4)),
    h('hv2', 'H_Long', 'a chain of that many roles, any held, any asked, any further link', dict(roles=12), dict(roles=18)),
    h('hv2', 'H_BigLong', 'a chain of that many roles, the outermost and middle ones held and asked', dict(roles=70), dict(roles=150)),
    h('hv2', 'H_Asked', 'every acyclic shape of three roles with and without permissions, that many questions one after another', dict(questions=2), dict(questions=3)),
    h('hv2', 'H_DAG', 'the role graph on its own: every sequence of that many registrations, links, permission changes and resolutions over three roles', dict(ops=2), dict(ops=3)),
    h('hv2', 'H_Wide', 'a role with that many children, any link back to it', dict(many=14), dict(many=19)),
    h('hv2', 'H_Big', 'a role with that many children, the outermost and middle ones asked', dict(many=100), dict(many=250)),
], 'every link sequence within the stated sizes')
check('C04', [
    h('hv2', 'H_AtOnce', 'one thing given first and that many in one call (scopes, tenants, tenants below, permissions added and removed, roles, child roles, assignments), any asked about', dict(many=5), dict(many=12)),
    h('hv2', 'H_History', 'every sequence of that many administrative operations with decisions in between, then every permission request', dict(ops=2), dict(ops=3)),
    h('hv2', 'H_HistoryCan', 'the same for role checks', dict(ops=2), dict(ops=3)),
    h('hv2', 'H_Twice', 'two requests in a row with identifiers, resources and actions of arbitrary bytes up to that length', dict(len=2), dict(len=4)),
], 'every history within the stated length')
check('C05', [
    h('hv2', 'H_Remove', 'that many arbitrary assignments, that many arbitrary removal patterns, every request', dict(assignments=3, removals=1), dict(assignments=3, removals=2)),
    h('hv2', 'H_RemoveCan', 'the same for role checks'),
    h('hv2', 'H_Wide', 'one of that many assignments removed', dict(many=14), dict(many=19)),
    h('hv2', 'H_Big', 'one of that many assignments removed, the outermost and middle ones', dict(many=100), dict(many=250)),
], 'every list and pattern within the stated sizes')
check('C06', [
    h('hv2', 'H_Expiry', 'every expiry instant within 2^60 ns of the start and every clock advance up to 2^59 ns, every request', faketime=True),
    h('hv2', 'H_ExpiryCan', 'the same for role checks', faketime=True),
    h('hv2', 'H_ExpiryOps', 'every expiry operation with symbolic instants', faketime=True),
], 'time.Now is a symbolic monotone clock in whole nanoseconds; native replays run under the Go faketime clock')
check('C08', [
    h('hv2', 'H_Can', 'that many arbitrary assignments, every role check', dict(assignments=2), dict(assignments=3)),
    h('hv2', 'H_CanFirst', 'role checks before and after permission decisions, with links', dict(assignments=1), dict(assignments=2)),
    h('hv2', 'H_ChainCan', 'tenant chains and roles three deep'),
    h('hv2', 'H_Deep', 'a chain of that many tenants', dict(tenants=7), dict(tenants=12)),
    h('hv2', 'H_BigDeep', 'a chain of that many tenants, the outermost and middle ones conferring, asked and not managed', dict(tenants=40), dict(tenants=100)),
    h('hv2', 'H_Long', 'a chain of that many roles', dict(roles=12), dict(roles=18)),
    h('hv2', 'H_BigLong', 'a chain of that many roles, the outermost and middle ones held and asked', dict(roles=70), dict(roles=150)),
    h('hv2', 'H_BigPrincipals', 'that many principals and tenants with a role each, the outermost and middle ones asking and asked', dict(many=70), dict(many=150)),
    h('hv2', 'H_Setup', 'a tenant set up by every sequence of that many calls', dict(ops=2), dict(ops=3)),
], 'every configuration and role check within the stated sizes')
check('C09', [
    h('hv2', 'H_Audit', 'one arbitrary assignment, every request, permission decision and role check'),
], 'slog is modelled: a record is its message and attributes as handed to the handler')
check('C10', [
    h('htrie', 'H_TrieRows', 'every sequence of arbitrary rows inserted, every filter'),
    h('htrie', 'H_TrieFields', 'rows whose fields may each be absent, equal identifiers in different fields'),
    h('htrie', 'H_TrieTypes', 'two rows of two keys of eight types and values that print alike'),
    h('htrie', 'H_TrieMany', 'many rows'),
    h('htrie', 'H_TrieBig', 'that many rows, side by side or below a common part, any of them different', dict(rows=50), dict(rows=140)),
    h('htrie', 'H_TrieVar', 'that many rows with keys of every length up to the given one, strings, integers and absent values mixed, searches after every insertion', dict(rows=3, len=2), dict(rows=3, len=3)),
], 'every insertion sequence within the stated sizes')
check('C11', [
    h('hroot', 'H_AtOnce', 'one thing given first and that many in one call (tenants, namespaces, scopes, principals, roles, rows, tenants below, descendants, permissions), any asked about', dict(many=5), dict(many=12)),
    h('hroot', 'H_Member', 'that many arbitrary rows, every request without activity', dict(rows=2), dict(rows=3)),
    h('hroot', 'H_Activity', 'that many arbitrary rows, every request with group or activity', dict(rows=2), dict(rows=3)),
    h('hroot', 'H_Deep', 'tenants and roles three deep, three rows'),
    h('hroot', 'H_Long', 'chains of that many roles and tenants, any held and asked', dict(roles=6), dict(roles=9)),
    h('hroot', 'H_Wide', 'that many rows of each kind, any asked', dict(many=12), dict(many=18)),
    h('hroot', 'H_Big', 'that many rows of each kind, the outermost and middle ones asked', dict(many=70), dict(many=140)),
    h('hroot', 'H_BigChain', 'a chain of that many tenants, the outermost and middle ones managed and asked', dict(tenants=40), dict(tenants=120)),
    h('hroot', 'H_BigTenants', 'a principal with rows in that many tenants, each with one below, the outermost and middle ones asked, not managed or left out', dict(tenants=25), dict(tenants=80)),
    h('hroot', 'H_BigPrincipals', 'that many principals and tenants with a role each, the outermost and middle ones asking and asked', dict(many=70), dict(many=150)),
    h('hroot', 'H_Names', 'one row and one request with identifiers of arbitrary bytes up to that length', dict(len=3), dict(len=5)),
    h('hroot', 'H_API', 'configurations made by that many arbitrary calls of the tenant API', dict(ops=2), dict(ops=3)),
    h('hroot', 'H_APIRows', 'the rows added by that many arbitrary calls of the tenant API, arbitrary identifiers', dict(ops=2, free=1, defs=4), dict(ops=3, free=1, defs=4)),
], 'every configuration and request within the stated sizes')
check('C12', [
    h('hroot', 'H_Changes', 'every sequence of that many changes (rows, tenant links, role links, permissions) over three tenants with decisions and queries in between', dict(ops=2), dict(ops=3)),
    h('hroot', 'H_History', 'that many arbitrary rows with decisions and queries in between, both insertion orders, map orders varied', dict(rows=2), dict(rows=3)),
    h('hroot', 'H_Other', 'two arbitrary rows (the first of that many kinds) in two tenants, any request asked after any other request and asked alone', dict(holding=2), dict(holding=3)),
    h('hroot', 'H_Orders', 'tenants three deep, three rows that may manage, two insertion orders, map orders varied'),
    h('hroot', 'H_Twice', 'two requests in a row with identifiers, groups and activities of arbitrary bytes up to that length', dict(len=2), dict(len=4)),
], 'every history within the stated sizes')
check('C14', [
    h('hroot', 'H_Queries', 'arbitrary rows and hierarchy, every query argument'),
    h('hroot', 'H_ScopeRoles', 'scopes with roles over arbitrary rows'),
    h('hroot', 'H_Search', 'two arbitrary rows (the second of that many kinds), a filter on any combination of the six fields', dict(kinds=2), dict(kinds=4)),
    h('hroot', 'H_Descendants', 'every acyclic hierarchy of four tenants, any asked, any managing row'),
    h('hroot', 'H_Wide', 'that many rows of each kind', dict(many=12), dict(many=18)),
    h('hroot', 'H_Big', 'that many rows of each kind, the outermost and middle ones asked', dict(many=70), dict(many=140)),
    h('hroot', 'H_BigChain', 'a chain of that many tenants', dict(tenants=40), dict(tenants=120)),
    h('hroot', 'H_BigTenants', 'a principal with rows in that many tenants, each with one below, the outermost and middle ones asked, not managed or left out', dict(tenants=25), dict(tenants=80)),
], 'every set of rows within the stated sizes')
check('C18', [
    h('hutil', 'H_MatchBytes', 'every value and pattern of arbitrary bytes up to the given lengths', dict(vlen=4, plen=4), dict(vlen=5, plen=5)),
    h('hutil', 'H_MatchAlphabet', 'longer strings over a b / : * space', dict(vlen=6, plen=4), tiers='thorough'),
    h('hutil', 'H_MatchLong', 'twelve patterns of practical shapes, every value up to that length over a b c / : * space', dict(vlen=6), dict(vlen=8)),
    h('hutil', 'H_MatchPieces', 'patterns of a fixed beginning and that many pieces (star, parameter, separators, letters), every value with that beginning and up to that many more characters', dict(pieces=3, vlen=4), dict(pieces=4, vlen=6)),
    h('hutil', 'H_MatchTwice', 'two matches in a row, values and patterns of arbitrary bytes up to the given lengths', dict(vlen=2, plen=2), dict(vlen=3, plen=3)),
    h('hutil', 'H_MatchSegment', 'values of that many equal characters and an arbitrary end against seven patterns', dict(many=70), dict(many=90)),
    h('hutil', 'H_MatchRepeat', 'values of that many repeated pieces and an arbitrary end against patterns with stars', dict(times=12), dict(times=20)),
], 'every value and pattern within the length bounds; nothing is said about longer strings')
check('C19', [
    h('hds', 'H_LinkProgram', 'every program of that many operations, symbolic elements', dict(ops=4), dict(ops=5)),
    h('hds', 'H_LinkIndex', 'two sequences up to that length in several shapes, any position, any write to an extracted slice', dict(len=4), dict(len=6)),
    h('hds', 'H_LinkBig', 'two sequences of up to that many elements in several shapes, any position', dict(len=70), dict(len=150)),
], 'every program of up to 4 (thorough 5) operations over any earlier sequences; element values symbolic')
check('C13', [
    h('hroot', 'H_RoleHas', 'root: every acyclic shape over three roles, that many arbitrary permissions, every query and restriction', dict(perms=2), dict(perms=3)),
    h('hroot', 'H_RoleOps', 'root: every sequence of that many changes, locks and attached groups on two roles, every query', dict(ops=3), dict(ops=4)),
    h('hroot', 'H_RoleLinks', 'root: every sequence of that many links (one or two children) among that many roles', dict(roles=3, links=3, double=1), dict(roles=4, links=3, double=1)),
    h('hroot', 'H_RoleNames', 'root: two permissions, group names and an activity of arbitrary bytes up to that length', dict(len=2), dict(len=3)),
    h('hroot', 'H_TenantLinks', 'root: every sequence of that many links among three tenants', dict(links=3), dict(links=4)),
    h('hroot', 'H_RolesByPermission', 'root: roles listed per permission', dict(perms=2), dict(perms=3)),
    h('hv1', 'H_RoleHas', 'v1: as for the root package', dict(perms=2), dict(perms=3)),
    h('hv1', 'H_RoleOps', 'v1: as for the root package', dict(ops=3), dict(ops=4)),
    h('hv1', 'H_RoleLinks', 'v1: as for the root package', dict(roles=3, links=3, double=1), dict(roles=4, links=3, double=1)),
    h('hv1', 'H_RoleNames', 'v1: two permissions, group names and an activity of arbitrary bytes up to that length', dict(len=2), dict(len=3)),
    h('hv1', 'H_TenantLinks', 'v1: as for the root package', dict(links=3), dict(links=4)),
    h('hroot', 'H_RoleLong', 'root: a chain of that many roles and fourteen permissions, any asked, any restriction', dict(roles=7), dict(roles=10)),
    h('hv1', 'H_RoleLong', 'v1: as for the root package', dict(roles=7), dict(roles=10)),
    h('hroot', 'H_RoleAsked', 'that many rounds of an arbitrary link or permission followed by arbitrary questions under arbitrary restrictions, three roles', dict(rounds=2), dict(rounds=3)),
    h('hroot', 'H_RoleBig', 'root: a role with that many groups, permissions and descendants, the outermost and middle ones asked, and a chain of the stated depth', dict(many=70, deep=11), dict(many=140, deep=14)),
    h('hv1', 'H_RoleAsked', 'that many rounds of an arbitrary link or permission followed by arbitrary questions under arbitrary restrictions, three roles', dict(rounds=2), dict(rounds=3)),
    h('hv1', 'H_RoleBig', 'v1: as for the root package', dict(many=70, deep=11), dict(many=140, deep=14)),
], 'every hierarchy, permission set and update sequence within the stated sizes')
check('C15', [
    h('hroot', 'H_Registry', 'root: every sequence of that many additions of one kind, identifiers of arbitrary bytes up to that length', dict(adds=3, len=2), dict(adds=4, len=2)),
    h('hroot', 'H_RegistryBig', 'root: that many objects of any kind, the outermost and middle ones added again', dict(many=70), dict(many=200)),
    h('hroot', 'H_Totals', 'root: objects of all seven kinds at once'),
    h('hv1', 'H_Registry', 'v1: the same', dict(adds=3, len=2), dict(adds=4, len=2)),
    h('hv1', 'H_RegistryBig', 'v1: the same', dict(many=70), dict(many=200)),
    h('hv1', 'H_Totals', 'v1: the same'),
], 'every sequence of additions within the stated sizes')
check('C16', [
    h('hv1', 'H_AtOnce', 'one thing given first and that many in one call (roles, namespaces, scopes, principals, tenants, permissions), any asked about', dict(many=5), dict(many=12)),
    h('hv1', 'H_Member', 'that many arbitrary assignments (also in an unregistered tenant), every request without activity', dict(rows=2), dict(rows=3)),
    h('hv1', 'H_Activity', 'that many arbitrary assignments, every request with group or activity', dict(rows=2), dict(rows=2)),
    h('hv1', 'H_NamespaceRoles', 'roles and scopes attached to namespaces, that many arbitrary assignments', dict(rows=2), dict(rows=2)),
    h('hv1', 'H_Wide', 'that many tenants, roles, namespaces and scopes with an assignment each, any asked', dict(many=12), dict(many=18)),
    h('hv1', 'H_Big', 'the same with more of each, the outermost and middle ones asked', dict(many=50), dict(many=120)),
    h('hv1', 'H_BigPrincipals', 'that many principals and tenants with a role each, the outermost and middle ones asking and asked', dict(many=50), dict(many=100)),
    h('hv1', 'H_Changes', 'an arbitrary assignment, a decision, a change (assignment, permission, role link, namespace and scope), every request'),
    h('hv1', 'H_Twice', 'two requests in a row with identifiers, groups and activities of arbitrary bytes up to that length', dict(len=2), dict(len=4)),
], 'every configuration and request within the stated sizes')
check('C17', [
    h('hv1', 'H_AtOnce', 'one thing given first and that many in one call (roles, namespaces, scopes, principals, tenants, permissions), any asked about', dict(many=5), dict(many=12)),
    h('hv1', 'H_Assign', 'that many assignments of five identifiers of arbitrary bytes up to that length, every query', dict(rows=2, len=2), dict(rows=3, len=2)),
    h('hv1', 'H_AssignAuthorize', 'one assignment and one request with identifiers of arbitrary bytes', dict(len=2), dict(len=4)),
    h('hv1', 'H_BigPrincipals', 'that many principals and tenants with a role each, every listing', dict(many=50), dict(many=100)),
    h('hv1', 'H_TenantNames', 'one call of the tenant API with identifiers of arbitrary bytes up to that length', dict(len=2), dict(len=4)),
    h('hv1', 'H_TenantAPI', 'every sequence of that many calls of the tenant API, every request', dict(ops=2), dict(ops=3)),
    h('hv1', 'H_TenantScopes', 'v1: several scopes assigned at once with and without default namespace and role, any row asked about'),
], 'every identifier up to the stated length and every sequence within the stated size')
check('C20', [
    h('hutil', 'H_Compact', 'every slice up to that length of arbitrary strings, ints, bools and nils', dict(len=4), dict(len=5)),
    h('hutil', 'H_CollTwice', 'three de-duplications in a row of slices of that many arbitrary elements', dict(len=2), dict(len=3)),
    h('hutil', 'H_CollSpare', 'operands that are the first half of arrays of twice that many arbitrary elements', dict(len=2), dict(len=3)),
    h('hutil', 'H_CollBig', 'slices of that many numbers of which the first or last is arbitrary', dict(len=33), dict(len=70)),
    h('hutil', 'H_Join', 'every pair of slices up to that length', dict(len=3), dict(len=4)),
    h('hutil', 'H_Filter', 'every row and filter of three fields, every selection'),
    h('hutil', 'H_Text', 'every string up to that length', dict(len=4), dict(len=8)),
    h('hutil', 'H_Pools', 'every sequence of that many gets and puts', dict(rounds=3), dict(rounds=4)),
], 'every input within the stated sizes')
check('C07', [
    h('hv2', 'H_Concurrent', 'v2: a decision or role check beside any of 19 operations, every schedule with that many preemptions; races and deadlocks over every schedule consistent with each recorded trace', dict(preemptions=1), dict(preemptions=2), race=True),
    h('hv2', 'H_ConcurrentAdmin', 'v2: every pair of 15 kinds of operation at once, then every request', dict(preemptions=1), dict(preemptions=2), race=True),
    h('hv2', 'H_ConcurrentLinks', 'v2: every two role links among three roles at once, and the roles held afterwards', dict(preemptions=1), dict(preemptions=2), race=True),
    h('hv2', 'H_ConcurrentDecisions', 'v2: three decisions at once', dict(preemptions=0), dict(preemptions=1), race=True),
    h('hroot', 'H_ConcurrentDecisions', 'root: two decisions at once, every request shape', dict(preemptions=0), dict(preemptions=0), race=True),
    h('hv1', 'H_ConcurrentDecisions', 'v1: two decisions at once, every request shape', dict(preemptions=0), dict(preemptions=1), race=True),
], 'schedules: for each explored interleaving the order of all events becomes integer variables, and the solver looks for any consistent reordering in which two conflicting accesses are adjacent or every goroutine waits; the sequentially consistent interleavings themselves are explored up to the stated number of preemptions', assume=['the concurrent maps of xsync and the map package are linearizable; sync.Pool hands an object to one holder at a time'])

check('C21', [
    h('hutil', 'H_SetStructs', 'two structs of two string fields of arbitrary bytes up to that length, slices of that many items', dict(len=2, items=1), dict(len=3, items=1)),
    h('hutil', 'H_SetDelimiters', 'structs whose fields are made of the characters used in the rendering, up to that length', dict(len=3), dict(len=4)),
    h('hutil', 'H_SetMixed', 'structs with fields of different types that print alike, and with text methods'),
    h('hutil', 'H_SetLong', 'strings that share that many characters, maps of six entries and structs of twelve fields of which an arbitrary part differs', dict(len=70), dict(len=200)),
    h('hutil', 'H_SetBig', 'slices of that many items of which one is arbitrary', dict(items=40), dict(items=80)),
    h('hutil', 'H_SetMaps', 'maps of up to two entries with arbitrary values up to that length; the key of a single entry arbitrary, keys of two from three', dict(len=1)),
    h('hutil', 'H_SetTwice', 'two intersections and unions in a row of structs of two string fields of arbitrary bytes up to that length', dict(len=1), dict(len=2)),
    h('hutil', 'H_SetSpare', 'operands of that many items that are neighbouring parts of one longer array', dict(items=2), dict(items=3)),
    h('hutil', 'H_SetSizes', 'two slices of up to that many structs, equal ones among them', dict(items=3), dict(items=4)),
    h('hutil', 'H_SetIntMaps', 'maps with integer keys, arbitrary iteration order'),
], 'every pair of operands within the stated sizes', assume=['reflect, fmt verbs %v %s %T %#v and strconv.Quote are modelled on the types the harnesses use'])

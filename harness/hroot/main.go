// Harnesses for the root package (C02, C07, C11-C15).
package main

import (
	"verif/harness/nd"
)

func main() {
	nd.Main(map[string]func(){
		"H_Member": H_Member, "H_Activity": H_Activity, "H_Queries": H_Queries, "H_ScopeRoles": H_ScopeRoles, "H_Descendants": H_Descendants, "H_Twice": H_Twice, "H_Isolation": H_Isolation, "H_History": H_History, "H_Changes": H_Changes, "H_Deep": H_Deep, "H_Search": H_Search, "H_Orders": H_Orders, "H_API": H_API, "H_APIRows": H_APIRows,
		"H_ConcurrentDecisions": H_ConcurrentDecisions, "H_RoleHas": H_RoleHas, "H_RolesByPermission": H_RolesByPermission, "H_RoleOps": H_RoleOps, "H_RoleLinks": H_RoleLinks, "H_RoleNames": H_RoleNames, "H_TenantLinks": H_TenantLinks, "H_Registry": H_Registry, "H_Totals": H_Totals, "H_Names": H_Names, "H_Other": H_Other, "H_Long": H_Long, "H_Wide": H_Wide, "H_Big": H_Big, "H_BigPrincipals": H_BigPrincipals, "H_BigChain": H_BigChain, "H_AtOnce": H_AtOnce, "H_BigTenants": H_BigTenants, "H_RoleBig": H_RoleBig, "H_RoleAsked": H_RoleAsked, "H_RegistryBig": H_RegistryBig, "H_RoleLong": H_RoleLong,
	})
}

func decide(w *world, q req) {
	m := w.build()
	w.fill(m)
	got := m.Authorize(q.p, q.options()...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == w.authorize(q), "Authorize grants exactly what the tenant data confer")
}

// H_Member: arbitrary rows, arbitrary request without activity.
func H_Member() {
	w := &world{}
	anyTree(w)
	w.rows = append(w.rows, anyRow(nd.Choice("kind", 2)*3))
	for i := 1; i < nd.P("rows", 2); i++ {
		w.rows = append(w.rows, anyRow(nd.Choice("kind", nKinds)))
	}
	decide(w, anyReq(0))
}

// H_Activity: arbitrary rows, arbitrary request for an activity.
func H_Activity() {
	w := &world{}
	anyTree(w)
	anyRoles(w)
	w.rows = append(w.rows, anyRow([]int{0, 1, 8}[nd.Choice("kind", 3)]))
	for i := 1; i < nd.P("rows", 2); i++ {
		w.rows = append(w.rows, anyRow([]int{0, 1, 2, 8, 3, 6}[nd.Choice("kind", 6)]))
	}
	decide(w, anyReq(1+nd.Choice("given", 3)))
}

// Harnesses for package v1 (C02, C07, C13, C15-C17).
package main

import (
	lib "github.com/oarkflow/permission/v1"
	"verif/harness/nd"
)

func main() {
	nd.Main(map[string]func(){
		"H_ConcurrentDecisions": H_ConcurrentDecisions, "H_RoleHas": H_RoleHas, "H_RoleOps": H_RoleOps, "H_RoleLinks": H_RoleLinks, "H_RoleNames": H_RoleNames, "H_TenantLinks": H_TenantLinks, "H_Registry": H_Registry, "H_Totals": H_Totals,
		"H_Member": H_Member, "H_Twice": H_Twice, "H_Changes": H_Changes, "H_Activity": H_Activity, "H_Isolation": H_Isolation, "H_Assign": H_Assign, "H_AssignAuthorize": H_AssignAuthorize, "H_TenantNames": H_TenantNames, "H_TenantAPI": H_TenantAPI, "H_AtOnce": H_AtOnce, "H_TenantScopes": H_TenantScopes, "H_NamespaceRoles": H_NamespaceRoles, "H_Wide": H_Wide, "H_Big": H_Big, "H_BigPrincipals": H_BigPrincipals, "H_RoleBig": H_RoleBig, "H_RoleAsked": H_RoleAsked, "H_RegistryBig": H_RegistryBig, "H_RoleLong": H_RoleLong,
	})
}

func descendantIDs(m *lib.RoleManager, t string) (out []any) {
	o, ok := m.GetTenant(t)
	if !ok {
		return nil
	}
	for _, d := range o.GetDescendantTenants() {
		out = append(out, d.ID())
	}
	return out
}

func asInt(v any) int { return int(v.(uintptr)) }

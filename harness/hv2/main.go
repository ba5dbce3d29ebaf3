// Harnesses for package v2 (C01-C09).
package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

func main() {
	nd.Main(map[string]func(){
		"H_Authorize": H_Authorize, "H_AtOnce": H_AtOnce, "H_Asked": H_Asked, "H_Can": H_Can, "H_CanFirst": H_CanFirst, "H_Isolation": H_Isolation, "H_ManyTenants": H_ManyTenants, "H_Chain": H_Chain, "H_ChainCan": H_ChainCan, "H_Names": H_Names, "H_Concurrent": H_Concurrent, "H_ConcurrentDecisions": H_ConcurrentDecisions, "H_ConcurrentAdmin": H_ConcurrentAdmin, "H_ConcurrentLinks": H_ConcurrentLinks, "H_History": H_History, "H_HistoryCan": H_HistoryCan, "H_Expiry": H_Expiry, "H_ExpiryCan": H_ExpiryCan, "H_ExpiryOps": H_ExpiryOps, "H_Audit": H_Audit, "H_IsolationCan": H_IsolationCan, "H_Links": H_Links, "H_DAG": H_DAG, "H_Twice": H_Twice, "H_Remove": H_Remove, "H_RemoveCan": H_RemoveCan, "H_Setup": H_Setup, "H_Long": H_Long, "H_Deep": H_Deep, "H_Wide": H_Wide, "H_Big": H_Big, "H_BigPrincipals": H_BigPrincipals, "H_BigLong": H_BigLong, "H_BigDeep": H_BigDeep, "H_BigTenants": H_BigTenants,
	})
}

// H_Authorize: an arbitrary configuration and request; the decision equals the reference.
func H_Authorize() {
	w := &world{tenants: anyTenants()}
	anyRoles(w)
	w.def = nd.Pick("default tenant", "", "t0", "t1", "tx")
	w.tenants[0].status = v2.TenantStatus(nd.Int("t0 status", 0, 4))
	for i := 0; i < nd.P("assignments", 2); i++ {
		w.asgs = append(w.asgs, anyAsg(i == 0, "r0", "r1", "r2", ""))
	}
	q := anyRequest()
	dirty()
	a := v2.NewAuthorizer()
	w.build(a)
	w.assign(a)
	want := w.authorize(q)
	got := a.Authorize(q)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "Authorize grants exactly what a live assignment confers")
}

// H_Can: the same for the role check, after other role checks have run.
func H_Can() { canCheck(false) }

// H_CanFirst: the role check as the first one of the process; no role has been resolved before.
func H_CanFirst() { canCheck(true) }

func canCheck(first bool) {
	w := &world{tenants: anyTenants()}
	anyRoles(w)
	if !first {
		w.def = nd.Pick("default tenant", "", "t0", "t1", "tx")
		w.tenants[0].status = v2.TenantStatus(nd.Int("t0 status", 0, 4))
	}
	for i := 0; i < nd.P("assignments", 2); i++ {
		a := anyAsg(i == 0, "r0", "r1", "r2", "")
		if first {
			a.role = []string{"r0", "r1", "r2"}[nd.Choice("role", 3)]
		}
		w.asgs = append(w.asgs, a)
	}
	q := anyTarget()
	dirty()
	a := v2.NewAuthorizer()
	w.build(a)
	if !first {
		warm(a)
	}
	w.assign(a)
	roles := []string{nd.Pick("asked", "r0", "r1", "r2", "rx", "")}
	if nd.Choice("asked roles", 2) == 1 {
		roles = append(roles, nd.Pick("asked", "r0", "r1"))
	}
	want := w.can(q, roles...)
	got := a.Can(q, roles...)
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == want, "Can holds exactly for roles held or inherited")
}

// warm makes a role check for each role, as somebody else's earlier requests would; it
// returns that principal's assignments.
func warm(a *v2.Authorizer) (as []asg) {
	for _, r := range roleNames {
		x := asg{p: "z", t: "t1", role: r}
		as = append(as, x)
		a.AddPrincipalRole(x.make())
	}
	nd.Assert(a.Can(v2.Request{Principal: "z", Tenant: "t1"}, "r0"), "a held role is recognised")
	return as
}

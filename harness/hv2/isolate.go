package main

import (
	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// H_Isolation: an arbitrary configuration with and without one more assignment, which belongs
// to another principal or to a tenant unrelated to the named one; both kinds of decision agree.
func H_Isolation() { isolation(false) }

// H_IsolationCan: the same for the role check.
func H_IsolationCan() { isolation(true) }

func isolation(can bool) {
	w := &world{tenants: anyTenants()}
	anyRoles(w)
	related := len(w.tenants[0].kids) > 0
	own := anyAsg(true, "r0", "r1", "r2")
	own.p = "p"
	extra := anyAsg(false, "r0", "r1", "r2")
	extra.p = nd.Pick("extra principal", "p", "q")
	q := anyTarget()
	if !can {
		q = anyRequest()
	}
	back := len(w.tenants[1].kids) > 0
	elsewhere := extra.t != q.Tenant && !(related && q.Tenant == "t0") && !(back && q.Tenant == "t1") && q.Tenant != ""
	nd.Assume(extra.p == "q" || elsewhere)
	dirty()
	a, b := v2.NewAuthorizer(), v2.NewAuthorizer()
	w.build(a)
	w.build(b)
	a.AddPrincipalRole(own.make())
	if nd.Choice("extra first", 2) == 1 {
		b.AddPrincipalRole(extra.make(), own.make())
	} else {
		b.AddPrincipalRole(own.make(), extra.make())
	}
	if can {
		warm(a)
		warm(b)
		r := nd.Pick("asked", "r0", "r1", "r2")
		ga, gb := a.Can(q, r), b.Can(q, r)
		nd.Observe("with", gb)
		nd.CoverIf(ga, "granted")
		nd.CoverIf(!ga, "denied")
		nd.Assert(ga == gb, "an assignment of another principal or unrelated tenant changes no role check")
		return
	}
	ga, gb := a.Authorize(q), b.Authorize(q)
	nd.Observe("with", gb)
	nd.CoverIf(ga, "granted")
	nd.CoverIf(!ga, "denied")
	nd.Assert(ga == gb, "an assignment of another principal or unrelated tenant changes no decision")
	if q.Tenant != "" {
		nd.Assert(!gb || own.t == q.Tenant || extra.p == "p" && extra.t == q.Tenant, "a grant in a named tenant needs an assignment there")
	}
}

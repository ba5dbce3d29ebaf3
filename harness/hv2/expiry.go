package main

import (
	"time"

	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

// H_Expiry: assignments expiring at arbitrary instants, decisions at arbitrary later instants;
// each decision is that of an authorizer without the assignments that have expired by then.
func H_Expiry() { expiry(false) }

// H_ExpiryCan: the same for the role check.
func H_ExpiryCan() { expiry(true) }

// instant is an arbitrary instant relative to the start, to the nanosecond.
func instant(name string) time.Duration { return time.Duration(nd.Int(name, -(1 << 60), 1<<60)) }

// advance is an arbitrary advance of the clock.
func advance(name string) time.Duration { return time.Duration(nd.Int(name, 0, 1<<59)) }

func expiry(can bool) {
	w := &world{perms: map[string][]string{"r0": {"a x"}, "r1": {"b x"}}}
	w.tenants = []*tcfg{
		{id: "t0", def: "n0", ns: map[string][]string{"n0": {"s0"}}, kids: []string{"t1"}},
		{id: "t1", def: "n0", ns: map[string][]string{"n0": {"s0"}}}}
	a := v2.NewAuthorizer()
	w.build(a)
	if can {
		w.asgs = warm(a)
	}
	var at []time.Duration
	var none []bool
	n0 := len(w.asgs)
	start := time.Now()
	for i := 0; i < nd.P("assignments", 2); i++ {
		x := asg{p: "p", t: nd.Pick("assignment tenant", "t0", "t1"), sc: nd.Pick("assignment scope", "", "s0"), role: nd.Pick("role", "r0", "r1"), manage: nd.Bool("manage")}
		m := instant("expires")
		never := nd.Choice("never expires", 2) == 1
		o := x.make()
		if !never {
			e := start.Add(m)
			o.Expiry = &e
		}
		a.AddPrincipalRole(o)
		w.asgs = append(w.asgs, x)
		at = append(at, m)
		none = append(none, never)
	}
	q := v2.Request{Principal: "p", Tenant: nd.Pick("tenant", "", "t0", "t1"), Scope: nd.Pick("scope", "", "s0"), Resource: nd.Pick("resource", "a", "b"), Action: "x"}
	role := nd.Pick("asked", "r0", "r1")
	var now time.Duration
	for k := 0; k < nd.P("decisions", 2); k++ {
		if k > 0 {
			d := advance("time passes")
			nd.Advance(d)
			now += d
		}
		for i := range at {
			w.asgs[n0+i].exp = 1
			void := !none[i] && at[i] < now
			if void {
				w.asgs[n0+i].exp = -1
			}
		}
		if can {
			got := a.Can(q, role)
			nd.Observe("held", got)
			nd.CoverIf(got, "granted")
			nd.CoverIf(!got, "denied")
			nd.Assert(got == w.can(q, role), "a role check ignores exactly the expired assignments")
			continue
		}
		got := a.Authorize(q)
		nd.Observe("granted", got)
		nd.CoverIf(got, "granted")
		nd.CoverIf(!got, "denied")
		nd.Assert(got == w.authorize(q), "a decision ignores exactly the expired assignments")
	}
}

// H_ExpiryOps: a program of expiry operations on one assignment and clock advances.
func H_ExpiryOps() {
	w := &world{perms: map[string][]string{"r0": {"a x"}}}
	w.tenants = []*tcfg{{id: "t0", def: "n0", ns: map[string][]string{"n0": {"s0"}}}}
	a := v2.NewAuthorizer()
	w.build(a)
	o := &v2.PrincipalRole{Principal: "p", Tenant: "t0", Role: "r0"}
	a.AddPrincipalRole(o)
	q := v2.Request{Principal: "p", Tenant: "t0", Resource: "a", Action: "x"}
	start := time.Now()
	var now, at time.Duration
	has := false
	// a second assignment that starts as a copy of the first one's expiry
	o2 := &v2.PrincipalRole{Principal: "p2", Tenant: "t0", Role: "r0"}
	a.AddPrincipalRole(o2)
	var at2 time.Duration
	has2 := false
	for k := 0; k < nd.P("ops", 3); k++ {
		switch nd.Choice("operation", 8) {
		case 0:
			m := instant("instant")
			err := o.SetExpiry(start.Add(m))
			past := m < now
			nd.CoverIf(past, "refused")
			nd.Assert((err != nil) == past, "an expiry in the past, and only that, is refused")
			if !past {
				has, at = true, m
			}
		case 1:
			d := instant("duration")
			nd.Assert(o.SetExpiryDuration(d) == nil, "a duration is accepted")
			has, at = true, now+d
		case 2:
			i := nd.Choice("text", 3)
			d := []time.Duration{30 * time.Second, -90 * time.Second, time.Hour + time.Millisecond}[i]
			nd.Assert(o.SetExpiryDuration([]string{"30s", "-1m30s", "1h1ms"}[i]) == nil, "a duration text is accepted")
			has, at = true, now+d
		case 3:
			nd.Assert(o.SetExpiryDuration([]string{"", "x", "10", "5q"}[nd.Choice("bad text", 4)]) != nil, "an unparsable duration is reported")
		case 4:
			o.ClearExpiry()
			has = false
		case 5:
			d := advance("time passes")
			nd.Advance(d)
			now += d
		case 7:
			o2.Expiry = o.Expiry
			has2, at2 = has, at
		case 6:
			nd.Assert(o.SetExpiryDuration(nil) != nil, "something that is no duration is reported")
		}
		live2 := !has2 || at2 >= now
		nd.Assert(o2.IsExpired() == !live2, "the expiry of one assignment does not depend on another's")
		live := !has || at >= now
		nd.Assert(o.IsExpired() == !live, "the assignment is expired exactly when its expiry has passed")
		got := a.Authorize(q)
		nd.Observe("granted", got)
		nd.CoverIf(!got, "expired")
		nd.CoverIf(got && has, "not yet expired")
		nd.Assert(got == live, "the assignment confers exactly while it has not expired")
	}
}

package main

import "verif/harness/nd"

// H_ConcurrentDecisions: two decisions at once share nothing unprotected and each answers as alone.
func H_ConcurrentDecisions() {
	w := &world{tenants: []string{"t0", "t1"}, kids: map[string][]string{"t0": {"t1"}}, links: map[string][]string{"r0": {"r1"}}, perms: map[string][]string{"r0": {"a"}, "r1": {"b"}}}
	w.rows = []row{
		{t: "t0", p: "p", hasP: true, r: "r0", hasR: true, manSet: true, man: true},
		{t: "t0", r: "r1", hasR: true},
		{t: "t1", n: "n0", hasN: true, s: "s0", hasS: true, p: "q", hasP: true, r: "r1", hasR: true},
		{t: "t0", n: "n0", hasN: true, s: "s1", hasS: true},
	}
	m := w.build()
	w.fill(m)
	shapes := []int{0, 1, 2, 3, 4}
	ask := func(i int) req {
		q := req{p: nd.Pick("asking", "p", "q")}
		switch shapes[i] {
		case 0:
			q.hasT, q.hasGroup, q.hasAct = true, true, true
		case 1:
			q.hasT, q.hasN, q.hasS, q.hasGroup, q.hasAct = true, true, true, true, true
		case 2:
			q.hasN, q.hasS = true, true
		case 3:
			q.hasT, q.hasN = true, true
		case 4:
			q.hasN, q.hasS, q.hasGroup, q.hasAct = true, true, true, true
		}
		if q.hasT {
			q.t = nd.Pick("tenant", "t0", "t1")
		}
		if q.hasN {
			q.n = "n0"
		}
		if q.hasS {
			q.s = nd.Pick("scope", "s0", "s1")
		}
		if q.hasGroup {
			q.group = "g"
		}
		if q.hasAct {
			q.act = nd.Pick("activity", "a x", "b x")
		}
		return q
	}
	k := nd.P("shapes", 5)
	x, y := ask(nd.Choice("first", k)), ask(nd.Choice("second", k))
	var g0, g1 bool
	nd.Par(nd.P("preemptions", 0), func() { g0 = m.Authorize(x.p, x.options()...) }, func() { g1 = m.Authorize(y.p, y.options()...) })
	nd.Observe("granted", g0)
	nd.CoverIf(g0, "granted")
	nd.CoverIf(!g0, "denied")
	nd.Assert(g0 == m.Authorize(x.p, x.options()...) && g1 == m.Authorize(y.p, y.options()...), "concurrent decisions answer what each answers alone")
}

package main

import "verif/harness/nd"

// H_ConcurrentDecisions: two decisions at once share nothing unprotected and each answers as alone.
func H_ConcurrentDecisions() {
	w := &world{reg: []string{"t0", "t1"}, ns: map[string][]string{"t0": {"n0"}, "t1": {"n0"}}, sc: map[string][]string{"t0": {"s0", "s1"}, "t1": {"s0"}}, roles: map[string][]string{"t0": roleNames, "t1": {"r1"}}}
	w.perms = map[string][]gperm{"r0": {{"g", "a", "x"}, {"", "a", "x"}}, "r1": {{"g", "b", "x"}, {"", "b", "x"}}}
	w.kids = map[string][]string{"r0": {"r1"}}
	w.rows = []row{{t: "t0", p: "p", r: "r0"}, {t: "t0", p: "q", r: "r1", n: "n0", s: "s0"}, {t: "t1", p: "q", r: "r1"}}
	m := w.build()
	w.fill(m)
	ask := func(i int) req {
		q := req{p: nd.Pick("asking", "p", "q")}
		switch i {
		case 0:
			q.hasT, q.hasG, q.hasA = true, true, true
		case 1:
			q.hasT, q.hasN, q.hasS, q.hasG, q.hasA = true, true, true, true, true
		case 2:
			q.hasA = true
		case 3:
			q.hasN, q.hasS = true, true
		case 4:
			q.hasS = true
		}
		if q.hasT {
			q.t = nd.Pick("tenant", "t0", "t1")
		}
		if q.hasN {
			q.n = "n0"
		}
		if q.hasS {
			q.s = nd.Pick("scope", "s0", "s1")
		}
		if q.hasG {
			q.group = "g"
		}
		if q.hasA {
			q.act = nd.Pick("activity", "a x", "b x")
		}
		return q
	}
	k := nd.P("shapes", 5)
	x, y := ask(nd.Choice("first", k)), ask(nd.Choice("second", k))
	var g0, g1 bool
	nd.Par(nd.P("preemptions", 0), func() { g0 = m.Authorize(x.p, x.options()...) }, func() { g1 = m.Authorize(y.p, y.options()...) })
	nd.Observe("granted", g0)
	nd.CoverIf(g0, "granted")
	nd.CoverIf(!g0, "denied")
	nd.Assert(g0 == m.Authorize(x.p, x.options()...) && g1 == m.Authorize(y.p, y.options()...), "concurrent decisions answer what each answers alone")
}

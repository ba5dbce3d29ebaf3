package main

import (
	"context"
	"log/slog"

	v2 "github.com/oarkflow/permission/v2"
	"verif/harness/nd"
)

type recorder struct{ recs []slog.Record }

func (r *recorder) Enabled(context.Context, slog.Level) bool { return true }
func (r *recorder) Handle(_ context.Context, x slog.Record) error {
	r.recs = append(r.recs, x)
	return nil
}
func (r *recorder) WithAttrs([]slog.Attr) slog.Handler { return r }
func (r *recorder) WithGroup(string) slog.Handler      { return r }

func has(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// H_Audit: the last record of each decision tells it and names the request; logging changes no answer.
func H_Audit() {
	w := &world{perms: map[string][]string{"r0": {"a x"}}}
	w.tenants = []*tcfg{
		{id: "t0", def: "n0", ns: map[string][]string{"n0": {"s0"}, "n1": nil}},
		{id: "t1", def: "n0", ns: map[string][]string{"n0": {"s0"}}}}
	rec := &recorder{}
	a, b := v2.NewAuthorizer(slog.New(rec)), v2.NewAuthorizer()
	w.build(a)
	w.build(b)
	if nd.Choice("default tenant", 2) == 1 {
		a.SetDefaultTenant("t1")
		b.SetDefaultTenant("t1")
	}
	can := nd.Choice("role check", 2) == 1
	if can {
		warm(a)
		warm(b)
	}
	x := asg{p: nd.Pick("assignment principal", "p", "q"), t: nd.Pick("assignment tenant", "t0", "t1"), ns: nd.Pick("assignment namespace", "", "n0"), role: nd.Pick("assignment role", "r0", "r1")}
	a.AddPrincipalRole(x.make())
	b.AddPrincipalRole(x.make())
	if nd.Choice("second assignment", 2) == 1 {
		y := asg{p: "p", t: "t1", role: "r0"}
		a.AddPrincipalRole(y.make())
		b.AddPrincipalRole(y.make())
	}
	q := v2.Request{Principal: nd.Pick("asking", "p", "t0", "r0", ""), Tenant: nd.Pick("tenant", "", "t0", "t1", "tx"), Namespace: nd.Pick("namespace", "", "n0", "n1", "nx"), Scope: nd.Pick("scope", "", "s0", "sx"),
		Resource: nd.Pick("resource", "", "a", "b"), Action: nd.Pick("action", "", "x")}
	prev := v2.Request{Principal: "q", Tenant: "t0", Namespace: "n1", Scope: "s0", Resource: "zz", Action: "yy"}
	a.Authorize(prev)
	rec.recs = nil
	var got, plain bool
	if can {
		roles := [][]string{{"r0"}, nil, {"zz", "r0"}}[nd.Choice("asked", 3)]
		got = a.Can(q, roles...)
		plain = b.Can(q, roles...)
	} else {
		got = a.Authorize(q)
		plain = b.Authorize(q)
	}
	nd.Observe("granted", got)
	nd.CoverIf(got, "granted")
	nd.CoverIf(!got, "denied")
	nd.Assert(got == plain, "logging does not change the answer")
	nd.Assert(len(rec.recs) > 0, "every decision is recorded")
	last := rec.recs[len(rec.recs)-1]
	nd.Assert(got == has(last.Message, "granted"), "the record says granted exactly when the answer is yes")
	fails := has(last.Message, "failed") || has(last.Message, "Failed")
	nd.Assert(!got == fails, "the record says failed exactly when the answer is no")
	want := []string{"principal", q.Principal, "tenant", q.Tenant, "namespace", q.Namespace, "scope", q.Scope, "resource", q.Resource, "action", q.Action}
	seen := make([]bool, len(want))
	last.Attrs(func(at slog.Attr) bool {
		for i := 0; i < len(want); i += 2 {
			if at.Key == want[i] {
				nd.Assert(at.Value.String() == want[i+1], "the record carries the request")
				nd.Assert(!seen[i], "each field is recorded once")
				seen[i] = true
			}
		}
		return true
	})
	for i := 0; i < len(want); i += 2 {
		given := want[i+1] != ""
		nd.Assert(!given || seen[i], "the record carries every given field of the request")
	}
}

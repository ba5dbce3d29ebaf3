package main

import (
	"github.com/oarkflow/permission/utils"
	"verif/harness/nd"
)

// H_MatchLong: patterns of practical shapes against every longer value over the characters the
// language gives a meaning to.
func H_MatchLong() {
	shapes := []string{"*ab", "*a*b*", "/a/:b/c", "/:a/:b :c", "*/:a/b", "/a/*/b *", "*:a/b", ":a*b", "*a/:b *", ":a/*/:b", "a*a*a", "/a :b"}
	p := shapes[nd.Choice("shape", len(shapes))]
	n := nd.P("vlen", 9)
	l := nd.Int("length", 0, n)
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte("value")
		nd.Assume(c == 'a' || c == 'b' || c == 'c' || c == '/' || c == ' ' || c == ':' || c == '*')
		b[i] = c
	}
	v := string(b)[:l]
	want := describes(v, p, n, len(p))
	got := utils.MatchResource(v, p)
	nd.Observe("match", got)
	nd.CoverIf(got, "match")
	nd.CoverIf(!got, "no match")
	nd.Assert(got == want, "MatchResource agrees with the pattern language on longer values")
}

// H_MatchRepeat: long values made of one repeated piece; a star has to give back many times.
func H_MatchRepeat() {
	piece := []string{"a", "ab", "a/", "/a"}[nd.Choice("piece", 4)]
	n := nd.P("times", 12)
	end := nd.Str("end", 2)
	v := ""
	for i := 0; i < n; i++ {
		v += piece
	}
	v += end
	p := []string{"*" + "b", "*a*b", "*/:x", "*" + "ab*" + "c", "a*/b"}[nd.Choice("pattern", 5)]
	want := describes(v, p, len(piece)*n+2, len(p))
	got := utils.MatchResource(v, p)
	nd.Observe("match", got)
	nd.CoverIf(got, "match")
	nd.CoverIf(!got, "no match")
	nd.Assert(got == want, "MatchResource agrees with the pattern language on long values")
}

// H_MatchPieces: patterns of a fixed beginning and any sequence of pieces, against values with that
// beginning and an arbitrary rest.
func H_MatchPieces() {
	pieces := []string{"*", ":x", "/", "a", "ab/", " "}
	head := []string{"", "/ab/b/"}[nd.Choice("beginning", 2)]
	p, v := head, head
	for i := 0; i < nd.P("pieces", 3); i++ {
		p += pieces[nd.Choice("piece", len(pieces))]
	}
	n := nd.P("vlen", 4)
	l := nd.Int("length", 0, n)
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte("value")
		nd.Assume(c == 'a' || c == 'b' || c == '/' || c == ' ')
		b[i] = c
	}
	v += string(b)[:l]
	want := describes(v, p, len(head)+n, len(p))
	got := utils.MatchResource(v, p)
	nd.Observe("match", got)
	nd.CoverIf(got, "match")
	nd.CoverIf(!got, "no match")
	nd.Assert(got == want, "MatchResource agrees with the pattern language whatever precedes")
}

// H_MatchSegment: a segment of many characters is one segment, a run of many characters one run.
func H_MatchSegment() {
	n := nd.P("many", 70)
	v := ""
	for i := 0; i < n; i++ {
		v += "a"
	}
	v += nd.Str("end", 2)
	p := []string{":x", ":x/b", ":x :y", "*b", "a*/:y", "*/*", ":x*"}[nd.Choice("pattern", 7)]
	want := describes(v, p, n+2, len(p))
	got := utils.MatchResource(v, p)
	nd.Observe("match", got)
	nd.CoverIf(got, "match")
	nd.CoverIf(!got, "no match")
	nd.Assert(got == want, "MatchResource agrees with the pattern language on long segments")
}

// H_MatchTwice: two values and patterns one after the other; each answer is that of its own.
func H_MatchTwice() {
	nv, np := nd.P("vlen", 2), nd.P("plen", 2)
	v1, p1, v2, p2 := nd.Str("value", nv), nd.Str("pattern", np), nd.Str("second value", nv), nd.Str("second pattern", np)
	want1, want2 := describes(v1, p1, nv, np), describes(v2, p2, nv, np)
	got1 := utils.MatchResource(v1, p1)
	got2 := utils.MatchResource(v2, p2)
	nd.Observe("match", got2)
	nd.CoverIf(got1 && !got2, "a match, then none")
	nd.CoverIf(!got1 && got2, "none, then a match")
	nd.Assert(got1 == want1 && got2 == want2, "matching does not depend on what was matched before")
}

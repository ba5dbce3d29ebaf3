// Harnesses for package utils (C18, C20).
package main

import (
	"github.com/oarkflow/permission/utils"
	"verif/harness/nd"
)

func main() {
	nd.Main(map[string]func(){
		"H_MatchBytes": H_MatchBytes, "H_Compact": H_Compact, "H_CollTwice": H_CollTwice, "H_CollSpare": H_CollSpare, "H_SetSpare": H_SetSpare, "H_SetTwice": H_SetTwice, "H_MatchTwice": H_MatchTwice, "H_CollBig": H_CollBig, "H_Join": H_Join, "H_Filter": H_Filter, "H_Text": H_Text, "H_Pools": H_Pools, "H_MatchAlphabet": H_MatchAlphabet, "H_MatchLong": H_MatchLong, "H_MatchSegment": H_MatchSegment, "H_MatchPieces": H_MatchPieces, "H_MatchRepeat": H_MatchRepeat, "H_SetStructs": H_SetStructs, "H_SetDelimiters": H_SetDelimiters, "H_SetMixed": H_SetMixed, "H_SetLong": H_SetLong, "H_SetBig": H_SetBig, "H_SetSizes": H_SetSizes, "H_SetMaps": H_SetMaps, "H_SetIntMaps": H_SetIntMaps,
	})
}

// chars lists the characters of s as integers, -1 beyond its end.
func chars(s string, n int) []int {
	r := make([]int, n+2)
	for i := range r {
		r[i] = -1
	}
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func segEnd(c int) bool { return c == '/' || c == ' ' || c == -1 }

// describes is the reference: does the pattern describe the whole value? It fills the table
// m[i][j] = "p[j:] describes v[i:]" for strings of at most nv and np characters.
func describes(vs, ps string, nv, np int) bool {
	v, p := chars(vs, nv), chars(ps, np)
	m := make([][]bool, nv+1)
	for i := range m {
		m[i] = make([]bool, np+1)
	}
	for j := np; j >= 0; j-- {
		for i := nv; i >= 0; i-- {
			r := p[j] == -1 && v[i] == -1
			if j < np {
				// a star takes v[i:k]
				run := true
				star := false
				for k := i; k <= nv; k++ {
					star = star || run && m[k][j+1]
					run = run && v[k] != -1
				}
				// a parameter takes the segment v[i:k], its name is p[j+1:e]
				param := false
				name := true
				for e := j + 1; e <= np; e++ {
					seg := true
					for k := i; k <= nv; k++ {
						param = param || k > i && name && seg && segEnd(p[e]) && segEnd(v[k]) && m[k][e]
						seg = seg && !segEnd(v[k])
					}
					name = name && !segEnd(p[e])
				}
				lit := i < nv && p[j] != -1 && p[j] == v[i] && m[i+1][j+1]
				r = r || p[j] == '*' && star || p[j] == ':' && param ||
					p[j] != '*' && p[j] != ':' && lit
			}
			m[i][j] = r
		}
	}
	return m[0][0]
}

// H_MatchBytes: arbitrary bytes.
func H_MatchBytes() {
	nv, np := nd.P("vlen", 4), nd.P("plen", 3)
	v, p := nd.Str("value", nv), nd.Str("pattern", np)
	want := describes(v, p, nv, np)
	got := utils.MatchResource(v, p)
	nd.Observe("match", got)
	nd.CoverIf(got, "match")
	nd.CoverIf(!got, "no match")
	nd.Assert(got == want, "MatchResource agrees with the pattern language")
}

// H_MatchAlphabet: longer strings over the characters the language gives a meaning to.
func H_MatchAlphabet() {
	mk := func(name string, n int) string {
		l := nd.Int(name+" length", 0, n)
		b := make([]byte, n)
		for i := range b {
			c := nd.Byte(name)
			nd.Assume(c == 'a' || c == 'b' || c == '/' || c == ':' || c == '*' || c == ' ')
			b[i] = c
		}
		return string(b)[:l]
	}
	nv, np := nd.P("vlen", 5), nd.P("plen", 4)
	v, p := mk("value", nv), mk("pattern", np)
	want := describes(v, p, nv, np)
	got := utils.MatchResource(v, p)
	nd.Observe("match", got)
	nd.Assert(got == want, "MatchResource agrees with the pattern language")
}

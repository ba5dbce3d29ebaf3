package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type hResult struct {
	Harness   string           `json:"harness"`
	Bounds    string           `json:"bounds"`
	Params    map[string]int64 `json:"params"`
	Paths     int              `json:"paths"`
	Dead      int              `json:"paths_excluded_by_assumptions"`
	Merged    int              `json:"calls_merged"`
	MergedP   int              `json:"paths_inside_merged_calls"`
	Asserts   int              `json:"assertions_decided"`
	Decisions int              `json:"decisions"`
	Queries   int              `json:"solver_queries"`
	Unknown   int              `json:"solver_unknown"`
	SolverS   float64          `json:"solver_s"`
	WallS     float64          `json:"wall_s"`
	Steps     int64            `json:"ssa_instructions"`
	Covers    map[string]int   `json:"reachability_witnesses"`
	Functions int              `json:"functions_encoded"`
	Validated int              `json:"paths_validated_natively"`
	Reduced   []string         `json:"reduced_bound,omitempty"`
}

// knownFindings: lines "finding: property=<id> harness=<h> kind=<k> msg=<text>".
func knownFindings(prop string) []string {
	data, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	only := fs.String("only", "", "")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	data, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var all []CheckCfg
	if err := json.Unmarshal(data, &all); err != nil {
		fmt.Println("ERROR checks.json:", err)
		return 2
	}
	var cc *CheckCfg
	for i := range all {
		if all[i].Property == *prop {
			cc = &all[i]
		}
	}
	if cc == nil {
		fmt.Println("ERROR no check for", *prop)
		return 2
	}
	var hs []HarnessCfg
	pkgSet := map[string]bool{}
	var pkgs []string
	for _, h := range cc.Harnesses {
		if h.Tiers != "" && h.Tiers != *tier || *only != "" && h.Name != *only {
			continue
		}
		hs = append(hs, h)
		if !pkgSet[h.Pkg] {
			pkgSet[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
		}
	}
	prog, err := load(pkgs)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	work, err := os.MkdirTemp("", "verifcheck")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(work)
	budget := cc.BudgetQ
	if budget == 0 {
		budget = 300
	}
	if *tier == "thorough" {
		budget = cc.BudgetT
		if budget == 0 {
			budget = 3000
		}
	}
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var results []hResult
	funcs := map[string]bool{}
	var samples []any
	var reducedAll []string
	var missed []string
	states, transitions, validated, nViol := 0, 0, 0, 0
	known := knownFindings(*prop)
	usedKnown := map[string]bool{}
	var violOut []string
	reported := map[string]bool{}
	for _, h := range hs {
		params := h.Quick
		if *tier == "thorough" {
			params = map[string]int64{}
			for k, v := range h.Quick {
				params[k] = v
			}
			for k, v := range h.Thorough {
				params[k] = v
			}
		}
		left := time.Until(deadline)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		th := time.Now()
		r := explore(prog, h, params, left, runtime.NumCPU(), false)
		hr := hResult{Harness: h.Pkg + "." + h.Name, Bounds: h.Bounds, Params: params, Paths: r.Paths, Dead: r.DeadPaths, Merged: r.Merged, MergedP: r.MergedP,
			Asserts: r.Asserts, Decisions: r.Decisions, Queries: r.Queries, Unknown: r.Unknowns, SolverS: r.SolverT.Seconds(),
			Steps: r.Steps, Covers: r.Covers, Functions: len(r.Funcs)}
		for f := range r.Funcs {
			funcs[f] = true
		}
		for k, v := range r.Reduced {
			hr.Reduced = append(hr.Reduced, fmt.Sprintf("%s (x%d)", k, v))
		}
		// violations: replay against the real code
		unrep := map[string]string{}
		repKeys := map[string]bool{}
		for i := range r.Viol {
			v := &r.Viol[i]
			key := v.Kind + "|" + v.Msg
			if repKeys[key] || len(repKeys) >= 4 {
				continue
			}
			if len(violOut) > 0 && time.Now().After(deadline.Add(60*time.Second)) {
				continue
			}
			ok, how := reproduce(work, h, params, v)
			if !ok {
				if _, have := unrep[key]; !have {
					in, _ := json.Marshal(v.Inputs)
					unrep[key] = how + " inputs " + string(in)
				}
				continue
			}
			repKeys[key] = true
			v.OK = true
			desc := fmt.Sprintf("harness=%s kind=%s msg=%s", h.Name, v.Kind, v.Msg)
			isKnown := false
			for _, k := range known {
				if k == desc {
					isKnown = true
					if !usedKnown[k] {
						usedKnown[k] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, desc)
					}
				}
			}
			if isKnown {
				continue
			}
			nViol++
			path := filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", *prop, h.Name, nViol))
			os.MkdirAll(filepath.Dir(path), 0o755)
			rb, _ := json.MarshalIndent(map[string]any{"property": *prop, "package": h.Pkg, "harness": h.Name, "params": params, "violation": v, "observed": how, "faketime": h.Faketime, "race": h.Race,
				"how": "inputs are consumed in order by the harness's nd calls; 'bash /verif/replay.sh " + path + "' runs the real code on them"}, "", " ")
			os.WriteFile(path, rb, 0o644)
			if !reported[desc] {
				reported[desc] = true
				violOut = append(violOut, fmt.Sprintf("VIOLATION property=%s replay=%s %s: %s", *prop, path, desc, trim(how, 400)))
			}
		}
		for k, how := range unrep {
			if !repKeys[k] {
				hr.Reduced = append(hr.Reduced, "counterexample did not replay on the real code: "+k+": "+how)
			}
		}
		n, bad := validate(work, h, params, r)
		hr.Validated = n
		for _, b := range bad {
			if strings.Contains(b, "ended with assert") {
				// the real code breaks the assertion on inputs the encoding passes
				nViol++
				path := filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", *prop, h.Name, nViol))
				os.MkdirAll(filepath.Dir(path), 0o755)
				os.WriteFile(path, []byte(b), 0o644)
				violOut = append(violOut, fmt.Sprintf("VIOLATION property=%s replay=%s harness=%s validation run: %s", *prop, path, h.Name, trim(b, 300)))
				continue
			}
			hr.Reduced = append(hr.Reduced, "validation: "+b)
		}
		if len(hr.Reduced) > 0 {
			// a run cut short says nothing about reachability
		} else if r.Paths == 0 && len(violOut) == 0 {
			missed = append(missed, h.Name+": no path reached the end")
		}
		for _, c := range h.Covers {
			if r.Covers[c] == 0 && len(hr.Reduced) == 0 {
				missed = append(missed, h.Name+": witness "+c+" not reached")
			}
		}
		for c, k := range r.Covers {
			if k == 0 && len(hr.Reduced) == 0 {
				missed = append(missed, h.Name+": witness "+c+" not satisfiable")
			}
		}
		hr.WallS = time.Since(th).Seconds()
		sort.Strings(hr.Reduced)
		for _, x := range hr.Reduced {
			reducedAll = append(reducedAll, h.Name+": "+x)
		}
		results = append(results, hr)
		states += r.Paths + r.MergedP
		transitions += r.Decisions
		validated += n
		for i, s := range r.Samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": h.Name, "inputs": s.Inputs, "observations": s.Obs})
		}
		fmt.Printf("%-32s paths=%d merged=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs validated=%d violations=%d reduced=%d\n", h.Name, r.Paths, r.MergedP, r.Asserts, r.Queries, r.SolverT.Seconds(), hr.WallS, n, len(repKeys), len(hr.Reduced))
		if len(violOut) > 0 {
			break
		}
	}
	var fl []string
	for f := range funcs {
		if strings.Contains(f, "oarkflow/permission") {
			fl = append(fl, f)
		}
	}
	sort.Strings(fl)
	q, st := 0, 0.0
	for _, r := range results {
		q += r.Queries
		st += r.SolverS
	}
	cov := map[string]any{
		"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "samples": samples,
		"functions_encoded": fl, "harnesses": results, "solver_queries": q, "solver_s": st, "solver": strings.Join(solverBin, " "),
		"meaning":       "states = paths decided (whole-harness paths plus paths inside merged calls); transitions = branch decisions taken or refuted",
		"reduced_bound": reducedAll, "exhaustive": len(reducedAll) == 0 && len(violOut) == 0,
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": cc.Assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": len(violOut)}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for _, x := range reducedAll {
		fmt.Println("REDUCED-BOUND", trim(x, 600))
	}
	for _, v := range violOut {
		fmt.Println(v)
	}
	if len(violOut) > 0 {
		return 1
	}
	if len(missed) > 0 {
		for _, m := range missed {
			fmt.Println("ERROR", m)
		}
		return 2
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", *prop, *tier, time.Since(t0).Seconds())
	return 0
}

// cmdReplay runs the real code on the inputs of a replay file.
func cmdReplay(args []string) int {
	data, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var f struct {
		Property, Package, Harness string
		Params                     map[string]int64
		Violation                  Violation
		Faketime, Race             bool
	}
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	work, err := os.MkdirTemp("", "verifreplay")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(work)
	for _, in := range f.Violation.Inputs {
		b, _ := json.Marshal(in)
		fmt.Println("input", string(b))
	}
	ok, how := reproduce(work, HarnessCfg{Pkg: f.Package, Name: f.Harness, Faketime: f.Faketime, Race: f.Race}, f.Params, &f.Violation)
	fmt.Println(how)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		return 1
	}
	return 0
}

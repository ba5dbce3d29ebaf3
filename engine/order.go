package main

import (
	"bytes"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Symbolic interleavings. The goroutines of nd.Par are executed one after the other; what each does
// (locks, pool transfers, accesses to shared memory) is recorded, and the solver is asked over order
// variables, one per event, whether some interleaving that the locks permit lets two conflicting
// accesses happen together, or leaves every unfinished goroutine waiting for a lock.

const (
	evAcq = iota
	evRel
	evAccess
	evSync // operation on an internally synchronised object
	evPut
	evGet
)

type event struct {
	th    int
	kind  int
	obj   int // interned object
	write bool
	at    string
	edge  int // event this one must follow, -1
}

type tracer struct {
	evs     []event
	ids     map[any]int
	lastW   map[int]int
	last    map[int]int          // object -> last releasing event
	seg     []map[[2]int]bool    // per thread: accesses since its last synchronisation
	put     map[*Value][]int     // pool -> put events of the items it holds
	shared  map[int]map[int]bool // object -> threads
	written map[int]bool
	what    map[int]string
}

func newTracer(n int) *tracer {
	t := &tracer{ids: map[any]int{}, last: map[int]int{}, lastW: map[int]int{}, put: map[*Value][]int{}, shared: map[int]map[int]bool{}, written: map[int]bool{}, what: map[int]string{}}
	for i := 0; i < n; i++ {
		t.seg = append(t.seg, map[[2]int]bool{})
	}
	return t
}

func (t *tracer) id(k any) int {
	i, ok := t.ids[k]
	if !ok {
		i = len(t.ids)
		t.ids[k] = i
	}
	return i
}

func (t *tracer) add(e event) int {
	if e.kind != evAccess {
		clear(t.seg[e.th])
	}
	t.evs = append(t.evs, e)
	return len(t.evs) - 1
}

func (t *tracer) lock(th int, c *Value, acq, write bool, at string) {
	k := evRel
	if acq {
		k = evAcq
	}
	t.add(event{th: th, kind: k, obj: t.id(c), write: write, at: at, edge: -1})
}

func (t *tracer) sync(th int, c *Value, write bool, at string) {
	o := t.id(c)
	e := event{th: th, kind: evSync, obj: o, write: write, at: at, edge: -1}
	if l, ok := t.last[o]; ok && t.evs[l].th != th {
		e.edge = l
	}
	i := t.add(e)
	if write {
		t.last[o] = i
	}
}

func (t *tracer) access(th int, k any, write bool, what, at string) {
	o := t.id(k)
	w := 0
	if write {
		w = 1
	}
	if t.seg[th][[2]int{o, w}] || t.seg[th][[2]int{o, 1}] {
		return
	}
	t.seg[th][[2]int{o, w}] = true
	if t.shared[o] == nil {
		t.shared[o] = map[int]bool{}
	}
	t.shared[o][th] = true
	t.written[o] = t.written[o] || write
	t.what[o] = what
	e := event{th: th, kind: evAccess, obj: o, write: write, at: at, edge: -1}
	if l, ok := t.lastW[o]; ok && t.evs[l].th != th {
		e.edge = l
	}
	i := t.add(e)
	if write {
		t.lastW[o] = i
	}
}

type section struct {
	th, lock, acq, rel int
	write              bool
}

type ordQuery struct {
	text   string
	races  [][2]int
	n      int
	events int
}

// build makes the order constraints and the two questions.
func (t *tracer) build(n int) (decl string, race string, dead string, pairs [][2]int, kept int) {
	var sb strings.Builder
	v := func(i int) string { return fmt.Sprintf("o%d", i) }
	keep := make([]bool, len(t.evs))
	per := make([][]int, n)
	for i, e := range t.evs {
		if e.kind == evAccess && (len(t.shared[e.obj]) < 2 || !t.written[e.obj]) {
			continue
		}
		keep[i] = true
		per[e.th] = append(per[e.th], i)
		kept++
		fmt.Fprintf(&sb, "(declare-const o%d Int)\n", i)
	}
	sb.WriteString("(declare-const T Int)\n")
	for _, l := range per {
		for k := 1; k < len(l); k++ {
			fmt.Fprintf(&sb, "(assert (< %s %s))\n", v(l[k-1]), v(l[k]))
		}
	}
	for i, e := range t.evs {
		if keep[i] && e.edge >= 0 && e.kind == evAccess {
			// what was read decided how the goroutine went on, so once the read is done it saw that write
			fmt.Fprintf(&sb, "(assert (or (<= T %s) (< %s %s)))\n", v(i), v(e.edge), v(i))
		} else if keep[i] && e.edge >= 0 {
			fmt.Fprintf(&sb, "(assert (< %s %s))\n", v(e.edge), v(i))
		}
	}
	// critical sections
	var secs []*section
	for th, l := range per {
		open := map[int][]*section{}
		for _, i := range l {
			switch e := t.evs[i]; e.kind {
			case evAcq:
				s := &section{th: th, lock: e.obj, acq: i, rel: -1, write: e.write}
				secs = append(secs, s)
				open[e.obj] = append(open[e.obj], s)
			case evRel:
				if o := open[e.obj]; len(o) > 0 {
					o[len(o)-1].rel = i
					open[e.obj] = o[:len(o)-1]
				}
			}
		}
	}
	for a, s := range secs {
		for _, u := range secs[a+1:] {
			if s.th == u.th || s.lock != u.lock || !s.write && !u.write {
				continue
			}
			fmt.Fprintf(&sb, "(assert (or (<= T %s) (<= T %s)", v(s.acq), v(u.acq))
			if s.rel >= 0 {
				fmt.Fprintf(&sb, " (< %s %s)", v(s.rel), v(u.acq))
			}
			if u.rel >= 0 {
				fmt.Fprintf(&sb, " (< %s %s)", v(u.rel), v(s.acq))
			}
			sb.WriteString("))\n")
		}
	}
	// two conflicting accesses next to each other
	byObj := map[int][]int{}
	for i, e := range t.evs {
		if keep[i] && e.kind == evAccess {
			byObj[e.obj] = append(byObj[e.obj], i)
		}
	}
	var objs []int
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Ints(objs)
	var rb strings.Builder
	for _, o := range objs {
		l := byObj[o]
		for x, i := range l {
			for _, j := range l[x+1:] {
				if t.evs[i].th != t.evs[j].th && (t.evs[i].write || t.evs[j].write) {
					fmt.Fprintf(&rb, " (and (= %s T) (= %s T))", v(i), v(j))
					pairs = append(pairs, [2]int{i, j})
				}
			}
		}
	}
	if len(pairs) > 0 {
		race = "(assert (or" + rb.String() + "))\n"
	}
	// every unfinished goroutine waits for a lock
	at := func(th, k int) string { // k-th kept event of th is its next one
		i := per[th][k]
		c := fmt.Sprintf("(<= T %s)", v(i))
		if k > 0 {
			c = fmt.Sprintf("(and (< %s T) %s)", v(per[th][k-1]), c)
		}
		return c
	}
	isOpen := func(s *section) string {
		c := fmt.Sprintf("(< %s T)", v(s.acq))
		if s.rel >= 0 {
			c = fmt.Sprintf("(and %s (<= T %s))", c, v(s.rel))
		}
		return c
	}
	var db strings.Builder
	var notDone []string
	locks := 0
	for th := range per {
		if len(per[th]) == 0 {
			continue
		}
		lastEv := per[th][len(per[th])-1]
		notDone = append(notDone, fmt.Sprintf("(<= T %s)", v(lastEv)))
		fmt.Fprintf(&db, "(assert (or (< %s T)", v(lastEv))
		for k, i := range per[th] {
			e := t.evs[i]
			if e.kind != evAcq {
				continue
			}
			var why []string
			for _, s := range secs {
				if s.th != th && s.lock == e.obj && (e.write || s.write) {
					why = append(why, isOpen(s))
				}
			}
			if !e.write {
				for u := range per {
					for m, j := range per[u] {
						if f := t.evs[j]; u != th && f.kind == evAcq && f.obj == e.obj && f.write {
							why = append(why, at(u, m))
						}
					}
				}
			}
			if len(why) == 0 {
				continue
			}
			locks++
			fmt.Fprintf(&db, " (and %s (or %s))", at(th, k), strings.Join(why, " "))
		}
		db.WriteString("))\n")
	}
	if locks > 0 {
		dead = db.String() + "(assert (or " + strings.Join(notDone, " ") + "))\n"
	}
	return sb.String(), race, dead, pairs, kept
}

// decideOrders asks the solver about all interleavings of the recorded trace.
func (it *Interp) decideOrders(t *tracer, n int) {
	if !it.fresh() {
		return
	}
	var hb strings.Builder
	for _, e := range t.evs {
		if e.kind != evAccess || len(t.shared[e.obj]) > 1 && t.written[e.obj] {
			fmt.Fprintf(&hb, "%d.%d.%d.%v.%d.%s;", e.th, e.kind, e.obj, e.write, e.edge, e.at)
		}
	}
	h := hb.String()
	it.run.mu.Lock()
	if it.run.traces == nil {
		it.run.traces = map[string]bool{}
	}
	seen := it.run.traces[h]
	it.run.traces[h] = true
	it.run.mu.Unlock()
	if seen {
		return
	}
	decl, race, dead, pairs, kept := t.build(n)
	it.run.mu.Lock()
	it.run.OrdEvents += kept
	it.run.OrdPairs += len(pairs)
	it.run.Asserts += 2
	it.run.mu.Unlock()
	if race != "" {
		if ans, vals := it.askOrder(decl+race, kept, t); ans == "sat" {
			for _, p := range pairs {
				if vals[p[0]] == vals[-1] && vals[p[1]] == vals[-1] {
					a, b := t.evs[p[0]], t.evs[p[1]]
					it.parLog = t.schedule(vals)
					it.violation("race", fmt.Sprintf("data race on %s: %s in %s, %s in %s", t.what[a.obj], rw(a.write), short(a.at), rw(b.write), short(b.at)), it.model)
					panic(pathEnd{"race"})
				}
			}
			panic("inconsistent order model")
		} else if ans != "unsat" {
			unsup("order solver: %s", ans)
		}
	}
	if dead != "" {
		if ans, vals := it.askOrder(decl+dead, kept, t); ans == "sat" {
			it.parLog = t.schedule(vals)
			var who []string
			for th := 0; th < n; th++ {
				for i, e := range t.evs {
					if x, ok := vals[i]; ok && e.th == th && x >= vals[-1] {
						who = append(who, fmt.Sprintf("goroutine %d in %s", th, short(e.at)))
						break
					}
				}
			}
			it.violation("deadlock", "deadlock: "+strings.Join(who, ", "), it.model)
			panic(pathEnd{"deadlock"})
		} else if ans != "unsat" {
			unsup("order solver: %s", ans)
		}
	}
}

// schedule lists the events before the cut in the order of the model.
func (t *tracer) schedule(vals map[int]int) []string {
	var l []int
	for i := range t.evs {
		if x, ok := vals[i]; ok && x <= vals[-1] {
			l = append(l, i)
		}
	}
	sort.SliceStable(l, func(a, b int) bool { return vals[l[a]] < vals[l[b]] })
	var out []string
	for _, i := range l {
		e := t.evs[i]
		out = append(out, fmt.Sprintf("goroutine %d: %s of object %d in %s", e.th, []string{"lock", "unlock", "access", "synchronised operation", "pool put", "pool get"}[e.kind], e.obj, short(e.at)))
	}
	if len(out) > 60 {
		out = out[len(out)-60:]
	}
	return out
}

func (it *Interp) askOrder(q string, kept int, t *tracer) (string, map[int]int) {
	t0 := time.Now()
	it.sol.Queries++
	var vs strings.Builder
	for i, e := range t.evs {
		if e.kind != evAccess || len(t.shared[e.obj]) > 1 && t.written[e.obj] {
			fmt.Fprintf(&vs, "o%d ", i)
		}
	}
	cmd := exec.Command(solverBin[0], "-in", "-smt2", "-T:60")
	cmd.Stdin = strings.NewReader("(set-logic QF_IDL)\n" + q + "(check-sat)\n(get-value (T " + vs.String() + "))\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	_ = cmd.Run()
	it.sol.Time += time.Since(t0)
	ans, rest, _ := strings.Cut(out.String(), "\n")
	ans = strings.TrimSpace(ans)
	if ans != "sat" {
		if ans != "unsat" {
			it.sol.Unknowns++
		}
		return ans, nil
	}
	vals := map[int]int{}
	f := strings.FieldsFunc(rest, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for k := 0; k+1 < len(f); k += 2 {
		var x int
		val := f[k+1]
		if val == "-" && k+2 < len(f) {
			fmt.Sscan(f[k+2], &x)
			x = -x
			k++
		} else {
			fmt.Sscan(val, &x)
		}
		key := f[k]
		if val == "-" {
			key = f[k-1]
		}
		if key == "T" {
			vals[-1] = x
			continue
		}
		var i int
		fmt.Sscanf(key, "o%d", &i)
		vals[i] = x
	}
	return ans, vals
}

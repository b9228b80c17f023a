package main

// Checks: scenarios, their results, and the evidence.

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type Violation struct {
	rule string // what is violated
	pos  string // where in the source
	fn   string
	sc   string
	text string
}

func (v Violation) key() string { return v.rule + "|" + v.fn + "|" + v.sc }

type Check struct {
	P         *Prog
	id        string
	viol      []Violation
	seen      map[string]bool
	scenarios int
	outcomes  int
	cases     int
	captures  int
	loops     int
	sums      int
	steps     int
	writes    int
	obls      map[string]int // obligations by rule
	fns       map[string]bool
	rules     map[string]string
	samples   []string
	only      string
	verbose   bool
	dump      bool
	spaces    bool
	shardDir  string          // processes that share the work claim scenarios by creating files here
	all       int             // scenarios seen
	light     bool            // effects and obligations only, not what is selected
	keep      map[string]bool // the rules of the property
	compiling bool            // obligations of Parse count
}

// Part is what a process that analyses some of the scenarios reports
type Part struct {
	Viol      []PartViol
	N         [8]int
	Obls      map[string]int
	Fns       []string
	Samples   []string
	Scenarios int
}
type PartViol struct{ Rule, Pos, Fn, Sc, Text string }

func (c *Check) part() *Part {
	p := &Part{N: [8]int{c.scenarios, c.outcomes, c.cases, c.captures, c.loops, c.sums, c.steps, c.writes}, Obls: c.obls, Fns: sortedKeys(c.fns), Samples: c.samples, Scenarios: c.all}
	for _, v := range c.viol {
		p.Viol = append(p.Viol, PartViol{v.rule, v.pos, v.fn, v.sc, v.text})
	}
	return p
}

func (c *Check) add(p *Part) {
	for i, x := range []*int{&c.scenarios, &c.outcomes, &c.cases, &c.captures, &c.loops, &c.sums, &c.steps, &c.writes} {
		*x += p.N[i]
	}
	for k, n := range p.Obls {
		c.obls[k] += n
	}
	for _, f := range p.Fns {
		c.fns[f] = true
	}
	for _, s := range p.Samples {
		if len(c.samples) < 12 {
			c.samples = append(c.samples, s)
		}
	}
	for _, v := range p.Viol {
		c.violate(Violation{v.Rule, v.Pos, v.Fn, v.Sc, v.Text})
	}
}

func newCheck(p *Prog, id string) *Check {
	return &Check{P: p, id: id, seen: map[string]bool{}, obls: map[string]int{}, fns: map[string]bool{}, rules: map[string]string{}, only: os.Getenv("ONLY"), verbose: os.Getenv("VERBOSE") != "", dump: os.Getenv("DUMP") != ""}
}

func (c *Check) violate(v Violation) {
	if c.seen[v.key()] {
		return
	}
	c.seen[v.key()] = true
	c.viol = append(c.viol, v)
}

// S is a scenario that is being analysed
type S struct {
	*Eng
	c    *Check
	name string
	base *State
}

// rules whose obligations belong to the property of the check
type obFilter func(rule string) bool

// run analyses a scenario
func (c *Check) run(name string, f func(s *S)) {
	if c.only != "" && !strings.Contains(name, c.only) {
		return
	}
	c.all++
	if !c.claim() {
		return
	}
	c.scenarios++
	if len(c.samples) < 12 {
		c.samples = append(c.samples, name)
	}
	start := time.Now()
	e := newEng(c.P)
	s := &S{Eng: e, c: c, name: name}
	e.sc = &Scenario{Name: name}
	defer func() {
		c.steps += e.steps
		c.writes += e.writes
		if r := recover(); r != nil {
			text := fmt.Sprint(r)
			if _, ok := r.(undecided); !ok && c.verbose {
				text += string(debug.Stack())
			}
			c.violate(Violation{rule: "undecided", sc: name, pos: e.where(), fn: e.whereFn(), text: "the analysis cannot decide this: " + text})
		}
		if c.verbose {
			fmt.Printf("%-60s steps %8d loops %4d %.2fs\n", name, e.steps, e.loopN, time.Since(start).Seconds())
		}
	}()
	e.restarting(func() {
		s.base = e.initState()
		f(s)
	})
	for _, o := range e.obl {
		if c.light && !c.keep[o.rule] {
			continue
		}
		c.obls[o.rule]++
		if c.light && !o.ok {
			c.violate(Violation{rule: o.rule, pos: o.pos, fn: o.fn, sc: name, text: o.why})
		}
	}
	for m := range e.marks {
		c.fns[m] = true
	}
	c.loops += len(e.allLoops)
	c.sums += len(e.recs)
}

func (e *Eng) where() string {
	if e.lastIn == nil {
		return ""
	}
	return e.pos(e.lastIn)
}

func (e *Eng) whereFn() string {
	if e.lastIn == nil {
		return ""
	}
	return e.lastIn.Parent().String()
}

func (s *S) violate(rule, pos, fn, format string, a ...any) {
	if s.c.light && rule != "undecided" && !s.c.keep[rule] {
		return
	}
	s.c.violate(Violation{rule: rule, pos: pos, fn: fn, sc: s.name, text: fmt.Sprintf(format, a...)})
}

// parse compiles a path; the outcomes that are not excluded by the
// preconditions have to be a path
func (s *S) parse(st *State, tree *Node) []Outcome {
	var out []Outcome
	for _, o := range s.parseTree(st, tree) {
		if o.pan {
			s.violate("panic", s.failedAt(o.st), "", "Parse panics for %s: %s", tree.show(), s.why())
			continue
		}
		if o.st.imp != "" {
			s.violate("undecided", "", "Parse", "Parse of %s: %s", tree.show(), o.st.imp)
			continue
		}
		if _, ok := o.err.(VNil); !ok {
			s.violate("rejected", "", "Parse", "Parse returns an error for %s: %s", tree.show(), showVal(o.st, o.err))
			continue
		}
		out = append(out, o)
	}
	return out
}

func (s *S) failedAt(*State) string {
	for i := len(s.obl) - 1; i >= 0; i-- {
		if !s.obl[i].ok {
			return s.obl[i].pos
		}
	}
	return ""
}

func (s *S) why() string {
	for i := len(s.obl) - 1; i >= 0; i-- {
		if !s.obl[i].ok {
			return s.obl[i].rule + " at " + s.obl[i].pos + ": " + s.obl[i].why
		}
	}
	return "unknown reason"
}

func (s *S) eval(o Outcome) []Outcome { return s.evalPath(o.st, o.v) }

// evalPath evaluates a path; no outcome may be a panic or an error
func (s *S) evalPath(st *State, path Val) []Outcome {
	s.freeze(st, path, "compiled path")
	n := len(st.pc)
	rs := s.search(st, path)
	s.runSums(rs)
	all := append([]Outcome(nil), rs...)
	for _, r := range s.recs {
		if r.done {
			all = append(all, r.outs...)
		}
	}
	for i, r := range all {
		if s.c.dump {
			fmt.Printf("OUTCOME %d/%d %s panic:%v %s if %s\n%s", i, len(rs), showVal(r.st, r.v), r.pan, r.st.imp, condList(r.st, min(n, len(r.st.pc))), r.st.dumpEvents())
		}
		if r.pan {
			s.violate("panic", s.failedAt(r.st), "Search", "Search panics: %s", s.why())
			continue
		}
		if r.st.imp != "" {
			s.violate("undecided", "", "Search", "Search: %s", r.st.imp)
			continue
		}
		if i < len(rs) {
			if _, ok := r.v.(VNil); !ok {
				s.violate("error", "", "Search", "Search returns %s if %s", showVal(r.st, r.v), condList(r.st, n))
			}
		}
	}
	s.c.outcomes += len(all)
	var ok []Outcome
	for _, r := range rs {
		if !r.pan && r.st.imp == "" {
			ok = append(ok, r)
		}
	}
	return ok
}

func condList(st *State, n int) string {
	var x []string
	for _, c := range st.pc[n:] {
		x = append(x, c.key())
	}
	return strings.Join(x, " && ")
}

// show prints a tree the way it is written
func (n *Node) show() string {
	return strings.Trim(n.str().K(), `"`)
}

func (c *Check) counts() map[string]int {
	n := 0
	for _, k := range c.obls {
		n += k
	}
	return map[string]int{"scenarios": c.scenarios, "outcomes": c.outcomes, "cases": c.cases, "captures": c.captures, "loop_summaries": c.loops,
		"recursion_summaries": c.sums, "steps": c.steps, "writes": c.writes, "obligations": n, "functions": len(c.fns)}
}

func (c *Check) summary() string {
	var r []string
	for k := range c.obls {
		r = append(r, fmt.Sprintf("%s=%d", k, c.obls[k]))
	}
	sort.Strings(r)
	return fmt.Sprintf("%d scenarios, %d outcomes, %d cases, %d captures, %d loop summaries, %d recursion summaries, %d steps; obligations: %s", c.scenarios, c.outcomes, c.cases, c.captures, c.loops, c.sums, c.steps, strings.Join(r, " "))
}

var dbgUnknown = os.Getenv("UNK") != ""

// claim tells if this process is to analyse the scenario
func (c *Check) claim() bool {
	if c.shardDir == "" {
		return true
	}
	f, err := os.OpenFile(filepath.Join(c.shardDir, fmt.Sprint(c.all)), os.O_CREATE|os.O_EXCL, 0o600)
	if err != nil {
		if !os.IsExist(err) {
			panic(err)
		}
		return false
	}
	f.Close()
	return true
}

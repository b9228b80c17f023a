package main

// Find and ParseAndFind, compared with Search. Search (or the function
// that Find and Search have in common) is replaced by one that reports any
// number of paths.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type finder struct {
	*S
	doc  Val
	path Val
	n    *Lin
	errV Val

	parse func(st *State, args []Val) []Ret // replaces Parse
}

func newFinder(s *S) *finder {
	f := &finder{S: s, doc: s.docVal(), n: linA(newAtom("n", big0, maxInt64))}
	pt := s.P.typ("Path")
	st := pt.Underlying().(*types.Struct)
	v := VStruct{pt, nil}
	for i := 0; i < st.NumFields(); i++ {
		v.f = append(v.f, s.opaque(s.base, mkTerm(st.Field(i).Type(), "path."+st.Field(i).Name()), st.Field(i).Type()))
	}
	f.path = v
	f.errV = s.newErr(s.base, "search error")
	return f
}

// takesPaths tells which parameter of a function is called with paths
func (f *finder) takesPaths(fn *ssa.Function) int {
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if g, ok := ps.At(i).Type().Underlying().(*types.Signature); ok && g.Params().Len() == 1 && types.Identical(g.Params().At(0).Type(), f.P.typ("DocPath")) {
			return i
		}
	}
	return -1
}

func (f *finder) stubPath(st *State, args []Val) Val {
	i := args[0].(VInt)
	seg := f.P.typ("Segment")
	sst := seg.Underlying().(*types.Struct)
	o := f.alloc(st, seg, "stub path")
	o.arr = &Arr{elem: seg, gen: func(j *Lin) Val {
		v := VStruct{seg, nil}
		for k := 0; k < sst.NumFields(); k++ {
			v.f = append(v.f, f.opaque(st, mkTerm(sst.Field(k).Type(), "stub"+sst.Field(k).Name(), i, VInt{j}), sst.Field(k).Type()))
		}
		return v
	}}
	n := stubLen(i)
	return VStruct{f.P.typ("DocPath"), []Val{VSlice{o.id, linC(0), n, n}}}
}

func stubLen(i VInt) *Lin { return linA(termAtom(mkTerm(tInt, "stublen", i), big1, maxInt64)) }

// with runs a function while some functions are replaced
func (f *finder) with(which func(fn *ssa.Function) bool, run func()) {
	f.hook = func(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val) ([]Ret, bool) {
		if fn.Name() == "vtStubPath" {
			return one(st, f.stubPath(st, args)), true
		}
		if f.parse != nil && fn == f.P.fn("Parse") {
			return f.parse(st, args), true
		}
		if !which(fn) {
			return nil, false
		}
		cb := f.takesPaths(fn)
		off := len(args) - fn.Signature.Params().Len()
		var rets []Ret
		ev := &Ev{kind: "stub", text: fn.String()}
		for i, a := range args {
			if i != cb+off {
				ev.text += " " + showVal(st, a)
			}
		}
		st.event(ev)
		for _, r := range f.Call(st, f.P.fn("vtStubSearch"), []Val{VInt{f.n}, args[cb+off]}, nil, fr) {
			if r.panic || fn.Signature.Results().Len() == 0 {
				rets = append(rets, r)
				continue
			}
			bad := r.st.clone()
			bad.event(&Ev{kind: "stubfail"})
			rets = append(rets, Ret{st: r.st, val: VNil{types.Universe.Lookup("error").Type()}}, Ret{st: bad, val: f.errV})
		}
		return rets, true
	}
	defer func() { f.hook = nil }()
	run()
}

func (f *finder) stubs(st *State) (out []string) {
	for _, ev := range st.events() {
		if ev.kind == "stub" {
			out = append(out, ev.text)
		}
	}
	return out
}

// inLoop tells if an outcome has a stub call inside of a loop
func hasStubInLoop(evs []*Ev) bool {
	for _, ev := range evs {
		if ev.kind == "loop" {
			for _, p := range ev.loop.paths {
				for _, x := range p.evs {
					if x.kind == "stub" {
						return true
					}
				}
				if hasStubInLoop(p.evs) {
					return true
				}
			}
		}
	}
	return false
}

// stubLoop is the loop of the stub in which paths are reported
func (f *finder) isStubLoop(l *LoopEv) bool { return strings.HasSuffix(l.fn, "vtStubSearch") }

func (f *finder) emptyPath(st *State) bool {
	for _, x := range f.path.(VStruct).f {
		if sl, ok := x.(VSlice); ok && st.proveEq(sl.len, linC(0)) {
			return true
		}
	}
	return false
}

// results checks the list that is returned
func (f *finder) results(name string, r Outcome, want string) {
	f.c.cases++
	if r.pan {
		f.violate("panic", f.failedAt(r.st), name, "%s panics: %s", name, f.why())
		return
	}
	if r.st.imp != "" {
		f.violate("undecided", "", name, "%s: %s", name, r.st.imp)
		return
	}
	calls := f.stubs(r.st)
	if len(calls) == 0 && f.emptyPath(r.st) {
		n, ok := f.lenOf(r.st, r.v, "len").(VInt)
		if _, isNil := r.err.(VNil); !ok || !isNil || !r.st.proveEq(n.l, linC(0)) {
			f.violate("result", "", name, "%s returns %s for an empty path", name, showVal(r.st, r.v))
		}
		return
	}
	if hasStubInLoop(r.st.events()) || len(calls) != 1 || calls[0] != want {
		f.violate("search", "", name, "%s searches %v, Search searches %s", name, calls, want)
		return
	}
	_, isNil := r.err.(VNil)
	if !isNil && r.err.K() != f.errV.K() {
		f.violate("error", "", name, "%s returns the error %s, Search returns %s", name, showVal(r.st, r.err), f.errV.K())
		return
	}
	if isNil && f.failed(r) {
		f.violate("error", "", name, "%s returns no error where Search returns one", name)
		return
	}
	if _, ok := r.v.(VNil); ok {
		if isNil && !r.st.proveEq(f.n, linC(0)) {
			f.violate("result", "", name, "%s returns nil", name)
		}
		return
	}
	sl, ok := r.v.(VSlice)
	if !ok {
		f.violate("result", "", name, "%s returns %s", name, showVal(r.st, r.v))
		return
	}
	if !isNil && r.st.proveEq(sl.len, linC(0)) {
		return
	}
	segs, ok := listContent(r.st, r.st.obj(sl.obj).arr, sl.len)
	if ok && len(segs) == 0 && r.st.proveEq(f.n, linC(0)) {
		return
	}
	if !ok || len(segs) != 1 || segs[0].loop == nil || !f.isStubLoop(segs[0].loop) {
		f.violate("result", "", name, "%s does not return one node for every path Search reports: %s", name, segsKey(segs))
		return
	}
	lp := segs[0].loop
	cnt, _ := lp.counter()
	for _, p := range lp.paths {
		app := p.app[segs[0].acc]
		ok := len(app) == 1 && app[0].el != nil && cnt != nil
		if ok {
			i := VInt{linA(cnt.atom)}
			ok = app[0].el.K() == f.opaque(r.st, mkTerm(anyType, "stubNode", i, VInt{stubLen(i).addC(-1)}), anyType).K()
		}
		if !ok {
			f.violate("result", "", name, "%s returns %s for a path that Search reports, not its last node", name, segsKey(app))
		}
		f.c.cases++
	}
}

// failed tells if the search ended with an error in this outcome
func (f *finder) failed(r Outcome) bool {
	for _, ev := range r.st.events() {
		if ev.kind == "stubfail" {
			return true
		}
	}
	return false
}

// searches finds what Find has to call: Search, or the function that
// Search calls with a function for the paths
func (f *finder) searches() (which func(fn *ssa.Function) bool, want string) {
	which = func(fn *ssa.Function) bool {
		return fn != f.P.fn("Find") && fn.Parent() == nil && fn.Name() != "vtStubSearch" && f.takesPaths(fn) >= 0
	}
	direct := false
	search := f.P.fn("Search").String()
	mark := len(f.obl)
	f.with(which, func() {
		for _, r := range f.callTop(f.base.clone(), f.P.fn("Find"), f.doc, f.path) {
			for _, x := range f.stubs(r.st) {
				if strings.HasPrefix(x, search+" ") {
					direct = true
				}
			}
		}
	})
	f.obl = f.obl[:mark]
	if direct {
		return func(fn *ssa.Function) bool { return fn == f.P.fn("Search") }, search + " " + showVal(f.base, f.doc) + " " + showVal(f.base, f.path)
	}
	core := which
	which = func(fn *ssa.Function) bool { return fn != f.P.fn("Search") && core(fn) }
	f.with(which, func() {
		for _, r := range f.search(f.base.clone(), f.path) {
			calls := f.stubs(r.st)
			switch {
			case r.pan || r.st.imp != "":
				f.violate("undecided", "", "Search", "Search: %s %s", f.why(), r.st.imp)
			case len(calls) == 0 && f.emptyPath(r.st):
			case len(calls) != 1 || hasStubInLoop(r.st.events()):
				f.violate("undecided", "", "Search", "Find and Search have no search in common")
			default:
				want = calls[0]
				f.reports(r.st)
			}
		}
	})
	return which, want
}

// reports checks that Search reports every path it gets
func (f *finder) reports(st *State) {
	seen := false
	for _, ev := range st.events() {
		if ev.kind == "capture" {
			f.violate("reported", "", "Search", "Search reports a path of its own")
		}
		if ev.kind != "loop" || !f.isStubLoop(ev.loop) {
			continue
		}
		seen = true
		cnt, _ := ev.loop.counter()
		for _, p := range ev.loop.paths {
			n := 0
			for _, x := range p.evs {
				if x.kind != "capture" {
					continue
				}
				n++
				ok := false
				if v, isSt := x.loc.(VStruct); isSt && len(v.f) == 1 && cnt != nil {
					if sl, isSl := v.f[0].(VSlice); isSl {
						i := VInt{linA(cnt.atom)}
						j := linA(newAtom("j", big0, maxInt64))
						q := x.st.clone()
						q.addLin(stubLen(i).sub(j).addC(-1))
						ok = q.proveEq(sl.len, stubLen(i)) && q.arrRead(q.obj(sl.obj).arr, sl.off.add(j)).K() == q.arrRead(q.obj(f.stubPath(q, []Val{i}).(VStruct).f[0].(VSlice).obj).arr, j).K()
					}
				}
				if !ok {
					f.violate("reported", "", "Search", "Search reports %s instead of the path it gets", showVal(x.st, x.loc))
				}
			}
			if n != 1 {
				f.violate("reported", "", "Search", "Search reports %d paths instead of one", n)
			}
			f.c.cases++
		}
	}
	if !seen {
		f.violate("reported", "", "Search", "Search does not report the paths it gets")
	}
}

func c26(c *Check) {
	c.run("Find", func(s *S) {
		f := newFinder(s)
		which, want := f.searches()
		f.with(which, func() {
			for _, r := range s.callTop(s.base.clone(), s.P.fn("Find"), f.doc, f.path) {
				f.results("Find", r, want)
			}
		})
	})
	// ParseAndFind, Parse is replaced as well
	c.run("ParseAndFind", func(s *S) {
		f := newFinder(s)
		which, want := f.searches()
		text := strChunk(mkTerm(tString, "text"))
		parseErr := s.newErr(s.base, "parse error")
		f.parse = func(st *State, args []Val) []Ret {
			if len(args) != 1 || args[0].K() != text.K() {
				s.violate("parse", "", "ParseAndFind", "ParseAndFind parses %s", keys(args))
			}
			bad := st.clone()
			st.event(&Ev{kind: "parsed"})
			bad.event(&Ev{kind: "rejected"})
			return []Ret{{st: st, val: VTuple{[]Val{f.path, VNil{parseErr.(VTerm).t.typ}}}}, {st: bad, val: VTuple{[]Val{zeroVal(s.P.typ("Path")), parseErr}}}}
		}
		f.with(which, func() {
			for _, r := range s.callTop(s.base.clone(), s.P.fn("ParseAndFind"), f.doc, text) {
				how := ""
				for _, ev := range r.st.events() {
					if ev.kind == "parsed" || ev.kind == "rejected" {
						how += ev.kind
					}
				}
				switch {
				case how == "parsed" || r.pan || r.st.imp != "":
					f.results("ParseAndFind", r, want)
				case how != "rejected":
					s.violate("parse", "", "ParseAndFind", "ParseAndFind parses %q", how)
				default:
					s.c.cases++
					n, ok := s.lenOf(r.st, r.v, "len").(VInt)
					if len(f.stubs(r.st)) > 0 || hasStubInLoop(r.st.events()) || r.err.K() != parseErr.K() || !ok || !r.st.proveEq(n.l, linC(0)) {
						s.violate("parse", "", "ParseAndFind", "ParseAndFind returns %s and the error %s for a path that Parse rejects", showVal(r.st, r.v), showVal(r.st, r.err))
					}
				}
			}
		})
	})
}

func init() {
	checks["C26"] = &Spec{run: c26, rule: "Search (or the function that it has in common with Find) is replaced by a loop that reports any number of unknown paths and may return an error. Find has to append the last node of every path to its result, in every iteration, and to return the error; ParseAndFind has to do the same with the path that Parse returns, or to return the error of Parse. If the function is not Search itself, Search has to report every path.", min: map[string]int{"scenarios": 2, "cases": 4}}
}

package main

// Paths that are built with the functions of the package.

// mkPath builds a path
type mkPath struct {
	name  string
	f     func(s *S, st *State) []Outcome
	steps []bStep // what the path consists of
	args  []mkPath
	isApp bool // Append(args...)
	isRec bool // RecursiveDescent(args[0])
}

type bStep struct {
	kind string // root, cur, sel
	x    func(s *S) Step
	rec  bool // followed by ".."
}

func bVar(name, kind string, x Step) mkPath {
	return mkPath{name: name, f: func(s *S, st *State) []Outcome { return []Outcome{{st: st, v: s.pathVar(st, name)}} }, steps: []bStep{{kind, func(*S) Step { return x }, false}}}
}

func bKey() mkPath {
	k := strChunk(mkTerm(tString, "key"))
	return mkPath{name: "KeySelectorPath(key)", f: func(s *S, st *State) []Outcome { return s.callTop(st, s.P.fn("KeySelectorPath"), k) }, steps: []bStep{{"sel", func(*S) Step { return stepKey(k) }, false}}}
}

func bIdx() mkPath {
	i := newAtom("i", minInt64, maxInt64)
	return mkPath{name: "IndexSelectorPath(i)", f: func(s *S, st *State) []Outcome { return s.callTop(st, s.P.fn("IndexSelectorPath"), VInt{linA(i)}) },
		steps: []bStep{{"sel", func(*S) Step { return stepIndex(linA(i), strChunk(mkTerm(tString, "itoa", VInt{linA(i)}))) }, false}}}
}

func bParse(name string, tree *Node, steps ...bStep) mkPath {
	return mkPath{name: "Parse(" + name + ")", f: func(s *S, st *State) []Outcome { return s.parse(st, tree) }, steps: steps}
}

func bRec(m mkPath) mkPath {
	x := append([]bStep(nil), m.steps...)
	if len(x) > 0 {
		x[len(x)-1].rec = true
	}
	return mkPath{name: "RecursiveDescent(" + m.name + ")", steps: x, args: []mkPath{m}, isRec: true, f: func(s *S, st *State) (out []Outcome) {
		for _, p := range m.f(s, st) {
			if !p.pan {
				out = append(out, s.callTop(p.st, s.P.fn("RecursiveDescent"), p.v)...)
			}
		}
		return
	}}
}

func bApp(ms ...mkPath) mkPath {
	n := ""
	var x []bStep
	for i, m := range ms {
		if i > 0 {
			n += ", "
		}
		n += m.name
		x = append(x, m.steps...)
	}
	return mkPath{name: "Append(" + n + ")", steps: x, args: ms, isApp: true, f: func(s *S, st *State) (out []Outcome) {
		s.buildAll(st, ms, func(st *State, vs []Val) { out = append(out, s.appendPaths(st, vs...)...) })
		return
	}}
}

// buildAll builds some paths, and calls f with each combination of the
// outcomes
func (s *S) buildAll(st *State, ms []mkPath, f func(st *State, vs []Val)) {
	var do func(st *State, i int, vs []Val)
	do = func(st *State, i int, vs []Val) {
		if i == len(ms) {
			f(st, vs)
			return
		}
		for _, p := range ms[i].f(s, st) {
			if !p.pan {
				do(p.st, i+1, append(vs[:i:i], p.v))
			}
		}
	}
	do(st, 0, nil)
}

// selSteps are the steps of a path that starts at the root
func (m mkPath) selSteps(s *S) (out []Step, ok bool) {
	if len(m.steps) == 0 || m.steps[0].kind != "root" {
		return nil, false
	}
	deep := m.steps[0].rec
	for _, b := range m.steps[1:] {
		if b.kind != "sel" {
			return nil, false
		}
		x := b.x(s)
		if deep {
			x = x.deep()
		}
		out = append(out, x)
		deep = b.rec
	}
	if deep { // all descendants
		out = append(out, stepWild().deep())
	}
	return out, true
}

func builders() []mkPath {
	empty := mkPath{name: "Path{}", f: func(s *S, st *State) []Outcome { return []Outcome{{st: st, v: zeroVal(s.P.typ("Path"))}} }}
	root, cur, wild := bVar("SelectRootPath", "root", Step{}), bVar("SelectCurrentPath", "cur", Step{}), bVar("WildcardPath", "sel", stepWild())
	key, idx := bKey(), bIdx()
	rec, app := bRec, bApp
	return []mkPath{empty, root, cur, wild, key, idx, app(), app(root), app(root, key, idx), app(root, empty, key), app(empty, empty), rec(empty), rec(root), rec(wild), rec(key), rec(idx), app(rec(root), key), app(rec(root), idx), app(rec(root), wild), app(root, rec(key), idx), app(root, rec(idx), key), app(root, rec(wild)), app(root, rec(key)), app(rec(root), rec(key), idx), app(root, root), app(root, cur, key), app(wild, key), rec(app(root, key)), app(rec(app(root, key)), wild), rec(rec(root)), app(root, key, wild, idx), app(app(root, wild), app(idx, key)), app(root, rec(app(wild, key)), idx), app(rec(root), rec(key), rec(idx), wild)}
}

// built evaluates paths that start at the root: they select what they
// consist of
func (c *Check) built(ops []mkPath) {
	for _, m := range ops {
		if _, ok := m.selSteps(nil); ok {
			c.run(m.name, func(s *S) {
				steps, _ := m.selSteps(s)
				for _, o := range m.f(s, s.base.clone()) {
					if o.pan {
						s.violate("panic", s.failedAt(o.st), "", "%s panics: %s", m.name, s.why())
						continue
					}
					s.selects(o, steps)
				}
			})
		}
	}
}

// c21 builds paths out of paths: no memory of the older ones may be
// written, and the new ones select what they are made of
func c21(c *Check) {
	ops := []mkPath{}
	root, wild := bVar("SelectRootPath", "root", Step{}), bVar("WildcardPath", "sel", stepWild())
	k := func(s string) *Node { return ident(strC(s)) }
	sel := func(x Step, rec bool) bStep { return bStep{"sel", func(*S) Step { return x }, rec} }
	rt := func(rec bool) bStep { return bStep{"root", nil, rec} }
	a, b := stepKey(strC("a")), stepKey(strC("b"))
	parsed := []mkPath{
		bParse("$", pathTree(selr("$")), rt(false)),
		bParse("$.a", pathTree(chain(selr("$"), k("a"))), rt(false), sel(a, false)),
		bParse("$..a", pathTree(descent(selr("$"), k("a"))), rt(true), sel(a, false)),
		bParse("$..", pathTree(descentEnd(selr("$"))), rt(true), sel(stepWild(), false)),
		bParse("$.a.b", pathTree(chain(chain(selr("$"), k("a")), k("b"))), rt(false), sel(a, false), sel(b, false)),
		bParse("$['a','b']", pathTree(index(selr("$"), strLit(strC("'a'")), strLit(strC("'b'")))), rt(false), sel(stepUnion(a, b), false)),
		bParse("$[1:2]", pathTree(index(selr("$"), slice(dec("1"), nil, dec("2")))), rt(false), sel(stepSlice(linC(1), linC(2), 1), false)),
		bParse("/", simpleTree(), rt(false)),
		bParse("/a", simpleTree(simpleKey("a")), rt(false), sel(a, false)),
		bParse("/*", simpleTree(simpleStar()), rt(false), sel(stepWild(), false)),
		bParse("/a/*/b", simpleTree(simpleKey("a"), simpleStar(), simpleKey("b")), rt(false), sel(a, false), sel(stepWild(), false), sel(b, false)),
		bParse("a.b", pathTree(chain(k("a"), k("b"))), sel(a, false), sel(b, false)),
		bParse("*", pathTree(selr("*")), sel(stepWild(), false)),
	}
	key, idx := bKey(), bIdx()
	ops = append(ops, builders()...)
	ops = append(ops, parsed...)
	for _, p := range parsed {
		ops = append(ops, bRec(p), bApp(p, key), bApp(p), bApp(p, p))
	}
	c.built(ops)
	// extensions of existing paths
	ext := []mkPath{key, idx, wild, bRec(key), bApp(), bApp(key, idx)}
	for _, m := range ops {
		c.run("extensions of "+m.name, func(s *S) {
			for _, o := range m.f(s, s.base.clone()) {
				if o.pan {
					s.violate("panic", s.failedAt(o.st), "", "%s panics: %s", m.name, s.why())
					continue
				}
				s.freeze(o.st, o.v, "existing path")
				self := mkPath{name: "p", f: func(_ *S, st *State) []Outcome { return []Outcome{{st: st, v: o.v}} }}
				var derived []mkPath
				for _, x := range ext {
					derived = append(derived, bApp(self, x), bApp(root, self, x), bApp(x, self))
				}
				derived = append(derived, bRec(self), bRec(bRec(self)), bApp(self), bApp(self, self), bApp(bRec(self), key), bRec(bApp(self, wild)), parsed[0], parsed[2], parsed[3], parsed[8], parsed[9], parsed[10])
				for _, d := range derived {
					for _, q := range d.f(s, o.st.clone()) {
						if q.pan {
							s.violate("panic", s.failedAt(q.st), "", "%s panics, where p is %s: %s", d.name, m.name, s.why())
							continue
						}
						if q.st.imp != "" {
							s.violate("undecided", "", "", "%s: %s", d.name, q.st.imp)
							continue
						}
						s.c.cases++
						s.freeze(q.st, q.v, "derived path")
						old := mkPath{name: "q", f: func(_ *S, st *State) []Outcome { return []Outcome{{st: st, v: q.v}} }}
						for _, e := range []mkPath{bApp(old, key), bApp(self, wild), bRec(old), bApp(self, old, old), bRec(self), parsed[10]} {
							for _, r := range e.f(s, q.st.clone()) {
								if r.st.imp != "" && !r.pan {
									s.violate("undecided", "", "", "%s: %s", e.name, r.st.imp)
								}
								s.c.cases++
							}
						}
					}
				}
			}
			for _, b := range s.obl {
				switch b.rule {
				case "write-to-existing path", "write-to-derived path", "write-to-package variables", "unknown-store":
					if !b.ok {
						s.violate(b.rule, b.pos, b.fn, "%s", b.why)
					}
				}
			}
			s.obl = append(s.obl, Obl{"existing-unchanged", "", "", true, "", s.name})
		})
	}
}

func init() {
	checks["C21"] = &Spec{run: c21, rule: "Paths are built abstractly with every function of the package, out of each other. All memory reachable from a path and from package variables is marked; no store, append or copy of a later construction may write to it. The paths that start at the root are evaluated abstractly, and have to select what they are made of.", min: map[string]int{"scenarios": 100, "cases": 3000}}
}

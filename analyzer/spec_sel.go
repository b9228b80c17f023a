package main

// What paths select: C04 (indexes), C05 (slices), C06 (keys, wildcards,
// unions), C07 (recursive descent).

import (
	"fmt"
	"strings"
)

const (
	no = iota
	yes
	dontCare
)

// Step is one component of a path: which children it selects
type Step struct {
	desc     bool // after ..
	specials func(q *Q, parent Val) Specials
	sel      func(q *Q, c *Child) int
	back     bool // array elements in descending order
}

func (x Step) deep() Step { x.desc = true; return x }

// norm is the element an index denotes
func denotes(q *Q, c *Child, i *Lin) bool {
	if q.is(cGe0(i)) {
		return q.is(cEq(c.idx, i))
	}
	return q.is(cEq(c.idx, i.add(nodeLen(c.parent))))
}

func stepIndex(i *Lin, key VStr) Step {
	return Step{
		specials: func(q *Q, p Val) Specials {
			sp := Specials{keys: []VStr{key}}
			if q.is(cGe0(i)) {
				sp.idx = []*Lin{i}
			} else {
				sp.idx = []*Lin{i.add(nodeLen(p))}
			}
			return sp
		},
		sel: func(q *Q, c *Child) int {
			if c.obj {
				return b2i(c.special == 0)
			}
			return b2i(denotes(q, c, i))
		},
	}
}

func b2i(b bool) int {
	if b {
		return yes
	}
	return no
}

func stepKey(key VStr) Step {
	return Step{
		specials: func(q *Q, p Val) Specials { return Specials{keys: []VStr{key}} },
		sel: func(q *Q, c *Child) int {
			if c.obj {
				return b2i(c.special == 0)
			}
			if s, ok := key.constant(); ok && !numeric(s) {
				return no
			}
			return dontCare
		},
	}
}

// stepName is a key that is not a number
func stepName(key VStr) Step {
	x := stepKey(key)
	x.sel = func(q *Q, c *Child) int { return b2i(c.obj && c.special == 0) }
	return x
}

func numeric(s string) bool {
	for i, r := range s {
		if !(r >= '0' && r <= '9') && !(i == 0 && (r == '-' || r == '+')) {
			return false
		}
	}
	return s != ""
}

func stepWild() Step {
	return Step{
		specials: func(q *Q, p Val) Specials { return Specials{} },
		sel:      func(q *Q, c *Child) int { return yes },
	}
}

func stepUnion(parts ...Step) Step {
	return Step{
		specials: func(q *Q, p Val) Specials {
			var sp Specials
			for _, x := range parts {
				y := x.specials(q, p)
				sp.keys = append(sp.keys, y.keys...)
				sp.idx = append(sp.idx, y.idx...)
			}
			// each once
			var u Specials
			seen := map[string]bool{}
			for _, k := range sp.keys {
				if !seen["k"+k.K()] {
					seen["k"+k.K()] = true
					u.keys = append(u.keys, k)
				}
			}
			for _, k := range sp.idx {
				if !seen["i"+k.key()] {
					seen["i"+k.key()] = true
					u.idx = append(u.idx, k)
				}
			}
			return u
		},
		sel: func(q *Q, c *Child) int {
			r := no
			for _, x := range parts {
				d := *c
				if c.obj {
					// the special keys of the part
					d.special = -1
					for i, k := range x.specials(q, c.parent).keys {
						if q.e.canonKey(q.st, k).K() == c.name.K() {
							d.special = i
						}
					}
				}
				switch x.sel(q, &d) {
				case yes:
					r = yes
				case dontCare:
					if r == no {
						r = dontCare
					}
				}
			}
			return r
		},
	}
}

// stepSlice follows RFC 9535: bounds may be nil
func stepSlice(start, end *Lin, step int64) Step {
	return Step{
		back:     step < 0,
		specials: func(q *Q, p Val) Specials { return Specials{} },
		sel: func(q *Q, c *Child) int {
			if c.obj || step == 0 {
				return no
			}
			n := nodeLen(c.parent)
			norm := func(l *Lin) *Lin {
				if q.is(cGe0(l)) {
					return l
				}
				return l.add(n)
			}
			clamp := func(l, lo, hi *Lin) *Lin {
				if q.is(cLt(l, lo)) {
					return lo
				}
				if q.is(cLt(hi, l)) {
					return hi
				}
				return l
			}
			if step > 0 {
				lo, hi := linC(0), n
				if start != nil {
					lo = clamp(norm(start), linC(0), n)
				}
				if end != nil {
					hi = clamp(norm(end), linC(0), n)
				}
				if !q.is(cLe(lo, c.idx)) || !q.is(cLt(c.idx, hi)) {
					return no
				}
				return b2i(step == 1 || q.is(cDiv(linC(step), c.idx.sub(lo))))
			}
			hi, lo := n.addC(-1), linC(-1)
			if start != nil {
				hi = clamp(norm(start), linC(-1), n.addC(-1))
			}
			if end != nil {
				lo = clamp(norm(end), linC(-1), n.addC(-1))
			}
			if !q.is(cLt(lo, c.idx)) || !q.is(cLe(c.idx, hi)) {
				return no
			}
			return b2i(step == -1 || q.is(cDiv(linC(-step), hi.sub(c.idx))))
		},
	}
}

// selects checks that the evaluation of a path selects what the steps
// say
func (s *S) selects(o Outcome, steps []Step) {
	if s.c.light {
		s.reaches(o)
		return
	}
	n := len(o.st.pc)
	for _, r := range s.eval(o) {
		s.selectsIn(r.st, n, s.root(), "", steps, 0)
	}
	done := map[int]bool{}
	for again := true; again; {
		again = false
		for _, r := range s.recs {
			if !r.done || r.level < 0 || done[r.id] {
				continue
			}
			done[r.id] = true
			again = true
			for _, x := range r.outs {
				if !x.pan && x.st.imp == "" {
					s.selectsIn(x.st, len(r.gst.pc), r.node, fmt.Sprintf("prefix%d", r.id), steps, r.level)
				}
			}
		}
	}
}

// selectsIn checks the events of a state: the current node is top, and
// the steps from the given one on are applied to it
func (s *S) selectsIn(st *State, pc0 int, top Val, prefix string, steps []Step, from int) {
	e := s.Eng
	evs := st.events()
	e.validEvents(s, evs, top, prefix)
	// the lengths of the locations
	q0 := &Q{e: e, st: st}
	q0.walk(evs, nil, nil, "capture", func(ev *Ev, ord []int, encs []enc) {
		s.c.captures++
		if l, why := e.loc(ev.st, ev.loc); l == nil {
			s.violate("location", ev.text, "", "%s", why)
		} else if len(l.segs) != len(steps)-from+1 {
			s.violate("selection", ev.text, "Search", "a location of %d segments is selected by a path of %d components", len(l.segs), len(steps)-from)
		}
	})
	for t := from; t < len(steps); t++ {
		// recursive calls at the node selected by step t
		if !steps[t].desc {
			continue
		}
		n, bad := e.cases(st, pc0, func(q *Q) {
			chain, sel, ok := q.chain(top, steps, from, t)
			if !ok || sel == dontCare {
				return
			}
			fs := q.count(evs, "rec", top, prefix, chain)
			last := chain[len(chain)-1]
			want := b2i(sel == yes)
			if len(fs) > 1 || (len(fs) == 0 && want == yes && !q.is(e.typeIs(last.node, "ValueNode"))) || (len(fs) == 1 && want == no) {
				q.fail("the descendants of %s are visited %d times by '..'", last.node.K(), len(fs))
			}
			for _, f := range fs {
				if f.ev.rec.sum.level < 0 {
					f.ev.rec.sum.level = t
				} else if f.ev.rec.sum.level != t {
					q.fail("recursive call with another position in the path")
				}
			}
			// parents first
			for _, f := range fs {
				caps := q.under(evs, "capture", top, prefix, chain, f)
				if caps {
					q.fail("descendants of %s are visited before the node itself is reported", last.node.K())
				}
			}
		})
		s.c.cases += n
		if bad != "" {
			s.violate("selection", e.posOf(evs, "rec"), "Search", "%s", bad)
		}
	}
	n, bad := e.cases(st, pc0, func(q *Q) {
		chain, sel, ok := q.chain(top, steps, from, len(steps))
		if !ok {
			return
		}
		want := sel
		last := chain[len(chain)-1]
		if sel == yes {
			want = steps[len(steps)-1].sel(q, last)
		}
		if want == dontCare {
			return
		}
		fs := q.count(evs, "capture", top, prefix, chain)
		if len(fs) != want {
			q.fail("%s is selected %d times instead of %d", last.node.K(), len(fs), want)
		}
	})
	s.c.cases += n
	if bad != "" {
		s.violate("selection", e.posOf(evs, "capture"), "Search", "%s", bad)
	}
	s.ordered(evs, steps[from:])
}

// chain chooses children for the steps; sel tells if all but the last
// one are selected
func (q *Q) chain(top Val, steps []Step, from, to int) (chain []*Child, sel int, ok bool) {
	sel = yes
	if to < len(steps) {
		to++ // including the step with ..
	}
	cur := top
	for t := from; t < to; t++ {
		c := q.child(cur, t, steps[t].specials(q, cur))
		if c == nil {
			return nil, no, false
		}
		chain = append(chain, c)
		if t < to-1 && sel != no {
			switch steps[t].sel(q, c) {
			case no:
				sel = no
			case dontCare:
				sel = dontCare
			}
		}
		cur = c.node
	}
	return chain, sel, len(chain) > 0
}

// under tells if there is an event after f for the same location
func (q *Q) under(evs []*Ev, kind string, top Val, prefix string, chain []*Child, f found) bool {
	for _, x := range q.count(evs, kind, top, prefix, chain) {
		if len(x.ord) == len(f.ord) {
			for i := range x.ord {
				if x.ord[i] != f.ord[i] {
					if x.ord[i] > f.ord[i] && i == len(x.ord)-1 {
						return true
					}
					break
				}
			}
		}
	}
	return false
}

func (e *Eng) posOf(evs []*Ev, kind string) string {
	pos := ""
	for _, ev := range evs {
		if ev.loop != nil {
			pos = ev.loop.pos
		}
		if ev.kind == kind && ev.text != "" {
			pos = ev.text
		}
	}
	if pos == "" {
		pos = e.where()
	}
	return pos
}

// validEvents checks the locations of all events
func (e *Eng) validEvents(s *S, evs []*Ev, top Val, prefix string) {
	q := &Q{e: e}
	for _, kind := range []string{"capture", "rec"} {
		q.walk(evs, nil, nil, kind, func(ev *Ev, ord []int, encs []enc) {
			l, why := e.loc(ev.st, ev.loc)
			if l != nil {
				if l.prefix != prefix {
					why = "a path from another recursion"
				} else {
					why = e.validLoc(ev.st, l, top)
				}
			}
			e.obl = append(e.obl, Obl{"location", ev.text, "Search", why == "", kind + ": " + why, s.name})
			if why != "" {
				s.violate("location", ev.text, "Search", "%s: %s", kind, why)
			}
		})
	}
}

// ordered checks that elements of arrays are reported in order
func (s *S) ordered(evs []*Ev, steps []Step) {
	back := false
	for _, x := range steps {
		back = back || x.back
	}
	for _, ev := range evs {
		if ev.loop == nil || !located([]*Ev{ev}, "capture") && !located([]*Ev{ev}, "rec") {
			continue
		}
		if ev.loop.mapOf != nil {
			s.violate("order", ev.loop.pos, ev.loop.fn, "results in the order of a map iteration")
			continue
		}
		b, step := ev.loop.counter()
		if b == nil {
			s.violate("undecided", ev.loop.pos, ev.loop.fn, "no loop counter")
			continue
		}
		if step < 0 && !back {
			s.violate("order", ev.loop.pos, ev.loop.fn, "results in descending order")
		}
		for _, p := range ev.loop.paths {
			s.ordered(p.evs, steps)
		}
	}
}

// ---------------------------------------------------------------- literals

// symInt is a decimal integer literal of any value
func (s *S) symInt(st *State, name string) VStr {
	first := s.runeVar(st, name, rs('1', '9'))
	return mkStr(first, star1(name, rs('0', '9')))
}

// symIdent is an identifier of ASCII letters, digits and underscores
func (s *S) symIdent(st *State, name string) VStr {
	letters := rs('A', 'Z', 'a', 'z', '_', '_')
	return mkStr(s.runeVar(st, name, letters), star1(name, letters.union(rs('0', '9'))))
}

// symChars is any number of characters of a class
func (s *S) symChars(name string, cls RuneSet) SElem { return star1(name, cls) }

// intLit returns the states in which the literal fits, and its value
func (s *S) intLit(st *State, t VStr) (*State, *Lin) {
	for _, r := range s.parseInt(st.clone(), t, 10, 64, false, tInt) {
		tu := r.val.(VTuple)
		if _, ok := tu.f[1].(VNil); ok {
			return r.st, tu.f[0].(VInt).l
		}
	}
	s.undecide("no value for %s", t.K())
	return nil, nil
}

func init() {
	sel := "For every template of a path the compiler and the evaluator are analysed on an arbitrary document; the set of callback calls of the resulting state is compared with the children the property selects, for every case of the lengths, types, names and indexes the code distinguishes, and the child that is none of the special ones. "
	checks["C04"] = &Spec{run: c04, rule: sel + "Templates: an index literal of any value (also negated) in every position of a path, and IndexSelectorPath of any int.", min: map[string]int{"scenarios": 19, "captures": 19, "cases": 100}}
	checks["C05"] = &Spec{run: c05, rule: sel + "Templates: slices with every combination of omitted, any, any negated and zero bounds, and steps omitted, 0, 1, 2, 3, -1, -2, and the extreme ones.", min: map[string]int{"scenarios": 312, "captures": 312, "cases": 1000}}
	checks["C06"] = &Spec{run: c06, rule: sel + "Templates: keys, wildcards and unions (of keys, indexes, slices, wildcards and filters) in every position of a path.", min: map[string]int{"scenarios": 77, "captures": 77, "cases": 150}}
	checks["C07"] = &Spec{run: c07, rule: sel + "Templates: '..' in every position of a path; paths built with RecursiveDescent and Append; the recursion is summarized for a node of any depth.", min: map[string]int{"scenarios": 49, "captures": 49, "cases": 300}}
}

// selection analyses the path of a tree, and compares what it selects
// with the steps
func (c *Check) selection(name string, mk func(s *S, st *State) (*State, *Node, []Step)) {
	if c.spaces {
		name += " with white space"
	}
	c.run(name, func(s *S) {
		st, tree, steps := mk(s, s.base.clone())
		if c.spaces {
			tree = spaced(tree)
		}
		for _, o := range s.parse(st, tree) {
			s.selects(o, steps)
		}
	})
}

// spaced makes the scenarios with white space around the operators
func (c *Check) spaced(f func()) {
	c.spaces = true
	f()
	c.spaces = false
}

// around puts a component in the places where it can be in a path
func (c *Check) around(name string, isSlice bool, mk func(s *S, st *State) (*State, *Node, Step)) {
	if c.light {
		c.aroundLight(name, isSlice, mk)
		return
	}
	a := stepKey(strC("a"))
	ka := func() *Node { return ident(strC("a")) }
	c.selection("$["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		return st, pathTree(index(selr("$"), n)), []Step{x}
	})
	c.selection("$.a["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		return st, pathTree(index(chain(selr("$"), ka()), n)), []Step{a, x}
	})
	c.selection("$["+name+"].a", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		return st, pathTree(chain(index(selr("$"), n), ka())), []Step{x, a}
	})
	c.selection("$["+name+",'b']", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		return st, pathTree(index(selr("$"), n, strLit(strC("'b'")))), []Step{stepUnion(x, stepKey(strC("b")))}
	})
	c.selection("$.a.b["+name+",'b']", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		kb := ident(strC("b"))
		return st, pathTree(index(chain(chain(selr("$"), ka()), kb), n, strLit(strC("'b'")))), []Step{a, stepKey(strC("b")), stepUnion(x, stepKey(strC("b")))}
	})
	c.selection("$.*['b',"+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		return st, pathTree(index(chain(selr("$"), selr("*")), strLit(strC("'b'")), n)), []Step{stepWild(), stepUnion(stepKey(strC("b")), x)}
	})
	c.selection("$..["+name+",'b']", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		u := []Step{stepUnion(x, stepKey(strC("b"))).deep()}
		if isSlice {
			return st, pathTree(index(descentEnd(selr("$")), n, strLit(strC("'b'")))), u
		}
		return st, pathTree(descent(selr("$"), arrayLit(n, strLit(strC("'b'"))))), u
	})
	c.selection("$..["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		if isSlice {
			return st, pathTree(index(descentEnd(selr("$")), n)), []Step{x.deep()}
		}
		return st, pathTree(descent(selr("$"), arrayLit(n))), []Step{x.deep()}
	})
	c.selection("$..a["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
		st, n, x := mk(s, st)
		return st, pathTree(index(descent(selr("$"), ka()), n)), []Step{a.deep(), x}
	})
}

func c04(c *Check) {
	idx := func(neg bool, lit func(s *S, st *State) VStr) func(s *S, st *State) (*State, *Node, Step) {
		return func(s *S, st *State) (*State, *Node, Step) {
			t := lit(s, st)
			st, i := s.intLit(st, t)
			n := numLit("DecimalLiteral", t)
			if neg {
				return st, minus(n), stepIndex(i.neg(), concat(strC("-"), t))
			}
			return st, n, stepIndex(i, t)
		}
	}
	sym := func(s *S, st *State) VStr { return s.symInt(st, "i") }
	zero := func(s *S, st *State) VStr { return strC("0") }
	c.around("i", false, idx(false, sym))
	c.spaced(func() { c.around("i", false, idx(false, sym)) })
	c.around("-i", false, idx(true, sym))
	c.around("0", false, idx(false, zero))
	c.run("IndexSelectorPath(i)", func(s *S) {
		st := s.base.clone()
		i := newAtom("i", minInt64, maxInt64)
		for _, p := range s.callTop(st, s.P.fn("IndexSelectorPath"), VInt{linA(i)}) {
			s.joined(p, []Step{stepIndex(linA(i), strChunk(mkTerm(tString, "itoa", VInt{linA(i)})))})
		}
	})
}

// joined checks the path Append(SelectRootPath, p)
func (s *S) joined(p Outcome, steps []Step) {
	if p.pan {
		s.violate("panic", s.failedAt(p.st), "", "panic: %s", s.why())
		return
	}
	for _, o := range s.appendPaths(p.st, s.rootPath(p.st), p.v) {
		s.selects(o, steps)
	}
}

func (s *S) rootPath(st *State) Val { return s.pathVar(st, "SelectRootPath") }

func (s *S) pathVar(st *State, name string) Val {
	g := s.P.Root.Var(name)
	return s.load(st, s.global(st, g), s.P.typ("Path"), nil)
}

func (s *S) appendPaths(st *State, ps ...Val) []Outcome {
	sl := s.newSlice(st, s.P.typ("Path"), ps, "arguments")
	var out []Outcome
	for _, o := range s.callTop(st, s.P.fn("Append"), sl) {
		if o.pan {
			s.violate("panic", s.failedAt(o.st), "Append", "Append panics: %s", s.why())
			continue
		}
		out = append(out, o)
	}
	return out
}

func c06(c *Check) {
	c.around("'k'", false, func(s *S, st *State) (*State, *Node, Step) {
		return st, strLit(strC("'k'")), stepKey(strC("k"))
	})
	c.around("*", false, func(s *S, st *State) (*State, *Node, Step) {
		return st, selr("*"), stepWild()
	})
	abc := func() {
		c.selection("$.a.b.c", func(s *S, st *State) (*State, *Node, []Step) {
			n := chain(chain(chain(selr("$"), ident(strC("a"))), ident(strC("b"))), ident(strC("c")))
			return st, pathTree(n), []Step{stepKey(strC("a")), stepKey(strC("b")), stepKey(strC("c"))}
		})
	}
	abc()
	c.spaced(abc)
	c.selection("a long union", func(s *S, st *State) (*State, *Node, []Step) {
		var n []*Node
		var x []Step
		for i := 0; i < 7; i++ {
			n = append(n, strLit(strC(fmt.Sprintf("'k%d'", i))))
			x = append(x, stepKey(strC(fmt.Sprintf("k%d", i))))
		}
		return st, pathTree(index(selr("$"), n...)), []Step{stepUnion(x...)}
	})
	c.spaced(func() {
		c.around("'k'", false, func(s *S, st *State) (*State, *Node, Step) {
			return st, strLit(strC("'k'")), stepKey(strC("k"))
		})
	})
	// keys of any characters
	c.around("key", false, func(s *S, st *State) (*State, *Node, Step) {
		k := s.symIdent(st, "key")
		return st, ident(k), stepName(k)
	})
	c.selection("$.key", func(s *S, st *State) (*State, *Node, []Step) {
		k := s.symIdent(st, "key")
		return st, pathTree(chain(selr("$"), ident(k))), []Step{stepName(k)}
	})
	c.selection("$.*.key.b", func(s *S, st *State) (*State, *Node, []Step) {
		k := s.symIdent(st, "key")
		return st, pathTree(chain(chain(chain(selr("$"), selr("*")), ident(k)), ident(strC("b")))), []Step{stepWild(), stepName(k), stepName(strC("b"))}
	})
	for _, quote := range []string{"'", "\""} {
		lit := func(s *S, st *State) (*Node, VStr) {
			k := mkStr(s.symChars("key", rsAll.minus(rsOf(quote+"\\\r\n\u2028\u2029"))))
			return strLit(concat(concat(strC(quote), k), strC(quote))), k
		}
		c.selection("$["+quote+"key"+quote+"]", func(s *S, st *State) (*State, *Node, []Step) {
			n, k := lit(s, st)
			return st, pathTree(index(selr("$"), n)), []Step{stepKey(k)}
		})
		c.selection("$."+quote+"key"+quote, func(s *S, st *State) (*State, *Node, []Step) {
			n, k := lit(s, st)
			return st, pathTree(chain(selr("$"), n)), []Step{stepKey(k)}
		})
		c.selection("$["+quote+"key"+quote+",'b']", func(s *S, st *State) (*State, *Node, []Step) {
			n, k := lit(s, st)
			return st, pathTree(index(selr("$"), n, strLit(strC("'b'")))), []Step{stepUnion(stepKey(k), stepKey(strC("b")))}
		})
	}
	c.run("KeySelectorPath(key)", func(s *S) {
		st := s.base.clone()
		k := strChunk(mkTerm(tString, "key"))
		for _, p := range s.callTop(st, s.P.fn("KeySelectorPath"), k) {
			s.joined(p, []Step{stepKey(k)})
		}
	})
	c.run("WildcardPath", func(s *S) {
		st := s.base.clone()
		s.joined(Outcome{st: st, v: s.pathVar(st, "WildcardPath")}, []Step{stepWild()})
	})
	// longer unions, of parts of all kinds
	type part struct {
		name string
		n    *Node
		x    Step
	}
	key := func(k string) part { return part{"'" + k + "'", strLit(strC("'" + k + "'")), stepKey(strC(k))} }
	idx := func(i int64) part {
		t := strC(fmt.Sprint(i))
		if i < 0 {
			return part{fmt.Sprint(i), minus(dec(fmt.Sprint(-i))), stepIndex(linC(i), t)}
		}
		return part{fmt.Sprint(i), dec(fmt.Sprint(i)), stepIndex(linC(i), t)}
	}
	sl := part{"4:6", slice(dec("4"), nil, dec("6")), stepSlice(linC(4), linC(6), 1)}
	odd := part{"1:8:2", slice(dec("1"), nil, dec("8"), nil, dec("2")), stepSlice(linC(1), linC(8), 2)}
	wild := part{"*", selr("*"), stepWild()}
	flt := func(x Ex) part { return part{"?(" + x.name + ")", filter(x.tree), stepFilter(x)} }
	gt, root := flt(exBin(pathEx("@", "m"), ">", exInt(3))), flt(exBin(pathEx("$", "k"), "==", pathEx("@", "m")))
	for _, u := range [][]part{
		{key("a"), key("b"), key("c")},
		{idx(0), idx(3), idx(1)},
		{idx(2), key("b"), sl},
		{key("b"), idx(-1), wild},
		{idx(0), idx(1), idx(2), idx(5)},
		{key("a"), sl, idx(0), idx(-2), key("e")},
		{wild, key("a")},
		{key("a"), key("a")},
		{idx(1), idx(1), idx(1)},
		{sl, odd, idx(7)},
		{gt, key("a"), key("b")},
		{key("a"), idx(1), gt},
		{sl, gt, root},
		{root, idx(-1), gt, key("m")},
		{gt, gt},
		{wild, gt, key("a")},
	} {
		name := ""
		var ns []*Node
		var xs []Step
		for i, y := range u {
			if i > 0 {
				name += ","
			}
			name += y.name
			ns = append(ns, y.n)
			xs = append(xs, y.x)
		}
		c.selection("$["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
			if strings.Contains(name, "?") {
				s.shape = named(map[string]string{"m": "int", "k": "int"})
			}
			return st, pathTree(index(selr("$"), ns...)), []Step{stepUnion(xs...)}
		})
		if !strings.Contains(name, ":") {
			c.selection("$..["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
				if strings.Contains(name, "?") {
					s.shape = named(map[string]string{"m": "int", "k": "int"})
				}
				return st, pathTree(descent(selr("$"), arrayLit(ns...))), []Step{stepUnion(xs...).deep()}
			})
		}
	}
}

// Bound is a bound or step of a slice
type Bound struct {
	name string
	mk   func(s *S, st *State) (*State, *Node, *Lin) // nil: omitted
}

func boundSym(name string, neg bool) Bound {
	n := name
	if neg {
		n = "-" + name
	}
	return Bound{n, func(s *S, st *State) (*State, *Node, *Lin) {
		t := s.symInt(st, name)
		st, i := s.intLit(st, t)
		n := numLit("DecimalLiteral", t)
		if neg {
			return st, minus(n), i.neg()
		}
		return st, n, i
	}}
}

func boundConst(k int64) Bound {
	return Bound{fmt.Sprint(k), func(s *S, st *State) (*State, *Node, *Lin) {
		if k < 0 {
			return st, minus(dec(fmt.Sprint(k)[1:])), linC(k)
		}
		return st, dec(fmt.Sprint(k)), linC(k)
	}}
}

var boundNone = Bound{}

func mkSlice(a, b, c Bound) (string, func(s *S, st *State) (*State, *Node, Step)) {
	name := a.name + ":" + b.name
	if c.mk != nil {
		name += ":" + c.name
	}
	return name, func(s *S, st *State) (*State, *Node, Step) {
		var parts []*Node
		var lo, hi, by *Lin
		step := int64(1)
		if a.mk != nil {
			var n *Node
			st, n, lo = a.mk(s, st)
			parts = append(parts, n)
		}
		parts = append(parts, nil)
		if b.mk != nil {
			var n *Node
			st, n, hi = b.mk(s, st)
			parts = append(parts, n)
		}
		if c.mk != nil {
			var n *Node
			st, n, by = c.mk(s, st)
			parts = append(parts, nil, n)
			step, _ = by.constInt()
		}
		return st, slice(parts...), stepSlice(lo, hi, step)
	}
}

func c05(c *Check) {
	as := []Bound{boundNone, boundSym("i", false), boundSym("i", true), boundConst(0)}
	bs := []Bound{boundNone, boundSym("j", false), boundSym("j", true), boundConst(0)}
	steps := []Bound{boundNone, boundConst(1), boundConst(2), boundConst(3), boundConst(-1), boundConst(-2), boundConst(0), boundConst(9223372036854775807), boundConst(-9223372036854775807)}
	for _, a := range as {
		for _, b := range bs {
			for _, x := range steps {
				name, mk := mkSlice(a, b, x)
				c.selection("$["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
					st, n, y := mk(s, st)
					return st, pathTree(index(selr("$"), n)), []Step{y}
				})
				c.selection("$["+name+",'b']", func(s *S, st *State) (*State, *Node, []Step) {
					st, n, y := mk(s, st)
					return st, pathTree(index(selr("$"), n, strLit(strC("'b'")))), []Step{stepUnion(y, stepKey(strC("b")))}
				})
			}
		}
	}
	c.spaced(func() {
		for _, p := range [][3]Bound{{as[1], bs[1], boundNone}, {as[0], bs[1], steps[2]}} {
			name, mk := mkSlice(p[0], p[1], p[2])
			c.around(name, true, mk)
		}
	})
	for _, p := range [][3]Bound{{as[1], bs[1], boundNone}, {as[2], bs[0], boundConst(2)}, {as[0], bs[2], boundConst(-1)}, {as[0], bs[0], boundNone}} {
		name, mk := mkSlice(p[0], p[1], p[2])
		c.around(name, true, mk)
	}
}

func c07(c *Check) {
	k := func(s string) *Node { return ident(strC(s)) }
	a, b := stepKey(strC("a")), stepKey(strC("b"))
	root := selr("$")
	for _, x := range []struct {
		name  string
		tree  *Node
		steps []Step
	}{
		{"$..", descentEnd(root), []Step{stepWild().deep()}},
		{"$..*", descent(root, selr("*")), []Step{stepWild().deep()}},
		{"$..a", descent(root, k("a")), []Step{a.deep()}},
		{"$.b..", descentEnd(chain(root, k("b"))), []Step{b, stepWild().deep()}},
		{"$.b..a", descent(chain(root, k("b")), k("a")), []Step{b, a.deep()}},
		{"$..a.b", descent(root, chain(k("a"), k("b"))), []Step{a.deep(), b}},
		{"$..a..b", descent(descent(root, k("a")), k("b")), []Step{a.deep(), b.deep()}},
		{"$..a..", descentEnd(descent(root, k("a"))), []Step{a.deep(), stepWild().deep()}},
		{"$..a.*", descent(root, chain(k("a"), selr("*"))), []Step{a.deep(), stepWild()}},
		{"$..*.b", descent(root, chain(selr("*"), k("b"))), []Step{stepWild().deep(), b}},
		{"$..['a','b']", descent(root, arrayLit(strLit(strC("'a'")), strLit(strC("'b'")))), []Step{stepUnion(a, b).deep()}},
		{"$..[*]", descent(root, arrayLit(selr("*"))), []Step{stepWild().deep()}},
		{"$[*]..a", descent(index(root, selr("*")), k("a")), []Step{stepWild(), a.deep()}},
		{"$..a.b..c", descent(descent(root, chain(k("a"), k("b"))), k("c")), []Step{a.deep(), b, stepKey(strC("c")).deep()}},
		{"$..a[0].b", chain(index(descent(root, k("a")), dec("0")), k("b")), []Step{a.deep(), stepIndex(linC(0), strC("0")), b}},
		{"$..['a'].b", descent(root, chain(arrayLit(strLit(strC("'a'"))), k("b"))), []Step{a.deep(), b}},
		{"$..[0:1].b", chain(index(descentEnd(root), slice(dec("0"), nil, dec("1"))), k("b")), []Step{stepSlice(linC(0), linC(1), 1).deep(), b}},
		{"$..a[0]..b", descent(index(descent(root, k("a")), dec("0")), k("b")), []Step{a.deep(), stepIndex(linC(0), strC("0")), b.deep()}},
	} {
		one := func() {
			c.selection(x.name, func(s *S, st *State) (*State, *Node, []Step) {
				return st, pathTree(x.tree), x.steps
			})
		}
		one()
		if strings.Count(x.name, "..") == 1 {
			c.spaced(one)
		}
	}
	// paths with recursive descents that are built
	rt := func(rec bool) bStep { return bStep{"root", nil, rec} }
	key, idx, wild := bKey(), bIdx(), bVar("WildcardPath", "sel", stepWild())
	pr := bParse("$", pathTree(root), rt(false))
	pa := bParse("$.a", pathTree(chain(root, k("a"))), rt(false), bStep{"sel", func(*S) Step { return a }, false})
	pd := bParse("$..a", pathTree(descent(root, k("a"))), rt(true), bStep{"sel", func(*S) Step { return a }, false})
	rel := bParse("a.b", pathTree(chain(k("a"), k("b"))), bStep{"sel", func(*S) Step { return a }, false}, bStep{"sel", func(*S) Step { return b }, false})
	sr := bVar("SelectRootPath", "root", Step{})
	c.built([]mkPath{bRec(sr), bRec(pr), bRec(pa), bRec(pd), bApp(bRec(sr), key), bApp(bRec(pr), idx), bApp(bRec(pa), key), bApp(bRec(pa), wild), bApp(bRec(pa), rel), bApp(bRec(pd), key),
		bApp(sr, bRec(key), idx), bApp(sr, bRec(rel), wild), bApp(pa, bRec(idx), key), bApp(pa, bRec(wild)), bApp(pa, key, bRec(key)), bApp(bRec(bApp(pa, key)), wild), bApp(bRec(bRec(pa)), key)})
}

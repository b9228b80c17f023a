package main

// Properties of the whole library: what must hold at every instruction,
// for a corpus of path templates that covers the language, evaluated on
// an arbitrary document.

import (
	"fmt"
	"strings"
)

// reaches evaluates a path, and checks the locations it reports
func (s *S) reaches(o Outcome) {
	if !s.c.compiling {
		s.obl = nil
	}
	for _, r := range s.eval(o) {
		s.reached(r.st, s.root(), "")
	}
	done := map[int]bool{}
	for again := true; again; {
		again = false
		for _, r := range s.recs {
			if !r.done || done[r.id] {
				continue
			}
			done[r.id] = true
			again = true
			for _, x := range r.outs {
				if !x.pan && x.st.imp == "" {
					s.reached(x.st, r.node, fmt.Sprintf("prefix%d", r.id))
				}
			}
		}
	}
}

func (s *S) reached(st *State, top Val, prefix string) {
	evs := st.events()
	if s.c.keep["location"] {
		s.Eng.validEvents(s, evs, top, prefix)
	}
	q := &Q{e: s.Eng}
	q.walk(evs, nil, nil, "capture", func(*Ev, []int, []enc) { s.c.captures++ })
	if !s.c.keep["terminates"] {
		return
	}
	q.walk(evs, nil, nil, "rec", func(ev *Ev, ord []int, encs []enc) {
		l, why := s.Eng.loc(ev.st, ev.loc)
		if l != nil {
			why = ""
			if l.prefix != prefix || len(l.segs) < 2 {
				why = "a recursive call for the same node"
			} else {
				why = s.Eng.validLoc(ev.st, l, top)
			}
		}
		s.obl = append(s.obl, Obl{"terminates", ev.text, "recursive call", why == "", why, s.name})
	})
}

// form analyses a path of any kind, which need not be accepted
func (c *Check) form(name string, tree *Node, shape ...func(n *Term) *Shape) {
	c.run(name, func(s *S) {
		if len(shape) > 0 {
			s.shape = shape[0]
		}
		for _, o := range s.parseTree(s.base.clone(), tree) {
			if o.st.imp != "" {
				s.violate("undecided", "", "Parse", "Parse of %s: %s", tree.show(), o.st.imp)
				continue
			}
			if _, ok := o.err.(VNil); o.pan || !ok {
				continue
			}
			s.reaches(o)
		}
	})
}

// aroundLight puts a component in some places of a path
func (c *Check) aroundLight(name string, isSlice bool, mk func(s *S, st *State) (*State, *Node, Step)) {
	ka := func() *Node { return ident(strC("a")) }
	one := func(name string, f func(n *Node) *Node) {
		c.selection(name, func(s *S, st *State) (*State, *Node, []Step) {
			st, n, _ := mk(s, st)
			return st, pathTree(f(n)), nil
		})
	}
	b := strLit(strC("'b'"))
	one("$["+name+"]", func(n *Node) *Node { return index(selr("$"), n) })
	one("$.a["+name+"]", func(n *Node) *Node { return index(chain(selr("$"), ka()), n) })
	one("$["+name+"].a", func(n *Node) *Node { return chain(index(selr("$"), n), ka()) })
	if strings.HasPrefix(name, "?") {
		one("$.*["+name+"]", func(n *Node) *Node { return index(chain(selr("$"), selr("*")), n) })
	} else {
		one("$.*['b',"+name+"]", func(n *Node) *Node { return index(chain(selr("$"), selr("*")), b, n) })
	}
	one("$..["+name+",'b']", func(n *Node) *Node {
		if isSlice {
			return index(descentEnd(selr("$")), n, b)
		}
		return descent(selr("$"), arrayLit(n, b))
	})
}

// every puts a component in every place, described by a tree only
func (c *Check) every(name string, n *Node) {
	c.aroundLight(name, n.rule == "Slice", func(s *S, st *State) (*State, *Node, Step) { return st, n, Step{} })
}

func call(name string, xs ...*Node) *Node { return args(ident(strC(name)), xs...) }

// corpus analyses templates of all kinds of paths
func (c *Check) corpus() {
	c04(c)
	c06(c)
	c07(c)
	// slices
	as := []Bound{boundNone, boundSym("i", false), boundSym("i", true)}
	bs := []Bound{boundNone, boundSym("j", false), boundSym("j", true)}
	steps := []Bound{boundNone, boundConst(1), boundConst(2), boundConst(-1), boundConst(-2), boundConst(0), boundConst(9223372036854775807), boundConst(-9223372036854775807), boundSym("k", false), boundSym("k", true)}
	for _, a := range as {
		for _, b := range bs {
			for _, x := range steps {
				name, mk := mkSlice(a, b, x)
				c.selection("$["+name+"]", func(s *S, st *State) (*State, *Node, []Step) {
					st, n, _ := mk(s, st)
					return st, pathTree(index(selr("$"), n)), nil
				})
			}
		}
	}
	for _, p := range [][3]Bound{{as[1], bs[1], boundNone}, {as[2], bs[0], boundConst(2)}, {as[0], bs[2], boundConst(-1)}} {
		name, mk := mkSlice(p[0], p[1], p[2])
		c.around(name, true, mk)
	}
	// slices with computed bounds
	k := func(s string) *Node { return ident(strC(s)) }
	at := func(parts ...string) *Node {
		n := selr("@")
		for _, p := range parts {
			n = chain(n, k(p))
		}
		return n
	}
	root := func(parts ...string) *Node {
		n := selr("$")
		for _, p := range parts {
			n = chain(n, k(p))
		}
		return n
	}
	for _, x := range []*Node{at("a"), strLit(strC("'x'")), strLit(strC("'1'")), numLit("DecimalLiteral", strC("1.5")), bin(dec("1"), "+", dec("1")), boolLit("true"), nullLit(), call("length", root("a"))} {
		for i := 0; i < 3; i++ {
			ps := [3]*Node{}
			ps[i] = x
			var parts []*Node
			for j := 0; j < 3; j++ {
				if ps[j] != nil {
					parts = append(parts, ps[j])
				}
				if j < 2 {
					parts = append(parts, nil)
				}
			}
			n := slice(parts...)
			c.form("$["+n.show()+"]", pathTree(index(selr("$"), n)))
		}
	}
	// filters with an arbitrary document
	flt := func(n *Node) { c.form("$[?("+n.show()+")]", pathTree(index(selr("$"), filter(n))), rows) }
	typed := func(n *Node, k string) {
		c.form("$[?("+n.show()+")], all are "+k, pathTree(index(selr("$"), filter(n))), func(x *Term) *Shape {
			if sh := rows(x); sh != nil || x.op == "Root" {
				return sh
			}
			return kindShape(k)
		})
	}
	c10Light(c)
	lits := []*Node{nullLit(), boolLit("true"), dec("7"), dec("0"), minus(dec("1")), dec("2.5"), strLit(strC("'x'")), strLit(strC("'12'")), arrayLit(dec("1")), arrayLit()}
	for _, op := range []string{"==", "!=", "===", "!==", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "**", "&&", "||", "in"} {
		flt(bin(at("a"), op, at("b")))
		for _, l := range lits {
			flt(bin(at("a"), op, l))
			flt(bin(l, op, at("a")))
		}
		flt(bin(selr("@"), op, selr("$")))
		for _, k := range []string{"int", "float", "str", "bool", "null", "object", "array"} {
			if k == "str" && strings.Contains("+-**/%", op) {
				typed(bin(bin(at("a"), op, dec("2")), "==", at("c")), k)
				continue
			}
			typed(bin(bin(at("a"), op, at("b")), "==", at("c")), k)
			typed(bin(at("c"), "<", bin(at("a"), op, at("b"))), k)
			typed(bin(at("c"), "+", bin(at("a"), op, at("b"))), k)
			typed(not(paren(bin(at("a"), op, at("b")))), k)
		}
	}
	c.everywhere(exBin(pathEx("@", "a"), "<", pathEx("$", "b")), named(map[string]string{"a": "int", "b": "int"}))
	for _, op := range []string{"in", "+"} {
		x := bin(at("a"), op, root("b"))
		c.form("$.a[?("+x.show()+")]", pathTree(index(root("a"), filter(x))), named(map[string]string{"a": "int", "b": "array"}))
		c.form("$..[?("+x.show()+")]", pathTree(descent(selr("$"), arrayLit(filter(x)))), named(map[string]string{"a": "int", "b": "int"}))
	}
	for _, op := range []string{"+", "-", "*", "/", "%", "**"} {
		flt(bin(bin(at("a"), op, dec("2")), "<", dec("3")))
		flt(bin(strLit(strC("'x'")), "in", bin(at("a"), op, at("b"))))
		c.form("$["+bin(dec("3"), op, dec("0")).show()+"]", pathTree(index(selr("$"), bin(dec("3"), op, dec("0")))))
		c.form("$["+bin(at("a"), op, root("b")).show()+"]", pathTree(index(selr("$"), bin(at("a"), op, root("b")))))
	}
	for _, x := range []*Node{at(), at("a"), at("a", "b"), index(at(), dec("0")), index(at("a"), minus(dec("1"))), root(), root("a"), dec("0"), dec("3"), dec("2.5"), strLit(strC("'x'")), strLit(strC("''")), boolLit("false"), nullLit(), arrayLit(), arrayLit(dec("1")), arrayLit(at("a"), root("b")), arrayLit(arrayLit(dec("1")))} {
		flt(x)
		flt(not(x))
		flt(minus(x))
		flt(plus(x))
		flt(paren(x))
		flt(call("length", x))
		flt(args(chain(x, k("length"))))
		flt(bin(x, "in", arrayLit(x, dec("1"))))
		typed(bin(arrayLit(x), "in", at("l")), "array")
	}
	// paths that select several nodes
	for _, x := range []*Node{descent(at(), k("a")), descentEnd(at()), index(at(), slice(dec("0"), nil, dec("2"))), chain(at(), selr("*")), descent(root(), k("a")), chain(chain(at(), selr("*")), k("b")), index(at(), dec("0"), dec("1")), index(at(), filter(at("a"))), index(at("b"), filter(bin(at("a"), "==", root("c")))), descent(root("b"), k("a")), chain(descent(at(), k("a")), k("b")), index(chain(at(), selr("*")), slice(nil, minus(dec("1"))))} {
		some := func(n *Node) {
			c.form("$[?("+n.show()+")], a is int, b is array", pathTree(index(selr("$"), filter(n))), func(x *Term) *Shape {
				if sh := rows(x); sh != nil || x.op != "Key" {
					return sh
				}
				return named(map[string]string{"a": "int", "b": "array", "c": "float"})(x)
			})
		}
		flt(x)
		some(not(x))
		some(bin(x, "==", dec("1")))
		some(bin(at("b"), "<", x))
		some(bin(at("a"), "in", x))
		some(bin(x, "in", at("b")))
		some(bin(x, "+", dec("1")))
		some(call("length", x))
	}
	// functions
	for _, x := range []*Node{call("foo", at()), args(chain(at(), k("foo"))), call("length"), call("length", at(), at("a")), call("length", dec("1")), args(chain(arrayLit(dec("1")), k("length"))), args(chain(root("a"), k("length"))), args(root("a"), dec("1")), args(selr("@")), args(dec("1")), args(chain(at(), k("length")), at("a"))} {
		flt(x)
		flt(bin(x, "==", dec("1")))
		c.form("$["+x.show()+"]", pathTree(index(selr("$"), x)))
		c.form("$."+x.show(), pathTree(chain(selr("$"), x)))
	}
	// odd paths
	for _, x := range []*Node{selr("*"), selr("@"), k("a"), dec("1"), strLit(strC("'a'")), chain(k("a"), k("b")), selr("$"), chain(selr("$"), selr("$")), chain(selr("$"), selr("@")), descent(selr("$"), selr("$")), descent(selr("$"), selr("@")), descentEnd(selr("*")), descent(k("a"), k("b")), index(k("a"), dec("0")), index(selr("*"), filter(at("a"))), arrayLit(dec("1")), arrayLit(k("a"), k("b")),
		index(selr("$"), selr("@")), index(selr("$"), selr("$")), index(selr("$"), bin(dec("1"), "+", dec("1"))), index(selr("$"), call("length", at("a"))), index(selr("$"), not(at("a"))), index(selr("$"), bin(at("a"), "&&", at("b"))), index(selr("$"), minus(strLit(strC("'1'")))), index(selr("$"), nullLit()), index(selr("$"), boolLit("true")), index(selr("$"), dec("1.5")), index(selr("$"), arrayLit(dec("1"))), index(selr("$"), paren(dec("1"))), index(selr("$"), root("a")), index(selr("$"), at("a")),
		chain(selr("$"), filter(at("a"))), chain(selr("$"), dec("1")), chain(selr("$"), minus(dec("1"))), chain(selr("$"), arrayLit(dec("1"))), bin(root("a"), "+", root("b")), paren(root("a")), chain(paren(root("a")), k("b")), filter(at("a")), descent(selr("$"), filter(at("a"))), descent(selr("$"), arrayLit(filter(bin(at("a"), "==", root("b")))))} {
		c.form(x.show(), pathTree(x))
	}
	// simple paths
	c.simple()
	// the constructors
	for _, m := range builders() {
		c.run(m.name, func(s *S) {
			for _, o := range m.f(s, s.base.clone()) {
				if !o.pan {
					s.reaches(o)
				}
			}
		})
	}
}

// simple analyses paths of the form /a/b
func (c *Check) simple() {
	for _, x := range [][]*Node{{}, {simpleKey("a")}, {simpleKey("a"), simpleKey("b")}, {simpleLit(strLit(strC("'a b'")))}, {simpleLit(dec("1"))}, {simpleKey("a"), simpleLit(dec("0")), simpleStar()}, {simpleStar()}, {simpleStar(), simpleKey("b"), simpleStar()}, {simpleLit(nullLit())}, {simpleLit(boolLit("true")), simpleKey("b")}, {simpleLit(dec("1.5"))}} {
		t := simpleTree(x...)
		c.form(t.show(), t)
	}
}

// c10Light analyses filters with $ and @ in the places where they can be
func c10Light(c *Check) {
	at := func(parts ...any) Ex { return pathEx("@", parts...) }
	root := func(parts ...any) Ex { return pathEx("$", parts...) }
	ints := named(map[string]string{"m": "int", "k": "int"})
	c.everywhere(at("m"), nil)
	c.everywhere(root("k"), nil)
	c.everywhere(exBin(at("m"), "==", root("k")), ints)
}

// rows is the shape of a document that is an array of objects
func rows(n *Term) *Shape {
	if n.op == "Root" {
		return &Shape{typ: "ArrayNode"}
	}
	if isChildOfRoot(n) && n.op == "Elem" {
		return &Shape{typ: "ObjectNode"}
	}
	return nil
}

func keep(rules ...string) map[string]bool {
	m := map[string]bool{}
	for _, r := range rules {
		m[r] = true
	}
	return m
}

var docRules = []string{"docmodel-node", "docmodel-len", "docmodel-keys", "docmodel-key", "docmodel-elem", "docmodel-elem-index", "docmodel-value"}

func overall(compiling bool, rules ...string) func(c *Check) {
	return func(c *Check) {
		c.light, c.compiling, c.keep = true, compiling, keep(append(rules, "unknown-call", "unknown-store")...)
		c.corpus()
	}
}

var corpusMin = map[string]int{"scenarios": 1480, "captures": 1500, "steps": 1000000}

func init() {
	all := "A corpus of path templates that covers the language and the path constructors (see samples) is compiled and evaluated abstractly on an arbitrary document; "
	checks["C01"] = &Spec{run: overall(false, append([]string{"panic", "nil-dereference", "index-in-bounds", "slice-in-bounds", "make-slice-size", "type-assertion", "division-by-zero", "negative-shift", "comparable-operands", "hashable-key", "nil-map-write", "explicit-panic", "unknown-call", "unknown-store"}, docRules...)...),
		rule: all + "every instruction that can panic has to be proved safe: nil dereferences, bounds of indexes and slices, sizes of make, type assertions, divisions, comparisons of interface values, map keys, calls; and the DocModel is asked only for what exists.", min: corpusMin}
	checks["C08"] = &Spec{run: overall(false, "location"), rule: all + "every path given to the callback (and every path at a recursive call) has to start at the root, every segment has to be the child its name or index denotes, and has to carry the node and its type.", min: corpusMin}
	checks["C09"] = &Spec{run: overall(false, "captured-fresh", "write-after-capture", "unknown-store"), rule: all + "at every call of the callback, the memory of the path must not be reachable from any register that is used later, of any active function, or from package variables: nothing can change or read it any more.", min: corpusMin}
	checks["C19"] = &Spec{run: overall(false, "write-to-compiled path", "write-to-package variables", "unknown-store", "explicit-panic"), rule: all + "no store, append, copy or map update reached from Search may write to memory that is reachable from the path or from package variables; these are marked before the evaluation.", min: corpusMin}
	checks["C20"] = &Spec{run: func(c *Check) { overall(false, "write-to-document")(c); c.everyMethod() }, rule: all + "the methods of MapModel are analysed for every kind of node; " + "no store, append, copy, delete or map update may write to memory that comes from the document.", min: corpusMin}
	checks["C22"] = &Spec{run: overall(false, docRules...), rule: all + "at every call of the DocModel the argument has to be a node of the same document and of the type the method is for, and the index of Elem within the length.", min: corpusMin}
	checks["C24"] = &Spec{run: overall(true, "terminates"), rule: all + "every loop needs a variable that is bounded by an invariant and grows (or shrinks) in every iteration, or has to be a range over a string or a map; every recursive call has to be for a child of the current node.", min: corpusMin}
	checks["C25"] = &Spec{run: overall(true, "map-order", "write-to-package variables", "write-to-compiled path"), rule: all + "no map may be iterated, no state may be kept in package variables or in the path, and no function outside of the modelled, deterministic ones may be called.", min: corpusMin}
}

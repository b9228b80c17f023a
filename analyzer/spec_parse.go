package main

// Properties of the compiler.

// ---------------------------------------------------------------- simple paths

// spacedSimple puts white space around the components of a simple path
func spacedSimple(n *Node) *Node {
	m := &Node{rule: n.rule, tok: n.tok, text: n.text}
	for i, k := range n.kids {
		slash := k.tok == "'/'"
		if slash && i > 0 || k.tok == "EOF" {
			m.kids = append(m.kids, sp)
		}
		m.kids = append(m.kids, spacedSimple(k))
		if slash && (n.rule == "SimplePathExpr" || i+1 < len(n.kids)) {
			m.kids = append(m.kids, sp)
		}
	}
	return m
}

type simpleComp struct {
	name string
	mk   func(s *S, st *State) (*State, *Node, Step)
}

func c27(c *Check) {
	konst := func(name string, n *Node, x Step) simpleComp {
		return simpleComp{name, func(s *S, st *State) (*State, *Node, Step) { return st, n, x }}
	}
	num := func(kind, text string, i int64) simpleComp {
		return konst(text, simpleLit(numLit(kind, strC(text))), stepIndex(linC(i), strC(text)))
	}
	word := func(text string, n *Node) simpleComp { return konst(text, simpleLit(n), stepName(strC(text))) }
	a := konst("a", simpleKey("a"), stepName(strC("a")))
	b := konst("b", simpleKey("b"), stepName(strC("b")))
	star := konst("*", simpleStar(), stepWild())
	zero := num("DecimalLiteral", "0", 0)
	key := simpleComp{"key", func(s *S, st *State) (*State, *Node, Step) {
		k := s.symIdent(st, "key")
		return st, nt("SimplePathExpr", nt("Identifier", tok("Identifier", k))), stepName(k)
	}}
	i := simpleComp{"i", func(s *S, st *State) (*State, *Node, Step) {
		t := s.symInt(st, "i")
		st, v := s.intLit(st, t)
		return st, simpleLit(numLit("DecimalLiteral", t)), stepIndex(v, t)
	}}
	quoted := func(quote string) simpleComp {
		return simpleComp{quote + "key" + quote, func(s *S, st *State) (*State, *Node, Step) {
			k := mkStr(s.symChars("key", rsAll.minus(rsOf(quote+"\\\r\n\u2028\u2029"))))
			return st, simpleLit(strLit(concat(concat(strC(quote), k), strC(quote)))), stepKey(k)
		}}
	}
	str := func(text, k string) simpleComp {
		return konst(text, simpleLit(strLit(strC(text))), stepName(strC(k)))
	}
	all := []simpleComp{key, i, quoted("'"), quoted("\""), star, zero, str("'a b'", "a b"), str("'*'", "*"), str("\"/\"", "/"), str("'\\n'", "\n"), str("''", ""),
		num("HexIntegerLiteral", "0x0a", 10), num("OctalIntegerLiteral2", "0o17", 15), num("BinaryIntegerLiteral", "0b101", 5), num("DecimalLiteral", "1_0", 10), num("DecimalLiteral", "007", 7),
		word("1.5", dec("1.5")), word("1.0", dec("1.0")), word("1e2", dec("1e2")), word("null", nullLit()), word("true", boolLit("true")), word("false", boolLit("false"))}
	one := func(spaces bool, cs ...simpleComp) {
		name := ""
		for _, x := range cs {
			name += "/" + x.name
		}
		if len(cs) == 0 {
			name = "/"
		}
		if spaces {
			name += " with white space"
		}
		c.run(name, func(s *S) {
			st := s.base.clone()
			var ns []*Node
			var steps []Step
			for _, x := range cs {
				var n *Node
				var y Step
				st, n, y = x.mk(s, st)
				ns = append(ns, n)
				steps = append(steps, y)
			}
			tree := simpleTree(ns...)
			if spaces {
				tree = spacedSimple(tree)
			}
			if spaces && len(cs) == 0 {
				tree.kids = append(tree.kids, sp)
			}
			for _, o := range s.parse(st, tree) {
				s.selects(o, steps)
			}
		})
	}
	one(false)
	one(true)
	for _, x := range all {
		one(false, x)
		one(true, x)
		one(false, a, x)
		one(false, x, b)
		one(true, x, b)
		one(false, star, x)
	}
	for _, x := range []simpleComp{key, i, star, quoted("'"), word("null", nullLit())} {
		one(false, a, x, b)
		one(true, a, x, b)
		one(false, a, b, zero, x)
		one(false, x, star, b)
		one(false, star, star, x)
	}
	one(false, a, b, a, b, zero, a)
}

func init() {
	checks["C27"] = &Spec{run: c27, rule: "Templates of simple paths with every kind of component in every position, with and without white space, are compiled and evaluated abstractly on an arbitrary document; the set of callback calls is compared with the children the components select.", min: map[string]int{"scenarios": 150, "captures": 150, "cases": 500}}
}

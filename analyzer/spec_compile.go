package main

// Which inputs compile: C02 (no input makes Parse panic) and C03 (an
// unsupported or malformed part of an input is an error).
//
// Trees are built of contexts with one hole. A position is either a value
// (operand of an operator, filter, slice bound, argument) or a component
// of a path.

import (
	"fmt"
	"os"
	"strings"
)

// ---------------------------------------------------------------- grammar

// opPrec is the precedence of a rule: the order of the alternatives of
// expression in the grammar
var opPrec = map[string]int{}

var opOrder = []string{"Chain", "RecursiveDescent", "RecursiveDescentTerm", "MemberIndex", "RecursiveDescentMemberIndex", "Arguments", "UnaryPlus", "UnaryMinus", "BitNot", "Not",
	"Power", "Multiplicative", "Additive", "Relational", "In", "Equality", "BitAnd", "BitXOr", "BitOr", "LogicalAnd", "LogicalOr"}

func init() {
	for i, r := range opOrder {
		opPrec[r+"Expression"] = len(opOrder) - i
	}
}

func prefixRule(r string) bool {
	switch r {
	case "UnaryPlusExpression", "UnaryMinusExpression", "BitNotExpression", "NotExpression":
		return true
	}
	return false
}
func postfixRule(r string) bool {
	switch r {
	case "RecursiveDescentTermExpression", "MemberIndexExpression", "RecursiveDescentMemberIndexExpression", "ArgumentsExpression":
		return true
	}
	return false
}

// isExpr tells if a node is an alternative of expression
func isExpr(n *Node) bool {
	return strings.HasSuffix(n.rule, "Expression") && n.rule != "IndexExpression"
}

func (n *Node) exprs() (out []*Node) {
	for _, k := range n.kids {
		if isExpr(k) {
			out = append(out, k)
		}
	}
	return out
}

// opens tells if the parser goes on inside of the right end of n when it
// reads an operator of precedence p
func opens(n *Node, p int) bool {
	q := opPrec[n.rule]
	if q == 0 || postfixRule(n.rule) {
		return false
	}
	xs := n.exprs()
	if opens(xs[len(xs)-1], p) {
		return true
	}
	if prefixRule(n.rule) || n.rule == "PowerExpression" {
		return p >= q
	}
	return p > q
}

// endsIn tells if the right end of n is a node of the rule
func endsIn(n *Node, rule string) bool {
	if n.rule == rule {
		return true
	}
	if opPrec[n.rule] == 0 || postfixRule(n.rule) {
		return false
	}
	xs := n.exprs()
	return endsIn(xs[len(xs)-1], rule)
}

// closed tells if the parser, which reads an operand of precedence min,
// reads all of n
func closed(n *Node, min int) bool {
	q := opPrec[n.rule]
	if q == 0 || prefixRule(n.rule) {
		return true
	}
	return q >= min && closed(n.exprs()[0], min)
}

// parsable tells if the parser can return the tree
func parsable(n *Node) bool {
	for _, k := range n.kids {
		if !parsable(k) {
			return false
		}
	}
	if n.rule == "ArrayLiteral" || n.rule == "Slice" || n.rule == "ElementList" || n.rule == "Arguments" {
		return true
	}
	q := opPrec[n.rule]
	if q == 0 {
		return true
	}
	xs := n.exprs()
	min := q + 1
	if prefixRule(n.rule) {
		return closed(xs[0], q)
	}
	if n.rule == "PowerExpression" {
		min = q
	}
	if opens(xs[0], q) {
		return false
	}
	if len(xs) > 1 && !postfixRule(n.rule) && !closed(xs[1], min) {
		return false
	}
	op := ""
	for _, k := range n.kids {
		if !isExpr(k) && k.tok != "SP" {
			op = k.str().K()
			break
		}
	}
	op = strings.Trim(op, `"`)
	left := xs[0].show()
	if endsIn(xs[0], "RecursiveDescentTermExpression") {
		// what follows could be an operand of ..
		switch op {
		case "+", "-", "*", "**", ".", "..", "(":
			return false
		case "[":
			slices := false
			for _, k := range n.kids {
				if k.rule == "IndexExpression" && k.kids[0].rule == "Slice" {
					slices = true
				}
			}
			return slices
		}
	}
	if n.rule == "MemberIndexExpression" && n.kids[2].kids[0].rule != "Slice" && op == "[" && strings.HasSuffix(left, ".") {
		return false
	}
	if strings.HasPrefix(op, "*") && strings.HasSuffix(left, "*") {
		return false
	}
	if len(xs) > 1 && !postfixRule(n.rule) {
		right := xs[1].show()
		if strings.HasPrefix(op, "*") && strings.HasPrefix(right, "*") {
			return false
		}
		digit := func(b byte) bool { return b >= '0' && b <= '9' }
		if op == "." && digit(left[len(left)-1]) && digit(right[0]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- contexts

const (
	kVal  = 'v' // a value
	kPath = 'p' // a component of a path
)

type hole struct {
	outer, inner rune // what the whole is, and what goes into the hole
	name         string
	fill         func(x *Node) *Node
}

func bitNot(x *Node) *Node { return nt("BitNotExpression", lit("~"), x) }
func kid(s string) *Node   { return ident(strC(s)) }

// holes are the contexts in which the compiler reads an expression
func holes() (out []hole) {
	add := func(outer, inner rune, f func(x *Node) *Node) {
		out = append(out, hole{outer, inner, f(kid("x")).show(), f})
	}
	one := func() *Node { return dec("1") }
	d, at := func() *Node { return selr("$") }, func() *Node { return selr("@") }
	// operands
	for _, op := range []string{"**", "*", "/", "%", "+", "-", "<", "<=", ">", ">=", "in", "==", "!=", "===", "!==", "&&", "||"} {
		add(kVal, kVal, func(x *Node) *Node { return bin(x, op, one()) })
		add(kVal, kVal, func(x *Node) *Node { return bin(one(), op, x) })
	}
	add(kVal, kVal, minus)
	add(kVal, kVal, plus)
	add(kVal, kVal, not)
	add(kVal, kVal, paren)
	add(kVal, kVal, func(x *Node) *Node { return arrayLit(x) })
	add(kVal, kVal, func(x *Node) *Node { return arrayLit(one(), x) })
	add(kVal, kVal, func(x *Node) *Node { return arrayLit(x, one()) })
	// a value in a path, or in a path that is a value
	for _, outer := range []rune{kPath, kVal} {
		base := d
		if outer == kVal {
			base = at
		}
		if outer == kVal {
			add(outer, kVal, func(x *Node) *Node { return call("f", x) })
			add(outer, kVal, func(x *Node) *Node { return call("f", one(), x) })
			add(outer, kVal, func(x *Node) *Node { return args(chain(arrayLit(x), kid("m"))) })
			add(outer, kVal, func(x *Node) *Node { return args(chain(arrayLit(one(), x), kid("m")), one()) })
			add(outer, kVal, func(x *Node) *Node { return args(chain(arrayLit(one()), kid("m")), one(), x) })
		}
		add(outer, kVal, func(x *Node) *Node { return index(base(), call("f", x)) })
		add(outer, kVal, func(x *Node) *Node { return args(chain(base(), kid("m")), x) })
		add(outer, kVal, func(x *Node) *Node { return index(base(), filter(x)) })
		add(outer, kVal, func(x *Node) *Node { return index(base(), dec("0"), filter(x)) })
		add(outer, kVal, func(x *Node) *Node { return chain(base(), filter(x)) })
		add(outer, kVal, func(x *Node) *Node { return descent(base(), arrayLit(filter(x))) })
		add(outer, kVal, func(x *Node) *Node { return index(base(), slice(x, nil)) })
		add(outer, kVal, func(x *Node) *Node { return index(base(), slice(nil, x)) })
		add(outer, kVal, func(x *Node) *Node { return index(base(), slice(nil, nil, x)) })
		add(outer, kVal, func(x *Node) *Node { return index(base(), slice(one(), nil, x, nil, one())) })
		add(outer, kVal, func(x *Node) *Node { return index(descentEnd(base()), dec("0"), slice(x, nil)) })
		// a component of a path
		add(outer, kPath, func(x *Node) *Node { return chain(base(), x) })
		add(outer, kPath, func(x *Node) *Node { return chain(chain(base(), x), kid("b")) })
		add(outer, kPath, func(x *Node) *Node { return chain(chain(base(), kid("a")), x) })
		add(outer, kPath, func(x *Node) *Node { return descent(base(), x) })
		add(outer, kPath, func(x *Node) *Node { return descent(base(), chain(kid("b"), x)) })
		add(outer, kPath, func(x *Node) *Node { return descent(base(), chain(x, kid("b"))) })
		add(outer, kPath, func(x *Node) *Node { return descentEnd(chain(base(), x)) })
		add(outer, kPath, func(x *Node) *Node { return index(base(), x) })
		add(outer, kPath, func(x *Node) *Node { return index(base(), x, one()) })
		add(outer, kPath, func(x *Node) *Node { return index(base(), one(), x) })
		add(outer, kPath, func(x *Node) *Node { return index(chain(base(), x), one()) })
		add(outer, kPath, func(x *Node) *Node { return index(index(base(), x), one()) })
		add(outer, kPath, func(x *Node) *Node { return index(descentEnd(base()), x, slice(one(), nil)) })
		add(outer, kPath, func(x *Node) *Node { return chain(base(), arrayLit(x)) })
		add(outer, kPath, func(x *Node) *Node { return descent(base(), arrayLit(x)) })
		add(outer, kPath, func(x *Node) *Node { return descent(base(), arrayLit(one(), x)) })
		add(outer, kPath, func(x *Node) *Node { return args(chain(chain(base(), x), kid("m"))) })
		add(outer, kPath, func(x *Node) *Node { return args(chain(index(base(), x), kid("m")), one()) })
	}
	for _, f := range []func(x *Node) *Node{
		func(x *Node) *Node { return chain(x, kid("a")) },
		func(x *Node) *Node { return index(x, dec("0")) },
		func(x *Node) *Node { return descent(x, kid("a")) },
		descentEnd,
	} {
		add(kPath, kPath, f)
	}
	return out
}

type piece struct {
	name string
	node *Node
}

// unsupported are expressions that the compiler has to reject
func unsupported(kind rune) (out []piece) {
	add := func(ns ...*Node) {
		for _, n := range ns {
			out = append(out, piece{n.show(), n})
		}
	}
	a := func() *Node { return kid("a") }
	one, two := dec("1"), dec("2")
	add(bitNot(one), bin(one, "&", two), bin(one, "^", two), bin(one, "|", two), bin(bin(one, "&", two), "&", one))
	if kind == kVal {
		add(a(), selr("*"), filter(one), chain(a(), kid("b")), index(a(), dec("0")), descent(a(), kid("b")), descentEnd(a()), chain(strLit(strC("'$'")), a()))
		return out
	}
	add(bin(one, "&&", two), bin(one, "||", two), bin(one, "<", two), bin(one, ">=", two), bin(one, "==", two), bin(one, "!==", two), bin(one, "in", arrayLit(one)), bin(one, "*", two), bin(one, "/", two), bin(one, "**", two), not(a()), paren(a()), paren(one))
	return out
}

// anything are expressions of every kind
func anything() (out []piece) {
	add := func(ns ...*Node) {
		for _, n := range ns {
			out = append(out, piece{n.show(), n})
		}
	}
	out = append(out, unsupported(kVal)...)
	out = append(out, unsupported(kPath)...)
	a := func() *Node { return kid("a") }
	one := dec("1")
	d, at := selr("$"), selr("@")
	add(one, dec("1.5"), strLit(strC("'s'")), strLit(strC("''")), boolLit("true"), nullLit(), numLit("HexIntegerLiteral", strC("0x1")), numLit("OctalIntegerLiteral2", strC("0o1")), numLit("BinaryIntegerLiteral", strC("0b1")))
	add(d, at, chain(d, a()), chain(at, a()), descent(at, a()), descentEnd(at), descentEnd(d), index(at, one), index(d, one, strLit(strC("'a'"))), index(at, slice(nil)), index(at, slice(one, nil, one, nil, one)), index(at, filter(at)), index(descentEnd(d), slice(nil)))
	add(minus(one), minus(a()), minus(strLit(strC("'s'"))), plus(one), not(at), paren(at), paren(paren(one)), arrayLit(one), arrayLit(), arrayLit(one, a()), nt("ArrayLiteralExpression", nt("ArrayLiteral", lit("["), nt("ElementList", lit(","), one, lit(","), lit(",")), lit("]"))))
	add(bin(one, "+", one), bin(at, "-", d), bin(at, "==", one), bin(at, "in", arrayLit(one)))
	add(call("length"), call("length", at), call("foo", a()), args(chain(at, kid("m"))), args(chain(at, selr("*"))), args(at), args(d), args(a(), one, one), args(one), args(arrayLit(one)), args(chain(arrayLit(one), kid("m"))), args(chain(arrayLit(one), selr("*"))), args(chain(a(), kid("m"))), args(index(at, filter(at))), args(index(at, slice(nil))), args(index(a(), one)), args(descent(at, a())), args(descent(a(), a())), args(paren(at)), args(call("f")), args(not(a())), nt("ArgumentsExpression", a(), nt("Arguments", lit("("), one, lit(","), lit(")"))))
	return out
}

// sequences are the contexts, up to a depth, that end in a path
func sequences(depth int, f func(name string, inner rune, fill func(x *Node) *Node)) {
	all := holes()
	var rec func(name string, inner rune, fill func(x *Node) *Node, left int)
	rec = func(name string, inner rune, fill func(x *Node) *Node, left int) {
		f(name, inner, fill)
		if left == 0 {
			return
		}
		for _, h := range all {
			if h.outer == inner {
				n := h.name
				if name != "" {
					n = name + " x=" + h.name
				}
				rec(n, h.inner, func(x *Node) *Node { return fill(h.fill(x)) }, left-1)
			}
		}
	}
	rec("", kPath, func(x *Node) *Node { return x }, depth)
}

// compile runs Parse on many trees
func (c *Check) compile(name string, trees []*Node, verdict func(s *S, tree *Node, o Outcome)) {
	for i := 0; i < len(trees); i += 250 {
		part := trees[i:min(i+250, len(trees))]
		c.run(fmt.Sprintf("%s, part %d", name, i/250), func(s *S) {
			for _, t := range part {
				c.cases++
				for _, o := range s.parseTree(s.base.clone(), t) {
					c.outcomes++
					if o.st.imp != "" {
						s.violate("undecided", "", "Parse", "Parse of %s: %s", t.show(), o.st.imp)
						continue
					}
					verdict(s, t, o)
				}
				s.settle(t)
			}
		})
	}
}

// settle counts the obligations of a tree; the ones that failed are kept
func (s *S) settle(t *Node) {
	failed := s.obl[:0]
	for _, o := range s.obl {
		switch {
		case !o.ok:
			if !strings.Contains(o.why, " in ") {
				o.why += " in " + t.show()
			}
			failed = append(failed, o)
		case !s.c.light || s.c.keep[o.rule]:
			s.c.obls[o.rule]++
		}
	}
	s.obl = failed
}

func rejects(s *S, tree *Node, o Outcome) {
	if o.pan {
		s.violate("panic", s.failedAt(o.st), "Parse", "Parse panics for %s: %s", tree.show(), s.why())
		return
	}
	if _, ok := o.err.(VIface); !ok {
		s.violate("accepted", "", "Parse", "Parse accepts %s, although a part of it is not supported", tree.show())
	}
}

func unique(trees []*Node) (out []*Node) {
	seen := map[string]bool{}
	for _, t := range trees {
		if k := t.String(); !seen[k] {
			seen[k] = true
			out = append(out, t)
		}
	}
	return out
}

func unsupportedTrees(depth int) (out []*Node) {
	sequences(depth, func(name string, inner rune, fill func(x *Node) *Node) {
		for _, p := range unsupported(inner) {
			if x := fill(p.node); parsable(x) {
				out = append(out, pathTree(x))
			}
		}
	})
	// two expressions in one place of a slice
	for _, x := range []*Node{strLit(strC("'x'")), chain(selr("@"), kid("a")), dec("1")} {
		y := strLit(strC("'y'"))
		for _, n := range []*Node{slice(nil, x, y), slice(dec("1"), nil, x, y)} {
			for _, t := range []*Node{index(selr("$"), n), index(selr("$"), dec("0"), n), index(descentEnd(selr("$")), n), index(chain(selr("$"), kid("a")), n), index(selr("$"), filter(index(selr("@"), n)))} {
				out = append(out, pathTree(t))
			}
		}
	}
	return unique(out)
}

func anyTrees(depth int) (out []*Node) {
	ps := anything()
	sequences(depth, func(name string, inner rune, fill func(x *Node) *Node) {
		for _, p := range ps {
			if x := fill(p.node); parsable(x) {
				out = append(out, pathTree(x))
			}
		}
	})
	return unique(out)
}

// depths is how many contexts are put into each other
func depths() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 3
	}
	return 2
}

// malformed runs Parse on inputs for which the lexer, the parser, or both
// report errors, with every kind of tree they could return
func (c *Check) malformed(verdict func(s *S, tree *Node, o Outcome)) {
	ws := rsOf(" \n\t\r")
	type input struct {
		name string
		rule string
		text func(s *S, st *State) VStr
		full []*Node
	}
	d := selr("$")
	ks := simpleTree(simpleKey("a"), simpleLit(dec("0")))
	inputs := []input{
		{"$.a", "Path", func(s *S, st *State) VStr { return strC("$.a") }, []*Node{pathTree(chain(d, kid("a"))), pathTree(index(d, filter(selr("@"))))}},
		{"any text", "Path", func(s *S, st *State) VStr {
			return mkStr(s.runeVar(st, "first", rsAll.minus(rsOf("/"))), s.symChars("rest", rsAll))
		}, []*Node{pathTree(d), pathTree(chain(d, kid("a"))), pathTree(index(descentEnd(d), slice(dec("1"), nil)))}},
		{"no text", "Path", func(s *S, st *State) VStr { return strC("") }, []*Node{nt("Path", eof())}},
		{"/a/0", "SimplePath", func(s *S, st *State) VStr { return strC("/a/0") }, []*Node{ks, simpleTree(simpleStar())}},
		{"any text that starts with /", "SimplePath", func(s *S, st *State) VStr {
			return mkStr(SElem{kind: sRune, r: linC('/')}, s.runeVar(st, "first", rsAll.minus(ws)), s.symChars("rest", rsAll))
		}, []*Node{ks, simpleTree(simpleStar())}},
		{"//a", "SimplePath", func(s *S, st *State) VStr { return strC("//a") }, []*Node{nt("SimplePath", lit("/"), eof()), nt("SimplePath", lit("/"), nt("SimplePathExpr"), eof())}},
	}
	for _, in := range inputs {
		trees := append([]*Node{nt(in.rule), nt(in.rule, eof()), nt(in.rule, tok("SP", strC(" ")), eof())}, in.full...)
		if in.rule == "Path" {
			for _, r := range opOrder {
				trees = append(trees, nt("Path", nt(r+"Expression"), eof()))
			}
			for _, r := range []string{"LiteralExpression", "ArrayLiteralExpression", "IdentifierExpression", "SelectorExpression", "ParenthesizedExpression", "FilterExpression", "Expression"} {
				trees = append(trees, nt("Path", nt(r), eof()))
			}
			trees = append(trees, nt("Path", nt("ChainExpression", d, lit("."), nt("Expression")), eof()), nt("Path", nt("MemberIndexExpression", d, lit("["), nt("IndexExpression"), lit("]")), eof()), nt("Path", nt("LiteralExpression", nt("Literal")), eof()), nt("Path", nt("LiteralExpression", nt("Literal", nt("NumericLiteral"))), eof()))
		} else {
			trees = append(trees, nt("SimplePath", lit("/"), nt("SimplePathExpr"), eof()), nt("SimplePath", lit("/"), nt("SimplePathExpr", nt("SimplePathExpr"), lit("/"), nt("SimplePathExpr")), eof()), nt("SimplePath", lit("/"), nt("SimplePathExpr", nt("Literal")), eof()))
		}
		for k := 1; k < 4; k++ {
			lexErr, synErr := k&1 != 0, k&2 != 0
			who := []string{"", "the lexer", "the parser", "the lexer and the parser"}[k]
			c.run(fmt.Sprintf("%s, %s: error", in.name, who), func(s *S) {
				for _, t := range trees {
					st := s.base.clone()
					text := in.text(s, st)
					s.sc.Parse = func(string, Val) (*Node, bool, bool) { return t, lexErr, synErr }
					c.cases++
					for _, o := range s.callTop(st, s.P.fn("Parse"), text) {
						c.outcomes++
						if o.st.imp != "" {
							s.violate("undecided", "", "Parse", "Parse of %s: %s", in.name, o.st.imp)
							continue
						}
						verdict(s, t, o)
					}
					s.settle(t)
				}
			})
		}
	}
}

func neverPanics(s *S, tree *Node, o Outcome) {
	if o.pan {
		s.violate("panic", s.failedAt(o.st), "Parse", "Parse panics for %s: %s", tree.show(), s.why())
	}
}

func c03(c *Check) {
	c.malformed(func(s *S, t *Node, o Outcome) {
		if o.pan {
			s.violate("panic", s.failedAt(o.st), "Parse", "Parse panics after a syntax error: %s", s.why())
		} else if _, ok := o.err.(VNil); ok || o.st.decide(cDyn(o.err, nil)) != -1 {
			s.violate("accepted", "", "Parse", "Parse accepts an input with a syntax error")
		}
	})
	c.compile("unsupported expressions", unsupportedTrees(depths()), rejects)
}

func c02(c *Check) {
	c.light, c.compiling, c.keep = true, true, panicRules
	c.malformed(neverPanics)
	c.compile("expressions", anyTrees(depths()), neverPanics)
	c.tokens()
}

// tokens runs Parse on literals and names of any length
func (c *Check) tokens() {
	type word struct {
		name string
		mk   func(s *S, st *State) *Node
	}
	num := func(kind, prefix string, first, rest RuneSet) func(s *S, st *State) *Node {
		return func(s *S, st *State) *Node {
			var el []SElem
			for _, r := range prefix {
				el = append(el, SElem{kind: sRune, r: linC(int64(r))})
			}
			return numLit(kind, mkStr(append(el, s.runeVar(st, "digit", first), s.symChars("digits", rest))...))
		}
	}
	under := func(r RuneSet) RuneSet { return r.union(rsOf("_")) }
	dd := rs('0', '9')
	hex := dd.union(rs('a', 'f', 'A', 'F'))
	words := []word{
		{"name", func(s *S, st *State) *Node { return ident(s.symIdent(st, "name")) }},
		{"integer", num("DecimalLiteral", "", dd, under(dd))},
		{"0x", num("HexIntegerLiteral", "0x", hex, under(hex))}, {"0X", num("HexIntegerLiteral", "0X", hex, under(hex))},
		{"0o", num("OctalIntegerLiteral2", "0o", rs('0', '7'), under(rs('0', '7')))}, {"0O", num("OctalIntegerLiteral2", "0O", rs('0', '7'), under(rs('0', '7')))},
		{"0b", num("BinaryIntegerLiteral", "0b", rs('0', '1'), under(rs('0', '1')))}, {"0B", num("BinaryIntegerLiteral", "0B", rs('0', '1'), under(rs('0', '1')))},
		{"1.5e3", func(s *S, st *State) *Node { return dec("1.5e3") }}, {"1e", func(s *S, st *State) *Node { return dec("1e_") }}, {"1_", func(s *S, st *State) *Node { return dec("1_") }},
		{"0x_", func(s *S, st *State) *Node { return numLit("HexIntegerLiteral", strC("0x_")) }},
	}
	for _, q := range []string{"'", "\""} {
		plain := rsAll.minus(rsOf(q + "\\\r\n"))
		str := func(name string, mid func(s *S, st *State) VStr) {
			words = append(words, word{q + name + q, func(s *S, st *State) *Node {
				body := concat(mkStr(s.symChars("before", plain)), concat(mid(s, st), mkStr(s.symChars("after", plain))))
				return strLit(concat(strC(q), concat(body, strC(q))))
			}})
		}
		words = append(words, word{q + q, func(s *S, st *State) *Node { return strLit(strC(q + q)) }})
		konst := func(t string) { str(t, func(*S, *State) VStr { return strC(t) }) }
		konst("text")
		for _, t := range []string{"\\n", "\\'", "\\\"", "\\\\", "\\0", "\\x41", "\\x__", "\\u0041", "\\u____", "\\u{41}", "\\u{10FFFF}", "\\u{110000}", "\\u{__}", "\\u{41}\\x42\\n", "\\\n", "\\\r\n", "\\\u2028", "\\\n\n\n", "\\ud800", "\\z", "\\é"} {
			konst(t)
		}
		h := under(hex)
		esc := func(prefix string, n int, suffix string) {
			str(prefix+strings.Repeat("h", n)+suffix, func(s *S, st *State) VStr {
				v := strC(prefix)
				for i := 0; i < n; i++ {
					v = concat(v, mkStr(s.runeVar(st, fmt.Sprintf("h%d", i), h)))
				}
				return concat(v, strC(suffix))
			})
		}
		esc("\\x", 2, "")
		esc("\\u", 4, "")
		for n := 1; n < 4; n++ {
			esc("\\u{", n, "}")
		}
		str("\\c", func(s *S, st *State) VStr {
			return concat(strC("\\"), mkStr(s.runeVar(st, "c", rsAll.minus(rsOf("'\"\\bfnrtv0123456789xu\r\n")))))
		})
	}
	d, at := selr("$"), selr("@")
	places := []piece{{"$.x", nil}, {"$[x]", nil}, {"$[x,x]", nil}, {"$..x", nil}, {"$[x:]", nil}, {"$[?(@.a==x)]", nil}, {"$[?(@.x)]", nil}, {"$[f(x)]", nil}, {"$[-x]", nil}, {"$[?(-x)]", nil}, {"/x", nil}, {"/a/x/b", nil}}
	mk := []func(x *Node) *Node{
		func(x *Node) *Node { return pathTree(chain(d, x)) }, func(x *Node) *Node { return pathTree(index(d, x)) }, func(x *Node) *Node { return pathTree(index(d, x, x)) }, func(x *Node) *Node { return pathTree(descent(d, x)) },
		func(x *Node) *Node { return pathTree(index(d, slice(x, nil))) }, func(x *Node) *Node { return pathTree(index(d, filter(bin(chain(at, kid("a")), "==", x)))) }, func(x *Node) *Node { return pathTree(index(d, filter(chain(at, x)))) },
		func(x *Node) *Node { return pathTree(index(d, call("f", x))) }, func(x *Node) *Node { return pathTree(index(d, minus(x))) }, func(x *Node) *Node { return pathTree(index(d, filter(minus(x)))) },
		func(x *Node) *Node { return simpleTree(nt("SimplePathExpr", x.kids[0])) }, func(x *Node) *Node {
			return simpleTree(simpleKey("a"), nt("SimplePathExpr", x.kids[0]), simpleKey("b"))
		},
	}
	for _, w := range words {
		c.run("token "+w.name, func(s *S) {
			for i, p := range places {
				st := s.base.clone()
				n := mk[i](w.mk(s, st))
				c.cases++
				for _, o := range s.parseTree(st, n) {
					c.outcomes++
					if o.st.imp != "" {
						s.violate("undecided", "", "Parse", "Parse of %s for the token %s: %s", p.name, w.name, o.st.imp)
						continue
					}
					neverPanics(s, n, o)
				}
				s.settle(n)
			}
		})
	}
}

var panicRules = keep("panic", "nil-dereference", "index-in-bounds", "slice-in-bounds", "make-slice-size", "type-assertion", "division-by-zero", "negative-shift", "comparable-operands", "hashable-key", "nil-map-write", "explicit-panic", "unknown-call", "unknown-store")

func init() {
	checks["C03"] = &Spec{run: c03, rule: "Parse trees with an unsupported expression at every position (contexts put into each other up to the depth, see cases) are compiled abstractly, and every outcome has to be an error; the same for inputs for which the lexer or the parser report an error, whatever tree they return.", min: map[string]int{"cases": 13000, "scenarios": 60}}
	checks["C02"] = &Spec{run: c02, rule: "Parse trees with expressions of every kind at every position, literals and names of any length, and incomplete trees after syntax errors are compiled abstractly; every instruction of the compiler that can panic has to be proved safe.", min: map[string]int{"cases": 80000, "scenarios": 400}}
}

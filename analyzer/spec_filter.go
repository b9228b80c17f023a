package main

// Filters: C10 ($ and @), C11 (truthiness), C12 (equality), C13
// (ordering), C14 (arithmetic), C15 (logic and in), C28 (length).
//
// An operand is a parse tree together with what it denotes. A filter
// selects a child if what its expression denotes is truthy.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

var tFloat = types.Typ[types.Float64]

// XV is the value of an operand
type XV struct {
	k    string // null bool int float str array object list other error
	c    *Cond  // bool
	v    Val    // int, float, str
	node Val    // the node it is, or nil
	list []XV   // list: array literal, or the nodes a path selects
}

// Ex is an operand
type Ex struct {
	name string
	tree *Node
	ev   func(q *Q, cur Val) XV
}

// ---------------------------------------------------------------- operands

func (q *Q) nodeXV(n Val) XV {
	if q.is(q.e.typeIs(n, "ObjectNode")) {
		return XV{k: "object", node: n}
	}
	if q.is(q.e.typeIs(n, "ArrayNode")) {
		return XV{k: "array", node: n}
	}
	v := q.e.valueOf(q.st, n)
	for _, t := range []types.Type{nil, tBool, tInt, tFloat, tString} {
		if !q.is(dynCond(v, t)) {
			continue
		}
		if t == nil {
			return XV{k: "null", node: n}
		}
		var x Val
		if i, ok := v.(VIface); ok {
			x = i.v
		} else {
			x = q.e.as(q.st, v.(VTerm), t)
		}
		r := XV{node: n, v: x}
		switch t {
		case tBool:
			r.k, r.c = "bool", x.(VBool).c
		case tInt:
			r.k = "int"
		case tFloat:
			r.k = "float"
		case tString:
			r.k = "str"
		}
		return r
	}
	return XV{k: "other", node: n}
}

// a component of a path in a filter
type comp struct {
	keys []string // union of keys
	idx  *int64
}

func (q *Q) follow(nodes []Val, cs []comp) []Val {
	for _, c := range cs {
		var next []Val
		for _, n := range nodes {
			if c.idx != nil {
				i := linC(*c.idx)
				if q.is(q.e.typeIs(n, "ArrayNode")) {
					if *c.idx < 0 {
						i = i.add(nodeLen(n))
					}
					if q.is(cGe0(i)) && q.is(cLt(i, nodeLen(n))) {
						next = append(next, elemAt(n, i))
					}
				} else if q.is(q.e.typeIs(n, "ObjectNode")) {
					k := strC(fmt.Sprint(*c.idx))
					if q.is(q.e.hasMember(n, k)) {
						next = append(next, childKey(n, k))
					}
				}
				continue
			}
			if !q.is(q.e.typeIs(n, "ObjectNode")) {
				continue
			}
			for _, k := range c.keys {
				if q.is(q.e.hasMember(n, strC(k))) {
					next = append(next, childKey(n, strC(k)))
				}
			}
		}
		nodes = next
	}
	return nodes
}

// pathEx is a path that starts at @ or $, with keys, indexes or unions
// of keys
func pathEx(base string, parts ...any) Ex {
	name := base
	tree := selr(base)
	var cs []comp
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			name += "." + p
			tree = chain(tree, ident(strC(p)))
			cs = append(cs, comp{keys: []string{p}})
		case int:
			i := int64(p)
			name += fmt.Sprintf("[%d]", p)
			if p < 0 {
				tree = index(tree, minus(dec(fmt.Sprint(-p))))
			} else {
				tree = index(tree, dec(fmt.Sprint(p)))
			}
			cs = append(cs, comp{idx: &i})
		case []string:
			var items []*Node
			name += "["
			for i, k := range p {
				if i > 0 {
					name += ","
				}
				name += "'" + k + "'"
				items = append(items, strLit(strC("'"+k+"'")))
			}
			name += "]"
			tree = index(tree, items...)
			cs = append(cs, comp{keys: p})
		}
	}
	return Ex{name, tree, func(q *Q, cur Val) XV {
		if base == "$" {
			cur = q.e.root()
		}
		ns := q.follow([]Val{cur}, cs)
		if len(ns) == 1 {
			return q.nodeXV(ns[0])
		}
		r := XV{k: "list"}
		for _, n := range ns {
			r.list = append(r.list, XV{k: "node", node: n})
		}
		return r
	}}
}

func constEx(name string, tree *Node, v XV) Ex {
	return Ex{name, tree, func(q *Q, cur Val) XV { return v }}
}

func exNull() Ex { return constEx("null", nullLit(), XV{k: "null"}) }
func exBool(b bool) Ex {
	s := fmt.Sprint(b)
	return constEx(s, boolLit(s), XV{k: "bool", c: cBool(b)})
}
func exInt(i int64) Ex {
	s := fmt.Sprint(i)
	return constEx(s, dec(s), XV{k: "int", v: vi(i)})
}
func exFloat(s string, f float64) Ex {
	return constEx(s, dec(s), XV{k: "float", v: VFloat{f}})
}
func exStr(s string) Ex {
	return constEx("'"+s+"'", strLit(strC("'"+s+"'")), XV{k: "str", v: strC(s)})
}
func exArr(xs ...Ex) Ex {
	var ns []*Node
	name := ""
	for i, x := range xs {
		if i > 0 {
			name += ","
		}
		name += x.name
		ns = append(ns, x.tree)
	}
	tree := arrayLit(ns...)
	if len(ns) == 0 {
		tree = nt("ArrayLiteralExpression", nt("ArrayLiteral", lit("["), nt("ElementList"), lit("]")))
	}
	return Ex{"[" + name + "]", tree, func(q *Q, cur Val) XV {
		r := XV{k: "list"}
		for _, x := range xs {
			v := x.ev(q, cur)
			if v.k == "error" {
				return v
			}
			r.list = append(r.list, v)
		}
		return r
	}}
}

func exParen(x Ex) Ex { return Ex{"(" + x.name + ")", paren(x.tree), x.ev} }

// ---------------------------------------------------------------- operators

func exBin(l Ex, op string, r Ex) Ex {
	return Ex{l.name + op + r.name, bin(l.tree, op, r.tree), func(q *Q, cur Val) XV {
		a := l.ev(q, cur)
		if a.k == "error" {
			return a
		}
		switch op {
		case "&&", "||":
			t := q.truth(a)
			if t == dontCare {
				if b := r.ev(q, cur); b.k != "error" && q.truth(b) == b2i(op == "||") {
					return XV{k: "bool", c: cBool(op == "||")}
				}
				return XV{k: "any"}
			}
			if t == b2i(op == "||") {
				return XV{k: "bool", c: cBool(op == "||")}
			}
			return q.toBool(r.ev(q, cur))
		}
		b := r.ev(q, cur)
		if b.k == "error" {
			return b
		}
		if a.k == "any" || b.k == "any" {
			return XV{k: "any"}
		}
		res := dontCare
		switch op {
		case "==":
			res = q.equal(a, b, false)
		case "!=":
			res = negTri(q.equal(a, b, false))
		case "===":
			res = q.equal(a, b, true)
		case "!==":
			res = negTri(q.equal(a, b, true))
		case "<", "<=", ">", ">=":
			res = q.order(a, b, op)
		case "in":
			res = q.in(a, b)
		default:
			return q.arith(a, op, b)
		}
		if res == dontCare {
			return XV{k: "any"}
		}
		return XV{k: "bool", c: cBool(res == yes)}
	}}
}

func negTri(x int) int {
	switch x {
	case yes:
		return no
	case no:
		return yes
	}
	return x
}

func (q *Q) toBool(v XV) XV {
	if v.k == "error" {
		return v
	}
	switch q.truth(v) {
	case yes:
		return XV{k: "bool", c: cTrue}
	case no:
		return XV{k: "bool", c: cFalse}
	}
	return XV{k: "any"}
}

func exNot(x Ex) Ex {
	return Ex{"!" + x.name, not(x.tree), func(q *Q, cur Val) XV {
		v := q.toBool(x.ev(q, cur))
		if v.k == "bool" {
			v.c = v.c.not()
		}
		return v
	}}
}

func exNeg(x Ex) Ex {
	return Ex{"-" + x.name, minus(x.tree), func(q *Q, cur Val) XV {
		v := x.ev(q, cur)
		if v.k == "error" || v.k == "any" {
			return v
		}
		n := q.number(v)
		switch n.k {
		case "int":
			return XV{k: "int", v: q.e.wrap(q.st, n.v.(VInt).l.neg(), tInt)}
		case "float":
			if f, ok := n.v.(VFloat); ok {
				return XV{k: "float", v: VFloat{-f.f}}
			}
			return XV{k: "float", v: floatTerm("fneg", n.v)}
		}
		return n
	}}
}

// exLen is a call of length
func exLen(x Ex, method bool) Ex {
	tree := args(nt("IdentifierExpression", nt("Identifier", tok("Identifier", strC("length")))), x.tree)
	name := "length(" + x.name + ")"
	if method {
		name = x.name + ".length()"
		tree = args(chain(x.tree, ident(strC("length"))))
	}
	return Ex{name, tree, func(q *Q, cur Val) XV {
		v := x.ev(q, cur)
		switch v.k {
		case "error", "any":
			return v
		case "other":
			return XV{k: "any"}
		case "array":
			return XV{k: "int", v: VInt{nodeLen(v.node)}}
		case "list":
			return XV{k: "int", v: vi(int64(len(v.list)))}
		case "many":
			return XV{k: "int", v: VInt{keysLen(v.node)}}
		}
		return XV{k: "int", v: vi(0)}
	}}
}

// exElems is all elements of a member, or the first two
func exElems(key string, all bool) Ex {
	l := chain(selr("@"), ident(strC(key)))
	name, tree := "@."+key+"[0:2]", index(l, slice(dec("0"), nil, dec("2")))
	if all {
		name, tree = "@."+key+"[*]", index(l, selr("*"))
	}
	return Ex{name, tree, func(q *Q, cur Val) XV {
		ns := q.follow([]Val{cur}, []comp{{keys: []string{key}}})
		if len(ns) > 0 && all && q.is(q.e.typeIs(ns[0], "ObjectNode")) {
			n := ns[0]
			switch {
			case !q.is(cLt(linC(0), keysLen(n))):
				return XV{k: "list"}
			case !q.is(cLt(linC(1), keysLen(n))):
				return q.nodeXV(childKey(n, keyAt(n, linC(0))))
			}
			return XV{k: "many", node: n}
		}
		if len(ns) == 0 || !q.is(q.e.typeIs(ns[0], "ArrayNode")) {
			return XV{k: "list"}
		}
		n := ns[0]
		if !q.is(cLt(linC(0), nodeLen(n))) {
			return XV{k: "list"}
		}
		if !q.is(cLt(linC(1), nodeLen(n))) {
			return q.nodeXV(elemAt(n, linC(0)))
		}
		if all {
			return XV{k: "array", node: n}
		}
		return XV{k: "list", list: []XV{{k: "node", node: elemAt(n, linC(0))}, {k: "node", node: elemAt(n, linC(1))}}}
	}}
}

// exWhere is a filter of the children of a member, whose results are not
// covered, unless there are no children
func exWhere(base, key string, x Ex) Ex {
	m := chain(selr(base), ident(strC(key)))
	return Ex{base + "." + key + "[?(" + x.name + ")]", index(m, filter(x.tree)), func(q *Q, cur Val) XV {
		if base == "$" {
			cur = q.e.root()
		}
		ns := q.follow([]Val{cur}, []comp{{keys: []string{key}}})
		if len(ns) == 0 || q.is(q.e.typeIs(ns[0], "ValueNode")) {
			return XV{k: "list"}
		}
		return XV{k: "any"}
	}}
}

// exCall is a call of a function that does not exist
func exCall(fn string, x Ex, method bool) Ex {
	name, tree := fn+"("+x.name+")", args(nt("IdentifierExpression", nt("Identifier", tok("Identifier", strC(fn)))), x.tree)
	if method {
		name, tree = x.name+"."+fn+"()", args(chain(x.tree, ident(strC(fn))))
	}
	return Ex{name, tree, func(q *Q, cur Val) XV { return XV{k: "error"} }}
}

// truth tells if a value is truthy
func (q *Q) truth(v XV) int {
	switch v.k {
	case "null":
		if v.node != nil {
			return dontCare
		}
		return no
	case "bool":
		return b2i(q.is(v.c))
	case "int":
		return b2i(!q.is(cEq0(v.v.(VInt).l)))
	case "float":
		return b2i(!q.is(relCond(VFloat{0}, v.v, 2)))
	case "str":
		return b2i(!q.is(cEq0(q.st.strLen(v.v.(VStr)))))
	case "object", "many":
		return yes
	case "array":
		if q.is(cEq0(nodeLen(v.node))) {
			return dontCare
		}
		return yes
	case "list":
		return b2i(len(v.list) > 0)
	case "error":
		return no
	}
	return dontCare
}

func (q *Q) equal(a, b XV, strict bool) int {
	if a.k == "other" || b.k == "other" {
		return dontCare
	}
	switch {
	case a.k == "null" && b.k == "null":
		return yes
	case a.k == "bool" && b.k == "bool":
		return b2i(q.is(a.c) == q.is(b.c))
	case a.k == "str" && b.k == "str", a.k == "int" && b.k == "int", a.k == "float" && b.k == "float":
		return b2i(q.is(relCond(q.e.narrow(q.st, a.v), q.e.narrow(q.st, b.v), 2)))
	case a.k == "int" && b.k == "float" && !strict:
		return b2i(q.is(relCond(q.toFloat(a), b.v, 2)))
	case a.k == "float" && b.k == "int" && !strict:
		return b2i(q.is(relCond(a.v, q.toFloat(b), 2)))
	}
	return no
}

func (q *Q) toFloat(a XV) Val {
	if a.k == "float" {
		return a.v
	}
	l := a.v.(VInt).l
	if k, ok := l.constInt(); ok {
		return VFloat{float64(k)}
	}
	return VTerm{mkTerm(tFloat, "i2f", VInt{l})}
}

// number converts a value to a number
func (q *Q) number(a XV) XV {
	switch a.k {
	case "int", "float":
		return a
	case "bool":
		if q.is(a.c) {
			return XV{k: "int", v: vi(1)}
		}
		return XV{k: "int", v: vi(0)}
	case "other":
		return XV{k: "any"}
	case "str":
		if v, ok := q.parsed(q.e.parseInt(q.st.clone(), a.v, 10, 64, false, tInt)); ok {
			return XV{k: "int", v: v}
		}
		if v, ok := q.parsed(q.e.parseFloat(q.st.clone(), a.v, 64, tFloat)); ok {
			return XV{k: "float", v: v}
		}
	}
	return XV{k: "null"}
}

// parsed chooses one of the results of a conversion
func (q *Q) parsed(rs []Ret) (Val, bool) {
	k := 0
	if len(rs) > 1 {
		k = q.choose(len(rs))
	}
	n := len(q.st.pc)
	for _, c := range rs[k].st.pc[n:] {
		q.need(c)
	}
	t := rs[k].val.(VTuple)
	_, ok := t.f[1].(VNil)
	return t.f[0], ok
}

func (q *Q) order(a, b XV, op string) int {
	if a.k == "other" || b.k == "other" {
		return dontCare
	}
	cmp := func(x, y Val) int {
		m := map[string]uint8{"<": 1, "<=": 3, ">": 4, ">=": 6}[op]
		return b2i(q.is(relCond(q.e.narrow(q.st, x), q.e.narrow(q.st, y), m)))
	}
	switch {
	case a.k == "null" && b.k == "null":
		return cmp(vi(0), vi(0))
	case a.k == "null":
		return cmp(vi(0), vi(1))
	case b.k == "null":
		return cmp(vi(1), vi(0))
	}
	num := func(x XV) bool { return x.k == "int" || x.k == "float" }
	if num(a) || num(b) {
		a, b = q.number(a), q.number(b)
		if !num(a) || !num(b) {
			return no
		}
		if a.k == "int" && b.k == "int" {
			return cmp(a.v, b.v)
		}
		return cmp(q.toFloat(a), q.toFloat(b))
	}
	if a.k == "str" && b.k == "str" {
		return cmp(a.v, b.v)
	}
	return no
}

var opTok = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM}

func (q *Q) arith(a XV, op string, b XV) XV {
	a, b = q.number(a), q.number(b)
	if a.k == "any" || b.k == "any" {
		return XV{k: "any"}
	}
	if a.k == "null" || b.k == "null" {
		return XV{k: "null"}
	}
	if op == "**" {
		x, y := q.toFloat(a), q.toFloat(b)
		return XV{k: "float", v: q.call("math.Pow", x, y)}
	}
	if a.k == "int" && b.k == "int" {
		if op == "/" || op == "%" {
			if q.is(cEq0(b.v.(VInt).l)) {
				return XV{k: "null"}
			}
		}
		return XV{k: "int", v: q.e.arith(q.st, opTok[op], a.v, b.v, tInt, nil)[0].val}
	}
	if op == "/" || op == "%" {
		// also an integer divisor
		if b.k == "int" {
			if q.is(cEq0(b.v.(VInt).l)) {
				return XV{k: "null"}
			}
		} else if q.is(relCond(b.v, VFloat{0}, 2)) {
			return XV{k: "null"}
		}
	}
	x, y := q.toFloat(a), q.toFloat(b)
	if op == "%" {
		return XV{k: "float", v: q.call("math.Mod", x, y)}
	}
	return XV{k: "float", v: floatOp(tFloat, opTok[op], x, y)}
}

func (q *Q) in(a, b XV) int {
	switch b.k {
	case "other", "many":
		return dontCare
	case "null":
		return dontCare
	case "list":
		r := no
		for _, x := range b.list {
			if x.k == "node" {
				x = q.nodeXV(x.node)
			}
			switch q.equal(a, x, false) {
			case yes:
				return yes
			case dontCare:
				r = dontCare
			}
		}
		return r
	case "array":
		n := b.node
		if q.choose(2) == 0 {
			// there is an equal element
			j := linA(newAtom(fmt.Sprintf("witness%d", len(q.wit)), big0, maxInt64))
			q.need(cLt(j, nodeLen(n)))
			if q.equal(a, q.nodeXV(elemAt(n, j)), false) != yes {
				q.prune()
			}
			q.wit = append(q.wit, witness{n, j})
			return yes
		}
		q.univ = append(q.univ, universal{n, func(i *Lin) {
			if q.equal(a, q.nodeXV(elemAt(n, i)), false) != no {
				q.prune()
			}
		}})
		return no
	}
	return q.equal(a, b, false)
}

// ---------------------------------------------------------------- filters

func stepFilter(x Ex) Step {
	return Step{
		specials: func(q *Q, p Val) Specials { return Specials{} },
		sel: func(q *Q, c *Child) int {
			return q.truth(x.ev(q, c.node))
		},
	}
}

// filterOf analyses $[?(x)]
func (c *Check) filterOf(x Ex, shape func(n *Term) *Shape) {
	c.filterName("$[?("+x.name+")]", x, shape)
}

func (c *Check) filterName(name string, x Ex, shape func(n *Term) *Shape) {
	if ks := x.name; !c.spaces && (strings.HasSuffix(name, "a is int, b is int") || strings.HasSuffix(name, "a is int, b is int, is int") || strings.HasSuffix(name, "a is int, b is array") || strings.Contains(ks, "length")) {
		c.spaced(func() { c.filterName(name, x, shape) })
	}
	c.selection(name, func(s *S, st *State) (*State, *Node, []Step) {
		s.shape = shape
		return st, pathTree(index(selr("$"), filter(x.tree))), []Step{stepFilter(x)}
	})
}

// everywhere puts a filter in the places where it can be
func (c *Check) everywhere(x Ex, shape func(n *Term) *Shape) {
	c.around("?("+x.name+")", false, func(s *S, st *State) (*State, *Node, Step) {
		s.shape = shape
		return st, filter(x.tree), stepFilter(x)
	})
}

// isMember tells if n is the member k of a child of the root
func isMember(n *Term, k string) bool {
	if n.op != "Key" || n.args[1].K() != strC(k).K() {
		return false
	}
	p, ok := n.args[0].(VTerm)
	return ok && isChildOfRoot(p.t)
}

func isChildOfRoot(n *Term) bool {
	if n.op != "Key" && n.op != "Elem" {
		return false
	}
	r, ok := n.args[0].(VTerm)
	return ok && r.t.op == "Root"
}

var kindNames = []string{"missing", "null", "bool", "int", "float", "str", "array", "object"}

// kinds is the shape of a document that is an array of objects whose
// members have the given kinds
func kinds(ks map[string]string) func(n *Term) *Shape {
	has := map[string]int{}
	for k, v := range ks {
		has[k] = 1
		if v == "missing" {
			has[k] = -1
		}
	}
	return func(n *Term) *Shape {
		if n.op == "Root" {
			return &Shape{typ: "ArrayNode"}
		}
		if isChildOfRoot(n) {
			return &Shape{typ: "ObjectNode", has: has}
		}
		for k, v := range ks {
			if !isMember(n, k) {
				continue
			}
			return kindShape(v)
		}
		return nil
	}
}

func kindShape(k string) *Shape {
	switch k {
	case "array":
		return &Shape{typ: "ArrayNode"}
	case "object":
		return &Shape{typ: "ObjectNode"}
	}
	return &Shape{typ: "ValueNode", dyn: map[string]types.Type{"null": nil, "bool": tBool, "int": tInt, "float": tFloat, "str": tString}[k]}
}

func (q *Q) call(name string, args ...Val) Val {
	a, ok1 := args[0].(VFloat)
	b, ok2 := args[1].(VFloat)
	if ok1 && ok2 {
		return mathConst(name, a.f, b.f)
	}
	return floatTerm(name, args...)
}

func init() {
	sel := "For every filter the compiler and the evaluator are analysed on an arbitrary document, or on one in which the operands are of the named types; the selections in the resulting states are compared with those of an oracle that says for every case (types and values of the operands, numbers and names of the children) whether an arbitrary child passes. "
	checks["C10"] = &Spec{run: c10, rule: sel + "Filters with '@' and '$' operands in every position of a path, in chains, unions and after '..', and filters in filters.", min: map[string]int{"scenarios": 97, "captures": 97}}
	checks["C11"] = &Spec{run: c11, rule: sel + "Filters that are a path, a literal, an array, a path that can select any number of nodes, a negation or an operation.", min: map[string]int{"scenarios": 75, "captures": 75}}
	checks["C12"] = &Spec{run: c12, rule: sel + "==, !=, === and !== with operands of every pair of types (members of a node, paths that can select several nodes, and literals).", min: map[string]int{"scenarios": 856, "captures": 300}}
	checks["C13"] = &Spec{run: c13, rule: sel + "<, <=, > and >= with operands of every pair of types (members of a node, paths that can select several nodes, and literals).", min: map[string]int{"scenarios": 856, "captures": 300}}
	checks["C14"] = &Spec{run: c14, rule: sel + "+, -, *, /, %, ** and unary minus with operands of every pair of types; the result is compared with an int, a float and null.", min: map[string]int{"scenarios": 2280, "captures": 300}}
	checks["C15"] = &Spec{run: c15, rule: sel + "&&, ||, ! and in with operands of every pair of types; the elements of array nodes are arbitrary.", min: map[string]int{"scenarios": 982, "captures": 300}}
	checks["C28"] = &Spec{run: c28, rule: sel + "length of members of every type and of literals, as method and as function; calls of functions that do not exist, as every kind of operand.", min: map[string]int{"scenarios": 114, "captures": 100}}
}

// named is the shape of documents in which the members with the given
// names have the given kinds wherever they are
func named(ks map[string]string) func(n *Term) *Shape {
	return func(n *Term) *Shape {
		if n.op != "Key" {
			return nil
		}
		for k, v := range ks {
			if n.args[1].K() == strC(k).K() {
				return kindShape(v)
			}
		}
		return nil
	}
}

func c10(c *Check) {
	at := func(parts ...any) Ex { return pathEx("@", parts...) }
	root := func(parts ...any) Ex { return pathEx("$", parts...) }
	ints := named(map[string]string{"m": "int", "k": "int"})
	strs := named(map[string]string{"m": "str", "k": "str"})
	c.everywhere(at("m"), nil)
	c.everywhere(root("k"), nil)
	c.everywhere(exBin(at("m"), "==", root("k")), ints)
	c.everywhere(exBin(root("k"), "<", at("m")), strs)
	c.spaced(func() { c.filterOf(exBin(at("m", "n"), "==", root("k", "n")), named(map[string]string{"n": "int"})) })
	c.everywhere(exNot(exParen(exBin(root("k"), "===", at("m")))), ints)
	for _, x := range []Ex{at(), root(), root("k", "n"), root(0), exBin(at(), "==", root("k")), exBin(at("m", "n"), "==", root("k", "n")), exBin(at(0), "==", root(1)), exBin(root("k"), "==", root("m")), exBin(at("k"), "==", root("k")), exLen(root("l"), true), exBin(at("m"), "in", root("l"))} {
		c.filterOf(x, named(map[string]string{"m": "int", "k": "int", "n": "str", "l": "array"}))
	}
	// filters in filters
	for _, y := range []Ex{at("m"), exBin(at("m"), "==", root("k")), exBin(at("m"), ">", exInt(3)), exBin(root("k"), "==", exInt(3))} {
		for _, base := range []string{"@", "$"} {
			w := exWhere(base, "l", y)
			for _, x := range []Ex{w, exNot(w), exBin(w, "&&", exBin(at("m"), "==", root("k"))), exBin(exBin(at("m"), "==", root("k")), "||", w)} {
				c.filterOf(x, named(map[string]string{"m": "int", "k": "int", "l": "array"}))
			}
		}
	}
	k := func(s string) *Node { return ident(strC(s)) }
	a, b := stepKey(strC("a")), stepKey(strC("b"))
	x, y := exBin(at("m"), "==", root("k")), exBin(root("k"), "==", at("n"))
	fx, fy := func() *Node { return filter(x.tree) }, func() *Node { return filter(y.tree) }
	for _, p := range []struct {
		name  string
		tree  func() *Node
		steps []Step
	}{
		{"$[?(x)][?(y)]", func() *Node { return index(index(selr("$"), fx()), fy()) }, []Step{stepFilter(x), stepFilter(y)}},
		{"$[?(x)].a[?(y)]", func() *Node { return index(chain(index(selr("$"), fx()), k("a")), fy()) }, []Step{stepFilter(x), a, stepFilter(y)}},
		{"$.a.b[?(x)]", func() *Node { return index(chain(chain(selr("$"), k("a")), k("b")), fx()) }, []Step{a, b, stepFilter(x)}},
		{"$.*[?(x)]", func() *Node { return index(chain(selr("$"), selr("*")), fx()) }, []Step{stepWild(), stepFilter(x)}},
		{"$[?(x),?(y)]", func() *Node { return index(selr("$"), fx(), fy()) }, []Step{stepUnion(stepFilter(x), stepFilter(y))}},
		{"$.k[?(x)]", func() *Node { return index(chain(selr("$"), k("k")), fx()) }, []Step{stepKey(strC("k")), stepFilter(x)}},
		{"$[?(x)]..a", func() *Node { return descent(index(selr("$"), fx()), k("a")) }, []Step{stepFilter(x), a.deep()}},
	} {
		c.selection(p.name, func(s *S, st *State) (*State, *Node, []Step) {
			s.shape = named(map[string]string{"m": "int", "k": "int", "n": "int"})
			return st, pathTree(p.tree()), p.steps
		})
	}
}

func c11(c *Check) {
	at := func(parts ...any) Ex { return pathEx("@", parts...) }
	c.everywhere(at("a"), nil)
	for _, x := range []Ex{
		at(), at("a", "b"), at(0), at(-1), pathEx("$", "k"), at("a", 1),
		exNull(), exBool(true), exBool(false), exInt(0), exInt(5), exFloat("0.0", 0), exFloat("1.5", 1.5), exStr(""), exStr("x"),
		exArr(), exArr(exInt(0)), exArr(exInt(1), exInt(2)), exArr(exNull()), exArr(exStr("")), exArr(exBool(false)), exArr(at("a")), exArr(exArr()),
		exNot(exParen(at("a"))), exNot(at("a")), exNot(exNot(at("a"))), exNeg(at("a")), exBin(at("a"), "+", exInt(1)), exBin(at("a"), "==", exInt(1)),
		exBin(at("a"), "&&", exInt(1)), exLen(at("a"), false), exLen(at("a"), true),
	} {
		c.filterOf(x, nil)
	}
	for _, all := range []bool{true, false} {
		for _, ka := range kindNames {
			ks := kinds(map[string]string{"a": ka})
			c.filterName(exElems("a", all).name+", a is "+ka, exElems("a", all), ks)
			c.filterName("!"+exElems("a", all).name+", a is "+ka, exNot(exElems("a", all)), ks)
		}
	}
}

// several compares the results of paths that can select several nodes
func (c *Check) several(ops []string) {
	for _, op := range ops {
		for _, all := range []bool{true, false} {
			x := exElems("l", all)
			for _, kb := range kindNames {
				ks := kinds(map[string]string{"l": "array", "b": kb})
				c.filterName(x.name+op+"@.b, b is "+kb, exBin(x, op, pathEx("@", "b")), ks)
				c.filterName("@.b"+op+x.name+", b is "+kb, exBin(pathEx("@", "b"), op, x), ks)
			}
			c.filterName(x.name+op+"2", exBin(x, op, exInt(2)), kinds(map[string]string{"l": "array"}))
			c.filterName("null"+op+x.name, exBin(exNull(), op, x), kinds(map[string]string{"l": "array"}))
		}
	}
}

// pairs analyses the operators with operands of all kinds
func (c *Check) pairs(ops []string, lits []Ex, same bool) {
	a, b := pathEx("@", "a"), pathEx("@", "b")
	for _, op := range ops {
		for _, ka := range kindNames {
			for _, kb := range kindNames {
				c.filterName(fmt.Sprintf("$[?(@.a%s@.b)], a is %s, b is %s", op, ka, kb), exBin(a, op, b), kinds(map[string]string{"a": ka, "b": kb}))
			}
			for _, l := range lits {
				k := kinds(map[string]string{"a": ka})
				c.filterName(fmt.Sprintf("$[?(@.a%s%s)], a is %s", op, l.name, ka), exBin(a, op, l), k)
				c.filterName(fmt.Sprintf("$[?(%s%s@.a)], a is %s", l.name, op, ka), exBin(l, op, a), k)
			}
		}
	}
}

var allLits = []Ex{exNull(), exBool(true), exInt(7), exFloat("2.5", 2.5), exStr("x"), exStr("12"), exArr(exInt(1))}

func c12(c *Check) {
	c.pairs([]string{"==", "!=", "===", "!=="}, allLits, false)
	c.several([]string{"==", "!=", "===", "!=="})
}

func c13(c *Check) {
	c.pairs([]string{"<", "<=", ">", ">="}, allLits, false)
	c.several([]string{"<", "<=", ">", ">="})
}

func c14(c *Check) {
	a, b, r := pathEx("@", "a"), pathEx("@", "b"), pathEx("@", "c")
	results := func(name string, x Ex, ks map[string]string) {
		for _, kr := range []string{"int", "float"} {
			m := map[string]string{"c": kr}
			for k, v := range ks {
				m[k] = v
			}
			c.filterName(name+" is "+kr, exBin(x, "===", r), kinds(m))
		}
		c.filterName(name+" is null", exBin(x, "==", exNull()), kinds(ks))
	}
	for _, op := range []string{"+", "-", "*", "/", "%", "**"} {
		for _, ka := range kindNames {
			for _, kb := range kindNames {
				results(fmt.Sprintf("@.a%s@.b, a is %s, b is %s,", op, ka, kb), exBin(a, op, b), map[string]string{"a": ka, "b": kb})
			}
		}
		for _, l := range []Ex{exNull(), exBool(true), exInt(0), exInt(3), exFloat("2.5", 2.5), exFloat("0.0", 0), exStr("x"), exStr("12"), exStr("1.5"), exArr(exInt(1))} {
			for _, ka := range []string{"int", "float", "str"} {
				results(fmt.Sprintf("@.a%s%s, a is %s,", op, l.name, ka), exBin(a, op, l), map[string]string{"a": ka})
				results(fmt.Sprintf("%s%s@.a, a is %s,", l.name, op, ka), exBin(l, op, a), map[string]string{"a": ka})
			}
		}
	}
	for _, ka := range kindNames {
		results(fmt.Sprintf("-@.a, a is %s,", ka), exNeg(a), map[string]string{"a": ka})
	}
	for _, l := range []Ex{exInt(3), exFloat("2.5", 2.5), exStr("12"), exStr("x"), exBool(true), exNull(), exParen(exInt(3)), exNeg(exInt(3))} {
		results("-"+l.name, exNeg(l), map[string]string{})
	}
}

func c15(c *Check) {
	a, b, l := pathEx("@", "a"), pathEx("@", "b"), pathEx("@", "l")
	c.several([]string{"in", "&&", "||"})
	for _, op := range []string{"&&", "||"} {
		c.pairs([]string{op}, []Ex{exNull(), exBool(true), exBool(false), exInt(0), exStr("x")}, false)
	}
	for _, ka := range kindNames {
		c.filterName("!@.a, a is "+ka, exNot(a), kinds(map[string]string{"a": ka}))
		c.filterName("(!@.a)===true, a is "+ka, exBin(exParen(exNot(a)), "===", exBool(true)), kinds(map[string]string{"a": ka}))
		for _, kb := range kindNames {
			ks := kinds(map[string]string{"a": ka, "b": kb})
			name := fmt.Sprintf(", a is %s, b is %s", ka, kb)
			for _, op := range []string{"&&", "||", "in"} {
				c.filterName("(@.a"+op+"@.b)===true"+name, exBin(exParen(exBin(a, op, b)), "===", exBool(true)), ks)
			}
			c.filterName("!(@.a&&@.b)"+name, exNot(exParen(exBin(a, "&&", b))), ks)
			c.filterName("@.a in @.b"+name, exBin(a, "in", b), ks)
			c.filterName("@.a in [@.b]"+name, exBin(a, "in", exArr(b)), ks)
			c.filterName("@.a in [1,@.b]"+name, exBin(a, "in", exArr(exInt(1), b)), ks)
		}
		ks := kinds(map[string]string{"a": ka})
		for _, x := range []Ex{exArr(), exArr(exInt(1), exStr("x"), exNull()), exArr(exFloat("2.5", 2.5), exBool(true)), exInt(5), exStr("x"), exBool(false), exFloat("2.5", 2.5)} {
			c.filterName("@.a in "+x.name+", a is "+ka, exBin(a, "in", x), ks)
		}
		for _, x := range []Ex{exInt(1), exStr("x"), exNull(), exBool(true), exFloat("2.5", 2.5)} {
			c.filterName(x.name+" in @.a, a is "+ka, exBin(x, "in", a), ks)
		}
		c.filterName("!(@.a in @.l), a is "+ka, exNot(exParen(exBin(a, "in", l))), kinds(map[string]string{"a": ka, "l": "array"}))
	}
}

func c28(c *Check) {
	a, b := pathEx("@", "a"), pathEx("@", "b")
	for _, ka := range kindNames {
		for _, m := range []bool{false, true} {
			c.filterName(exLen(a, m).name+" is int, a is "+ka, exBin(exLen(a, m), "===", b), kinds(map[string]string{"a": ka, "b": "int"}))
		}
	}
	for _, x := range []Ex{exArr(), exArr(exInt(1)), exArr(exInt(1), exNull(), a), exInt(5), exStr("x"), exNull(), exBool(true)} {
		c.filterName(exLen(x, false).name, exBin(exLen(x, false), "===", b), kinds(map[string]string{"a": "int", "b": "int"}))
	}
	// functions that do not exist
	for _, m := range []bool{false, true} {
		for _, fn := range []string{"foo", "Length", "len", "lengths"} {
			c.filterOf(exCall(fn, a, m), nil)
		}
		f := exCall("foo", a, m)
		for _, x := range []Ex{exNot(f), exNeg(f), exBin(f, "==", exNull()), exBin(f, "!=", exInt(1)), exBin(exInt(0), "<=", f), exBin(exInt(1), "+", f), exBin(f, "*", exInt(2)), exBin(f, "in", a), exBin(exInt(1), "in", f),
			exBin(f, "&&", b), exBin(f, "||", b), exBin(exBool(true), "&&", f), exBin(exBool(false), "||", f), exLen(f, false)} {
			c.filterOf(x, named(map[string]string{"a": "int", "b": "bool"}))
		}
	}
	for _, all := range []bool{false, true} {
		for _, m := range []bool{false, true} {
			c.filterOf(exBin(exLen(exElems("l", all), m), "===", b), kinds(map[string]string{"l": "array", "b": "int"}))
			c.filterOf(exBin(exLen(exElems("l", all), m), "===", b), kinds(map[string]string{"l": "object", "b": "int"}))
		}
	}
	// elements of the root, and of results of paths
	for _, m := range []bool{false, true} {
		c.filterOf(exBin(exLen(pathEx("$", "l"), m), ">", pathEx("@", "b")), named(map[string]string{"l": "array", "b": "int"}))
		c.filterOf(exBin(exLen(pathEx("@"), m), "===", exInt(2)), nil)
		c.filterOf(exBin(exLen(pathEx("@", "a", 0), m), "===", exInt(2)), nil)
	}
}

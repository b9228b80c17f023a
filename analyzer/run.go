package main

// Scenarios: parse an abstract path, evaluate it on an abstract document.

import (
	"bufio"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Scenario struct {
	Name  string
	Parse func(rule string, text Val) (tree *Node, lexErr, synErr bool)
}

// constructors of parse trees, in the shape the parser gives them

var sp = tok("SP", strC(" "))

func eof() *Node { return tok("EOF", strC("")) }
func ident(s VStr) *Node {
	return nt("IdentifierExpression", nt("Identifier", tok("Identifier", s)))
}
func strLit(s VStr) *Node { return nt("LiteralExpression", nt("Literal", tok("StringLiteral", s))) }
func numLit(kind string, s VStr) *Node {
	return nt("LiteralExpression", nt("Literal", nt("NumericLiteral", tok(kind, s))))
}
func dec(s string) *Node { return numLit("DecimalLiteral", strC(s)) }
func boolLit(s string) *Node {
	return nt("LiteralExpression", nt("Literal", tok("BooleanLiteral", strC(s))))
}
func nullLit() *Node {
	return nt("LiteralExpression", nt("Literal", tok("NullLiteral", strC("null"))))
}
func selr(s string) *Node      { return nt("SelectorExpression", nt("Selector", lit(s))) }
func chain(l, r *Node) *Node   { return nt("ChainExpression", l, lit("."), r) }
func descent(l, r *Node) *Node { return nt("RecursiveDescentExpression", l, lit(".."), r) }
func descentEnd(l *Node) *Node { return nt("RecursiveDescentTermExpression", l, lit("..")) }
func index(l *Node, items ...*Node) *Node {
	kids := []*Node{l, lit("[")}
	for i, x := range items {
		if i > 0 {
			kids = append(kids, lit(","))
		}
		kids = append(kids, nt("IndexExpression", x))
	}
	return nt("MemberIndexExpression", append(kids, lit("]"))...)
}
func arrayLit(items ...*Node) *Node {
	var kids []*Node
	for i, x := range items {
		if i > 0 {
			kids = append(kids, lit(","))
		}
		kids = append(kids, x)
	}
	return nt("ArrayLiteralExpression", nt("ArrayLiteral", lit("["), nt("ElementList", kids...), lit("]")))
}

// slice: parts are expressions, or nil for a colon
func slice(parts ...*Node) *Node {
	var kids []*Node
	for _, p := range parts {
		if p == nil {
			p = lit(":")
		}
		kids = append(kids, p)
	}
	return nt("Slice", kids...)
}
func filter(x *Node) *Node { return nt("FilterExpression", lit("?("), x, lit(")")) }
func paren(x *Node) *Node  { return nt("ParenthesizedExpression", lit("("), x, lit(")")) }
func minus(x *Node) *Node  { return nt("UnaryMinusExpression", lit("-"), x) }
func plus(x *Node) *Node   { return nt("UnaryPlusExpression", lit("+"), x) }
func not(x *Node) *Node    { return nt("NotExpression", lit("!"), x) }
func args(l *Node, xs ...*Node) *Node {
	kids := []*Node{lit("(")}
	for i, x := range xs {
		if i > 0 {
			kids = append(kids, lit(","))
		}
		kids = append(kids, x)
	}
	return nt("ArgumentsExpression", l, nt("Arguments", append(kids, lit(")"))...))
}

var opRule = map[string]string{
	"**": "Power", "*": "Multiplicative", "/": "Multiplicative", "%": "Multiplicative", "+": "Additive", "-": "Additive",
	"<": "Relational", ">": "Relational", "<=": "Relational", ">=": "Relational", "in": "In",
	"==": "Equality", "!=": "Equality", "===": "Equality", "!==": "Equality",
	"&": "BitAnd", "^": "BitXOr", "|": "BitOr", "&&": "LogicalAnd", "||": "LogicalOr",
}

func bin(l *Node, op string, r *Node) *Node {
	if op == "in" {
		return nt("InExpression", l, sp, lit("in"), sp, r)
	}
	return nt(opRule[op]+"Expression", l, lit(op), r)
}
func pathTree(x *Node) *Node { return nt("Path", x, eof()) }

// spaced puts white space around the operators of a tree
func spaced(n *Node) *Node {
	if n.rule == "" {
		return n
	}
	m := &Node{rule: n.rule}
	allowed := map[string]bool{"Chain": true, "RecursiveDescent": true, "RecursiveDescentTerm": true, "MemberIndex": true, "Power": true, "Multiplicative": true,
		"Additive": true, "Relational": true, "Equality": true, "LogicalAnd": true, "LogicalOr": true, "BitAnd": true, "BitOr": true, "BitXOr": true, "ElementList": true}
	ok := allowed[strings.TrimSuffix(n.rule, "Expression")]
	for i, k := range n.kids {
		if n.rule == "Path" && k.tok == "EOF" {
			m.kids = append(m.kids, sp)
		}
		isOp := k.rule == "" && k.tok != "SP" && k.tok != "EOF"
		if ok && isOp && i > 0 && n.kids[i-1].tok != "SP" {
			m.kids = append(m.kids, sp)
		}
		m.kids = append(m.kids, spaced(k))
		if ok && isOp && i+1 < len(n.kids) && n.kids[i+1].tok != "SP" {
			m.kids = append(m.kids, sp)
		}
	}
	return m
}

// strings of the lexer

var lexSeq int

func star1(name string, cls RuneSet) SElem {
	iv := newAtom("ρid", nil, nil)
	return SElem{kind: sStar, star: &Star{id: name, alts: []StarAlt{{cls: cls, v: iv, img: []SElem{{kind: sRune, r: linA(iv)}}}}}}
}

// runeVar is a rune of a class; the class is set in the state
func (e *Eng) runeVar(st *State, name string, cls RuneSet) SElem {
	a := newAtom("rune "+name, big0, big.NewInt(0x10ffff))
	st.runes[a] = cls
	return SElem{kind: sRune, r: linA(a)}
}

func readTokens(dir string) (map[string]int, error) {
	f, err := os.Open(filepath.Join(dir, "parser", "Jsonpath.tokens"))
	if err != nil {
		return nil, err
	}
	defer f.Close()
	m := map[string]int{"EOF": -1}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		i := strings.LastIndex(sc.Text(), "=")
		if i < 0 {
			continue
		}
		n, err := strconv.Atoi(sc.Text()[i+1:])
		if err != nil {
			return nil, err
		}
		m[sc.Text()[:i]] = n
	}
	return m, nil
}

func newEng(p *Prog) *Eng {
	return &Eng{P: p, start: time.Now(), limit: 15000000, marks: map[string]bool{}, recChange: map[string]bool{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, live: map[*ssa.Function]*liveness{}, loopStats: map[string]int{}, ext: map[int]*ExtInfo{}}
}

// initState is the state after the initialization of the package
func (e *Eng) initState() *State {
	st := newState()
	init := e.P.Root.Func("init")
	rets := e.Call(st, init, nil, nil, nil)
	if len(rets) != 1 || rets[0].panic {
		e.undecide("package initialization: %d results", len(rets))
	}
	st = rets[0].st
	for _, name := range sortedKeys(e.P.Root.Members) {
		if g, ok := e.P.Root.Members[name].(*ssa.Global); ok {
			e.global(st, g)
		}
	}
	for _, k := range sortedKeys(st.globals) {
		id := st.globals[k]
		o := *st.obj(id)
		o.frozen = "package variables"
		st.set(&o)
		e.freeze(st, VPtr{obj: id}, "package variables")
	}
	st.pc, st.tr = nil, nil
	return st
}

// freeze marks everything reachable from v
func (e *Eng) freeze(st *State, v Val, what string) {
	gl := st.globals
	st.globals = map[string]int{}
	ids := map[int]bool{}
	st.visitReach([]Val{v}, func(x Val) {
		switch x := x.(type) {
		case VPtr:
			ids[x.obj] = true
		case VSlice:
			ids[x.obj] = true
		case VMap:
			ids[x.obj] = true
		}
	})
	st.globals = gl
	for id := range ids {
		o := *st.obj(id)
		if o.frozen == "" {
			o.frozen = what
			st.set(&o)
		}
	}
}

type Outcome struct {
	st  *State
	v   Val // first result
	err Val
	pan bool
}

func (e *Eng) callTop(st *State, fn *ssa.Function, args ...Val) []Outcome {
	var out []Outcome
	for _, r := range e.Call(st, fn, args, nil, nil) {
		o := Outcome{st: r.st, pan: r.panic}
		if t, ok := r.val.(VTuple); ok {
			o.v = t.f[0]
			if len(t.f) > 1 {
				o.err = t.f[1]
			}
		} else {
			o.v = r.val
		}
		out = append(out, o)
	}
	return out
}

func (e *Eng) docVal() VTerm { return VTerm{mkTerm(e.P.typ("DocModel"), "doc")} }
func (e *Eng) root() VTerm   { return VTerm{mkTerm(anyType, "Root", e.docVal())} }

// parseTree runs Parse on an input with the given tree. The parser may
// also get the text without the white space around it
func (e *Eng) parseTree(st *State, tree *Node) []Outcome {
	start := "Path"
	if tree.rule == "SimplePath" {
		start = "SimplePath"
	}
	trees := map[string]*Node{}
	add := func(n *Node) {
		trees[n.str().K()] = n
		k := len(n.kids)
		if k > 1 && n.kids[k-1].tok == "EOF" && n.kids[k-2].tok == "SP" {
			m := nt(n.rule, append(append([]*Node{}, n.kids[:k-2]...), n.kids[k-1])...)
			trees[m.str().K()] = m
		}
	}
	if start == "SimplePath" && len(tree.kids) > 1 && tree.kids[1].tok == "SP" {
		// the grammar has no white space after the first slash
		add(nt(tree.rule, append([]*Node{tree.kids[0]}, tree.kids[2:]...)...))
		trees[tree.str().K()] = nil
		if len(tree.kids) == 2 {
			trees["\"/\""] = nil
		}
	} else if start == "SimplePath" && len(tree.kids) == 1 {
		trees[tree.str().K()] = nil
	} else {
		add(tree)
	}
	e.sc.Parse = func(rule string, text Val) (*Node, bool, bool) {
		n, ok := trees[text.K()]
		if !ok {
			e.undecide("the parser reads %s instead of %s", showVal(st, text), tree.str().K())
		}
		if n == nil || rule != start {
			return nt(rule), false, true
		}
		return n, false, false
	}
	return e.callTop(st, e.P.fn("Parse"), tree.str())
}

// simple paths

func simpleKey(s string) *Node {
	return nt("SimplePathExpr", nt("Identifier", tok("Identifier", strC(s))))
}
func simpleLit(n *Node) *Node { return nt("SimplePathExpr", n.kids[0]) }
func simpleStar() *Node       { return nt("SimplePathExpr", lit("*")) }

// simpleTree is the tree of a simple path with the given components
func simpleTree(xs ...*Node) *Node {
	var x *Node
	for i, y := range xs {
		if i == 0 {
			x = y
			continue
		}
		x = nt("SimplePathExpr", x, lit("/"), y)
	}
	if x == nil {
		return nt("SimplePath", lit("/"))
	}
	return nt("SimplePath", lit("/"), x, eof())
}

func (e *Eng) search(st *State, path Val) []Outcome {
	return e.callTop(st, e.P.fn("Search"), e.docVal(), path, VFunc{ext: "capture"})
}

func (st *State) dumpEvents() string {
	var b strings.Builder
	for _, ev := range st.events() {
		fmt.Fprintf(&b, "    %s", ev.kind)
		if ev.loc != nil {
			fmt.Fprintf(&b, " %s", showVal(ev.st, ev.loc))
		}
		if ev.loop != nil {
			fmt.Fprintf(&b, " #%d %s ranked=%v", ev.loop.id, ev.loop.pos, ev.loop.ranked)
			for _, v := range ev.loop.vars {
				fmt.Fprintf(&b, " %s from %s", v.atom.key, v.init.key())
			}
			for _, i := range ev.loop.invs {
				fmt.Fprintf(&b, " inv %s", i.key())
			}
			for _, p := range ev.loop.paths {
				b.WriteString("\n      path:")
				for _, c := range p.conds {
					b.WriteString(" " + c.key())
				}
				for _, x := range p.evs {
					fmt.Fprintf(&b, "\n        %s", x.kind)
					if x.loc != nil {
						b.WriteString(" " + showVal(x.st, x.loc))
					}
				}
				b.WriteString("\n        next:")
				for a, n := range p.next {
					fmt.Fprintf(&b, " %s:=%s", a.key, n.key())
				}
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

// showVal prints a value with the memory it refers to
func showVal(st *State, v Val) string { return showDepth(st, v, 6) }
func showDepth(st *State, v Val, d int) string {
	if st == nil || d == 0 || v == nil {
		if v == nil {
			return "<nil>"
		}
		return v.K()
	}
	switch x := v.(type) {
	case VStruct:
		var s []string
		for _, f := range x.f {
			s = append(s, showDepth(st, f, d-1))
		}
		return types.TypeString(x.t, shortQ) + "{" + strings.Join(s, ", ") + "}"
	case VIface:
		return types.TypeString(x.dyn, shortQ) + ":" + showDepth(st, x.v, d-1)
	case VPtr:
		o := st.heap[x.obj]
		if o == nil || len(x.path) > 0 || o.v == nil {
			return v.K()
		}
		return "&" + showDepth(st, o.v, d-1)
	case VSlice:
		n, ok := x.len.constInt()
		o := st.heap[x.obj]
		if !ok || o == nil || o.arr == nil {
			s := v.K()
			if o != nil && o.arr != nil {
				s += "{" + o.arr.key() + "}"
			}
			return s
		}
		var s []string
		for i := int64(0); i < n; i++ {
			s = append(s, showDepth(st, st.arrRead(o.arr, x.off.addC(i)), d-1))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return v.K()
}

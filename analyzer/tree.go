package main

// Abstract parse trees. The generated lexer and parser are not
// interpreted: for every kind of input a scenario has the tree that the
// parser builds for it.

import (
	"fmt"
	"go/types"
	"strings"
)

// Node describes a parse tree
type Node struct {
	rule string // name of the context type without "Context"; "" for a terminal
	kids []*Node
	tok  string // token name as in the grammar: symbolic name, or literal in quotes
	text VStr
}

// Tree is the node of the tree in the heap
type Tree struct {
	node   *Node
	kids   []int
	parent int
	typ    types.Type // *parser.XContext or *antlr.TerminalNodeImpl
	name   string     // token
	text   VStr
	term   bool
}

func nt(rule string, kids ...*Node) *Node { return &Node{rule: rule, kids: kids} }

// lit is a literal token of the grammar
func lit(s string) *Node { return &Node{tok: "'" + s + "'", text: strC(s)} }
func tok(name string, text VStr) *Node {
	return &Node{tok: name, text: text}
}

func (n *Node) str() VStr {
	if n.rule == "" {
		return n.text
	}
	s := strC("")
	for _, k := range n.kids {
		s = concat(s, k.str())
	}
	return s
}

func (n *Node) String() string {
	if n.rule == "" {
		return n.text.K()
	}
	var s []string
	for _, k := range n.kids {
		s = append(s, k.String())
	}
	return n.rule + "(" + strings.Join(s, " ") + ")"
}

func (e *Eng) buildTree(st *State, n *Node) int {
	var t types.Type
	if n.rule != "" {
		t = types.NewPointer(e.P.parserType(n.rule + "Context"))
	} else {
		t = types.NewPointer(e.P.antlrType("TerminalNodeImpl"))
	}
	o := e.alloc(st, t, "parse tree")
	tr := &Tree{node: n, typ: t, name: n.tok, text: n.str(), term: n.rule == ""}
	o.tree = tr
	for _, k := range n.kids {
		id := e.buildTree(st, k)
		tr.kids = append(tr.kids, id)
		st.obj(id).tree.parent = o.id
	}
	return o.id
}

func (e *Eng) treeVal(st *State, id int) Val {
	return VIface{st.obj(id).tree.typ, VPtr{obj: id}}
}

// tokenType is the number of a token
func (e *Eng) tokenType(name string) int64 {
	n, ok := e.P.tokens[name]
	if !ok {
		panic(undecided("token " + name + " not found"))
	}
	return int64(n)
}

// treeMethod models the methods of antlr's tree nodes
func (e *Eng) treeMethod(st *State, fr *Frame, id int, path, name string, args []Val, res *types.Tuple) ([]Ret, bool) {
	t := st.obj(id).tree
	if t == nil {
		return nil, false
	}
	rt := func(i int) types.Type {
		if i < res.Len() {
			return res.At(i).Type()
		}
		return nil
	}
	kind := func(id int) string { return st.obj(id).tree.name }
	switch name {
	case "GetText":
		return one(st, t.text), true
	case "GetChildren":
		var vs []Val
		for _, k := range t.kids {
			vs = append(vs, e.treeVal(st, k))
		}
		el := rt(0).Underlying().(*types.Slice).Elem()
		return one(st, e.newSlice(st, el, vs, "children")), true
	case "GetChildCount":
		return one(st, vi(int64(len(t.kids)))), true
	case "GetChild":
		if i, ok := args[0].(VInt); ok {
			if k, ok := i.l.constInt(); ok && k >= 0 && int(k) < len(t.kids) {
				return one(st, e.treeVal(st, t.kids[k])), true
			}
		}
		return one(st, VNil{rt(0)}), true
	case "GetParent":
		if t.parent == 0 {
			return one(st, VNil{rt(0)}), true
		}
		return one(st, e.treeVal(st, t.parent)), true
	case "GetToken":
		tt, ok1 := args[0].(VInt)
		ix, ok2 := args[1].(VInt)
		if !ok1 || !ok2 {
			return nil, false
		}
		want, ok1 := tt.l.constInt()
		n, ok2 := ix.l.constInt()
		if !ok1 || !ok2 {
			return nil, false
		}
		for _, k := range t.kids {
			if st.obj(k).tree.term && e.tokenType(kind(k)) == want {
				if n == 0 {
					return one(st, e.treeVal(st, k)), true
				}
				n--
			}
		}
		return one(st, VNil{rt(0)}), true
	case "GetTokens":
		tt, ok := args[0].(VInt)
		if !ok {
			return nil, false
		}
		want, ok := tt.l.constInt()
		if !ok {
			return nil, false
		}
		var vs []Val
		for _, k := range t.kids {
			if st.obj(k).tree.term && e.tokenType(kind(k)) == want {
				vs = append(vs, e.treeVal(st, k))
			}
		}
		return one(st, e.newSlice(st, rt(0).Underlying().(*types.Slice).Elem(), vs, "tokens")), true
	case "GetSymbol":
		if t.term {
			return one(st, VExt{id: id, path: path + "!sym", t: rt(0)}), true
		}
	case "GetTokenType":
		if t.term {
			return one(st, vi(e.tokenType(t.name))), true
		}
	case "GetRuleContext":
		return one(st, e.treeVal(st, id)), true
	case "GetRuleIndex":
	case "GetStart", "GetStop", "GetSourceInterval", "GetPayload", "GetLine", "GetColumn", "GetTokenIndex", "GetParser", "GetInputStream":
		return one(st, VExt{id: id, path: path + "!" + name, t: rt(0)}), true
	}
	e.undecide("method %s of a parse tree node is not modelled", name)
	return nil, false
}

func (e *Eng) syntaxError(st *State, fr *Frame, ext int, which string) []Ret {
	rets := []Ret{{st: st}}
	for _, l := range st.ext[ext] {
		var next []Ret
		for _, r := range rets {
			if r.panic {
				next = append(next, r)
				continue
			}
			next = append(next, e.invokeNamed(r.st, fr, l, "SyntaxError", func(sig *types.Signature) []Val {
				var args []Val
				for i := 0; i < sig.Params().Len(); i++ {
					t := sig.Params().At(i).Type()
					args = append(args, e.opaque(r.st, mkTerm(t, fmt.Sprintf("%s.arg%d", which, i)), t))
				}
				return args
			})...)
		}
		rets = next
	}
	return rets
}

package main

// Calls: builtins, the document model, the standard library, antlr.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) callInstr(st *State, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon) []Ret {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.get(st, fr, a))
	}
	var rt *types.Tuple = cc.Signature().Results()
	if cc.IsInvoke() {
		return e.invoke(st, fr, in, e.get(st, fr, cc.Value), cc.Method, args, rt)
	}
	switch f := e.get(st, fr, cc.Value).(type) {
	case VFunc:
		if f.bi != nil {
			return e.builtin(st, fr, in, f.bi, args, cc)
		}
		if f.ext != "" {
			return e.callback(st, fr, in, f.ext, args, rt)
		}
		return e.callFn(st, fr, in, f.fn, args, f.binds)
	case VNil:
		e.oblige("nil-dereference", in, false, "call of a nil function")
		return []Ret{{st: st, panic: true}}
	}
	e.oblige("unknown-call", in, false, "call of a function the analysis does not know")
	return []Ret{{st: st, panic: true}}
}

func (e *Eng) result(st *State, rt *types.Tuple, f func(i int, t types.Type) Val) []Ret {
	switch rt.Len() {
	case 0:
		return one(st, nil)
	case 1:
		return one(st, f(0, rt.At(0).Type()))
	}
	t := VTuple{}
	for i := 0; i < rt.Len(); i++ {
		t.f = append(t.f, f(i, rt.At(i).Type()))
	}
	return one(st, t)
}

func (e *Eng) isDocModel(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == e.P.Root.Pkg && n.Obj().Name() == "DocModel"
}

func (e *Eng) invoke(st *State, fr *Frame, in ssa.Instruction, recv Val, m *types.Func, args []Val, rt *types.Tuple) []Ret {
	switch r := recv.(type) {
	case VIface:
		fn := e.P.SSA.LookupMethod(r.dyn, m.Pkg(), m.Name())
		if fn == nil {
			e.undecide("no method %s of %s", m.Name(), r.dyn)
		}
		return e.callFn(st, fr, in, fn, append([]Val{r.v}, args...), nil)
	case VTerm:
		if r.t.typ != nil && e.isDocModel(r.t.typ) {
			return e.docCall(st, fr, in, r, m.Name(), args, rt)
		}
		if m.Name() == "Error" || m.Name() == "String" {
			return one(st, strChunk(mkTerm(tString, m.Name(), r)))
		}
		if st.decide(cDyn(r, nil)) != -1 {
			e.oblige("nil-dereference", in, false, "method "+m.Name()+" of a value that may be nil")
		}
		st.imp = "call of an unknown method " + m.Name()
		return e.result(st, rt, func(i int, t types.Type) Val { return unknown(t) })
	case VExt:
		return e.extCall(st, fr, in, r, m.Name(), args, rt)
	case VNil:
		e.oblige("nil-dereference", in, false, "method "+m.Name()+" of a nil interface value")
		return []Ret{{st: st, panic: true}}
	}
	e.oblige("unknown-call", in, false, "method "+m.Name()+" of a value the analysis does not know")
	return []Ret{{st: st, panic: true}}
}

func (e *Eng) invokeNamed(st *State, fr *Frame, recv Val, name string, mk func(*types.Signature) []Val) []Ret {
	r, ok := recv.(VIface)
	if !ok {
		e.undecide("unknown error listener")
	}
	fn := e.P.SSA.LookupMethod(r.dyn, e.P.Root.Pkg, name)
	if fn == nil {
		e.undecide("no method %s of %s", name, r.dyn)
	}
	return e.callFn(st, fr, fr.cur, fn, append([]Val{r.v}, mk(fn.Signature)...), nil)
}

// ---------------------------------------------------------------- environment

// callback models a call of a function of the user
func (e *Eng) callback(st *State, fr *Frame, in ssa.Instruction, name string, args []Val, rt *types.Tuple) []Ret {
	ev := &Ev{kind: name, st: st.clone()}
	if len(args) > 0 {
		ev.loc = args[0]
	}
	if in != nil {
		ev.text = e.pos(in)
	}
	st.event(ev)
	// memory given to the callback
	for _, a := range args {
		for _, x := range flatSlices(a) {
			kept := e.keeps(st, fr, in, x.obj)
			why := ""
			if kept {
				why = "the path given to the callback (" + st.obj(x.obj).site + ") can still be reached by the library"
			}
			e.oblige("captured-fresh", in, !kept, why)
			o := *st.obj(x.obj)
			end := x.off.add(x.len)
			if o.esc == nil || st.proveGe(end.sub(o.esc)) {
				o.esc = end
			}
			st.set(&o)
		}
	}
	return e.result(st, rt, func(i int, t types.Type) Val { return unknown(t) })
}

// keeps tells if an object can be reached by what is executed after an
// instruction
func (e *Eng) keeps(st *State, fr *Frame, in ssa.Instruction, id int) (found bool) {
	st.visitReach(e.roots(st, fr, in), func(v Val) {
		switch x := v.(type) {
		case VPtr:
			found = found || x.obj == id
		case VSlice:
			found = found || x.obj == id
		}
	})
	return
}

func flatSlices(v Val) []VSlice {
	switch x := v.(type) {
	case VSlice:
		return []VSlice{x}
	case VStruct:
		var out []VSlice
		for _, f := range x.f {
			out = append(out, flatSlices(f)...)
		}
		return out
	}
	return nil
}

func isNode(v Val) bool {
	t, ok := v.(VTerm)
	if !ok {
		return false
	}
	switch t.t.op {
	case "Root", "Key", "Elem", "node":
		return true
	}
	return strings.HasPrefix(t.t.op, "node:")
}

func (e *Eng) nodeType(n Val) VInt {
	if sh := e.shapeOf(n); sh != nil && sh.typ != "" {
		return vi(e.P.intConst(sh.typ))
	}
	t := e.P.typ("NodeType")
	lo, hi := e.P.intConst("ValueNode"), e.P.intConst("ValueNode")
	for _, c := range []string{"ObjectNode", "ArrayNode"} {
		k := e.P.intConst(c)
		if k < lo {
			lo = k
		}
		if k > hi {
			hi = k
		}
	}
	return VInt{linA(termAtom(mkTerm(t, "Type", n), big.NewInt(lo), big.NewInt(hi)))}
}

func nodeLen(n Val) *Lin { return linA(termAtom(mkTerm(tInt, "Len", n), big0, maxInt64)) }
func keysLen(n Val) *Lin {
	return linA(termAtom(mkTerm(tInt, "len", VTerm{mkTerm(types.NewSlice(tString), "Keys", n)}), big0, maxInt64))
}
func keyAt(n Val, i *Lin) VStr {
	return strChunk(mkTerm(tString, "elem", VTerm{mkTerm(types.NewSlice(tString), "Keys", n)}, VInt{i}))
}
func elemAt(n Val, i *Lin) VTerm { return VTerm{mkTerm(anyType, "Elem", n, VInt{i})} }
func childKey(n, k Val) VTerm    { return VTerm{mkTerm(anyType, "Key", n, k)} }
func hasKey(n, k Val) *Cond      { return cTermBool(mkTerm(tBool, "HasKey", n, k)) }
func nodeValue(n Val) VTerm      { return VTerm{mkTerm(anyType, "Value", n)} }
func (e *Eng) typeIs(n Val, c string) *Cond {
	return cEq(e.nodeType(n).l, linC(e.P.intConst(c)))
}

var anyType = types.NewInterfaceType(nil, nil)

func (e *Eng) docCall(st *State, fr *Frame, in ssa.Instruction, doc VTerm, name string, args []Val, rt *types.Tuple) []Ret {
	if name == "Root" {
		return one(st, VTerm{mkTerm(anyType, "Root", doc)})
	}
	if len(args) == 0 {
		e.undecide("DocModel.%s is not modelled", name)
	}
	n := args[0]
	e.oblige("docmodel-node", in, isNode(n), fmt.Sprintf("DocModel.%s of %s, which is not a node of the document", name, n.K()))
	is := func(cs ...string) bool {
		for _, c := range cs {
			if st.decide(e.typeIs(n, c)) == 1 {
				return true
			}
		}
		if len(cs) == 2 {
			// one of two: not the third
			for _, c := range []string{"ValueNode", "ObjectNode", "ArrayNode"} {
				if c != cs[0] && c != cs[1] && st.decide(e.typeIs(n, c)) == -1 {
					return true
				}
			}
		}
		return false
	}
	switch name {
	case "Type":
		return one(st, e.nodeType(n))
	case "Len":
		e.oblige("docmodel-len", in, is("ArrayNode", "ObjectNode"), "Len of a node that may be a value node: "+n.K())
		return one(st, VInt{nodeLen(n)})
	case "Keys":
		e.oblige("docmodel-keys", in, is("ObjectNode"), "Keys of a node that may not be an object: "+n.K())
		return one(st, e.opaqueSlice(st, mkTerm(types.NewSlice(tString), "Keys", n), tString))
	case "Key":
		e.oblige("docmodel-key", in, is("ObjectNode"), "Key of a node that may not be an object: "+n.K())
		k := args[1]
		if s, ok := k.(VStr); ok {
			k = e.canonKey(st, s)
			if len(s.el) == 1 && s.el[0].kind == sChunk {
				t := s.el[0].t
				if t.op == "elem" {
					if ks, ok := t.args[0].(VTerm); ok && ks.t.op == "Keys" && ks.t.args[0].K() == n.K() {
						return one(st, VTuple{[]Val{childKey(n, k), VBool{cTrue}}})
					}
				}
			}
		}
		return one(st, VTuple{[]Val{childKey(n, k), VBool{e.hasMember(n, k)}}})
	case "Elem":
		e.oblige("docmodel-elem", in, is("ArrayNode"), "Elem of a node that may not be an array: "+n.K())
		i, ok := args[1].(VInt)
		if !ok {
			e.oblige("docmodel-elem-index", in, false, "Elem with an unknown index")
			return one(st, unknown(anyType))
		}
		ok = st.proveGe(i.l) && st.proveGe(nodeLen(n).sub(i.l).addC(-1))
		e.oblige("docmodel-elem-index", in, ok, fmt.Sprintf("Elem(%s, %s) may be out of bounds", n.K(), i.l.key()))
		return one(st, elemAt(n, i.l))
	case "Value":
		e.oblige("docmodel-value", in, is("ValueNode"), "Value of a node that may not be a value node: "+n.K())
		return one(st, e.valueOf(st, n))
	}
	e.undecide("DocModel.%s is not modelled", name)
	return nil
}

// hasMember is the condition that an object has a member
func (e *Eng) hasMember(n, k Val) *Cond {
	if sh := e.shapeOf(n); sh != nil {
		if s, ok := k.(VStr); ok {
			if c, ok := s.constant(); ok && sh.has[c] != 0 {
				return cBool(sh.has[c] > 0)
			}
		}
	}
	return hasKey(n, k)
}

// valueOf is the value of a value node
func (e *Eng) valueOf(st *State, n Val) Val {
	v := nodeValue(n)
	if sh := e.shapeOf(n); sh != nil && sh.typ == "ValueNode" {
		if sh.dyn == nil {
			return VNil{anyType}
		}
		return VIface{dyn: sh.dyn, v: e.as(st, v, sh.dyn)}
	}
	return v
}

func (e *Eng) canonKey(st *State, s VStr) VStr {
	if len(s.el) == 1 && s.el[0].kind == sChunk {
		return s
	}
	c := e.canon(st, s)
	return c
}

// ---------------------------------------------------------------- functions

func fnPkg(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

const antlrPath = "github.com/antlr4-go/antlr/v4"

func (e *Eng) callFn(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args, binds []Val) []Ret {
	pkg := fnPkg(fn)
	rt := fn.Signature.Results()
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" && fn.Pkg != e.P.Root {
		return one(st, nil)
	}
	if e.hook != nil && pkg == e.P.Root.Pkg.Path() {
		if r, ok := e.hook(st, fr, in, fn, args); ok {
			return r
		}
	}
	switch {
	case pkg == antlrPath:
		if fn.Signature.Recv() != nil && len(args) > 0 {
			id, path := 0, ""
			switch r := args[0].(type) {
			case VPtr:
				id, path = r.obj, pathKey(r.path)
			case VExt:
				id, path = r.id, r.path
			case VStruct, VUnknown:
			case VNil:
				if fn.Synthetic == "" {
					e.oblige("nil-dereference", in, false, "method "+fn.Name()+" of a nil node")
					return []Ret{{st: st, panic: true}}
				}
			}
			if id != 0 && fn.Synthetic == "" {
				if o := st.heap[id]; o != nil && o.tree != nil {
					if r, ok := e.treeMethod(st, fr, id, path, fn.Name(), args[1:], rt); ok {
						return r
					}
				}
				if _, ok := e.ext[id]; ok {
					return e.extCall(st, fr, in, VExt{id: id, path: path}, fn.Name(), args[1:], rt)
				}
			}
			// a method of a base class embedded in a type of this code
			if _, ok := args[0].(VExt); !ok {
				if len(fn.Blocks) == 0 {
					e.P.build(fn)
				}
				return e.Call(st, fn, args, binds, fr)
			}
		}
		return e.antlrFn(st, fr, in, fn, args, rt)
	case pkg == e.P.Parser.Pkg.Path():
		if fn.Signature.Recv() != nil && len(args) > 0 {
			if x, ok := args[0].(VExt); ok {
				if _, ok := e.ext[x.id]; ok {
					return e.extCall(st, fr, in, x, fn.Name(), args[1:], rt)
				}
			}
		} else if strings.HasPrefix(fn.Name(), "NewJsonpath") {
			return e.antlrFn(st, fr, in, fn, args, rt)
		}
		return e.Call(st, fn, args, binds, fr)
	case pkg == "" || pkg == e.P.Root.Pkg.Path():
		return e.Call(st, fn, args, binds, fr)
	}
	return e.stdlib(st, fr, in, fn, args, binds, rt)
}

func (e *Eng) unmodelled(st *State, fn *ssa.Function) []Ret {
	e.undecide("function %s is not modelled", fn)
	return nil
}

// ExtInfo is an object of the antlr runtime
type ExtInfo struct {
	kind string
	link int
	in   Val
}

func (e *Eng) newExt(t types.Type, kind string, link int, in Val) Val {
	e.next++
	if e.ext == nil {
		e.ext = map[int]*ExtInfo{}
	}
	e.ext[e.next] = &ExtInfo{kind, link, in}
	return VExt{id: e.next, t: t}
}

func extID(v Val) int {
	switch x := v.(type) {
	case VExt:
		return x.id
	case VIface:
		return extID(x.v)
	}
	return 0
}

func (e *Eng) antlrFn(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val, rt *types.Tuple) []Ret {
	var t types.Type
	if rt.Len() > 0 {
		t = rt.At(0).Type()
	}
	switch fn.Name() {
	case "NewInputStream":
		return one(st, e.newExt(t, "input", 0, args[0]))
	case "NewJsonpathLexer":
		return one(st, e.newExt(t, "lexer", extID(args[0]), nil))
	case "NewCommonTokenStream":
		return one(st, e.newExt(t, "stream", extID(args[0]), nil))
	case "NewJsonpathParser":
		return one(st, e.newExt(t, "parser", extID(args[0]), nil))
	case "NewDefaultErrorListener":
		return one(st, e.newExt(t, "listener", 0, nil))
	}
	e.undecide("function %s is not modelled", fn)
	return nil
}

func (e *Eng) extCall(st *State, fr *Frame, in ssa.Instruction, x VExt, name string, args []Val, rt *types.Tuple) []Ret {
	if o := st.heap[x.id]; o != nil && o.tree != nil {
		if r, ok := e.treeMethod(st, fr, x.id, x.path, name, args, rt); ok {
			return r
		}
	}
	info := e.ext[x.id]
	if info == nil {
		e.undecide("method %s of %s is not modelled", name, x.K())
	}
	switch name {
	case "RemoveErrorListeners":
		st.ext[x.id] = nil
		return one(st, nil)
	case "AddErrorListener":
		st.ext[x.id] = append(st.ext[x.id][:len(st.ext[x.id]):len(st.ext[x.id])], args[0])
		return one(st, nil)
	case "SyntaxError", "ReportAmbiguity", "ReportAttemptingFullContext", "ReportContextSensitivity":
		return one(st, nil)
	case "SetErrorHandler", "SetTrace", "SetBuildParseTrees":
		return one(st, nil)
	case "Path", "SimplePath":
		if info.kind != "parser" {
			break
		}
		return e.parse(st, fr, x.id, name, rt)
	case "GetParserRuleContext":
	}
	e.undecide("method %s of the %s is not modelled", name, info.kind)
	return nil
}

// parse models the start rules of the generated parser
func (e *Eng) parse(st *State, fr *Frame, id int, name string, rt *types.Tuple) []Ret {
	stream := e.ext[e.ext[id].link]
	if stream == nil || stream.kind != "stream" || e.ext[stream.link] == nil || e.ext[stream.link].kind != "lexer" {
		e.undecide("the parser does not read from the lexer")
	}
	input := e.ext[e.ext[stream.link].link]
	if input == nil || input.kind != "input" {
		e.undecide("the lexer does not read from an input stream")
	}
	st.event(&Ev{kind: "parse", text: name, loc: input.in})
	if e.sc == nil || e.sc.Parse == nil {
		e.undecide("no scenario for the parser")
	}
	if input.in == nil {
		e.undecide("the parser has no input")
	}
	tree, lexErr, synErr := e.sc.Parse(name, input.in)
	rets := []Ret{{st: st}}
	fire := func(ext int, which string) {
		var next []Ret
		for _, r := range rets {
			if r.panic {
				next = append(next, r)
				continue
			}
			next = append(next, e.syntaxError(r.st, fr, ext, which)...)
		}
		rets = next
	}
	if lexErr {
		fire(stream.link, "lexer error")
	}
	if synErr {
		fire(id, "syntax error")
	}
	for i := range rets {
		if !rets[i].panic {
			rets[i].val = e.treeVal(rets[i].st, e.buildTree(rets[i].st, tree))
		}
	}
	return rets
}

// newErr is an error value that is not nil
func (e *Eng) newErr(st *State, what string, args ...Val) Val {
	t := types.Universe.Lookup("error").Type()
	v := VTerm{mkTerm(t, what, args...)}
	st.assume(cDyn(v, nil).not())
	return v
}

// ---------------------------------------------------------------- builtins

func (e *Eng) builtin(st *State, fr *Frame, in ssa.Instruction, b *ssa.Builtin, args []Val, cc *ssa.CallCommon) []Ret {
	call, _ := in.(*ssa.Call)
	var t types.Type
	if call != nil {
		t = call.Type()
	}
	switch b.Name() {
	case "len", "cap":
		return one(st, e.lenOf(st, args[0], b.Name()))
	case "append":
		return one(st, e.appendTo(st, fr, in, args[0], args[1], t))
	case "copy":
		return one(st, e.copySlice(st, in, args[0], args[1]))
	case "print", "println":
		return one(st, nil)
	case "min", "max":
		if a, ok := args[0].(VInt); ok {
			rets := []Ret{{st: st, val: a}}
			for _, x := range args[1:] {
				y, ok := x.(VInt)
				if !ok {
					return one(st, unknown(t))
				}
				var next []Ret
				for _, r := range rets {
					c := cLe(r.val.(VInt).l, y.l)
					if b.Name() == "max" {
						c = cLe(y.l, r.val.(VInt).l)
					}
					e.logCmp(c)
					switch r.st.decide(c) {
					case 1:
						next = append(next, r)
					case -1:
						next = append(next, Ret{st: r.st, val: y})
					default:
						s2 := r.st.clone()
						if s2.assume(c.not()) {
							next = append(next, Ret{st: s2, val: y})
						}
						if r.st.assume(c) {
							next = append(next, r)
						}
					}
				}
				rets = next
			}
			return rets
		}
		return one(st, unknown(t))
	case "delete":
		if m, ok := args[0].(VMap); ok {
			o := st.obj(m.obj)
			e.checkWrite(st, o, nil, in, "delete")
			n := *o
			mo := &MapObj{}
			for i := range o.mp.keys {
				if o.mp.keys[i].K() != args[1].K() {
					mo.keys = append(mo.keys, o.mp.keys[i])
					mo.vals = append(mo.vals, o.mp.vals[i])
				}
			}
			n.mp = mo
			st.set(&n)
		} else if _, ok := args[0].(VTerm); ok {
			e.oblige("write-to-document", in, false, "delete from a map of the document")
		}
		return one(st, nil)
	case "clear":
		e.undecide("clear at %s", e.pos(in))
	case "recover":
		return one(st, VNil{t})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VNil); ok {
			e.oblige("nil-dereference", in, false, "method call through a nil pointer")
			return []Ret{{st: st, panic: true}}
		}
		return one(st, args[0])
	}
	e.undecide("builtin %s at %s", b.Name(), e.pos(in))
	return nil
}

func (e *Eng) lenOf(st *State, v Val, which string) Val {
	switch x := v.(type) {
	case VStr:
		return VInt{st.strLen(x)}
	case VSlice:
		if which == "cap" {
			if x.cap != nil {
				return VInt{x.cap}
			}
			a := linA(newAtom(fmt.Sprintf("cap(%s)", x.K()), big0, maxInt64))
			st.addLin(a.sub(x.len))
			return VInt{a}
		}
		return VInt{x.len}
	case VNil:
		return vi(0)
	case VMap:
		o := st.obj(x.obj)
		if o.mp != nil && o.mp.opaque == nil {
			return vi(int64(len(o.mp.keys)))
		}
	case VArr:
		return vi(int64(len(x.el)))
	case VTerm:
		return VInt{linA(termAtom(mkTerm(tInt, "len", x), big0, maxInt64))}
	case VPtr:
		if o := st.heap[x.obj]; o != nil && len(x.path) == 0 {
			if at, ok := o.typ.Underlying().(*types.Array); ok {
				return vi(at.Len())
			}
		}
	}
	return VInt{linA(e.freshAtom("len", big0, maxInt64))}
}

// others tells if a live slice or pointer other than base covers
// elements of the array from index idx on
func (e *Eng) others(st *State, fr *Frame, in ssa.Instruction, obj int, idx *Lin) bool {
	found := false
	rs := e.roots(st, fr, in)
	for _, ls := range st.ext {
		rs = append(rs, ls...)
	}
	st.visitReach(rs, func(v Val) {
		switch x := v.(type) {
		case VSlice:
			if x.obj == obj && !st.proveGe(idx.sub(x.off.add(x.len))) {
				found = true
			}
		case VPtr:
			if x.obj == obj && len(x.path) > 0 && x.path[0].field < 0 && !st.proveGe(idx.sub(x.path[0].idx).addC(-1)) {
				found = true
			}
		}
	})
	return found
}

func (e *Eng) appendTo(st *State, fr *Frame, in ssa.Instruction, base, add Val, t types.Type) Val {
	elem := t.Underlying().(*types.Slice).Elem()
	// what is appended
	var vals []LSeg
	var n *Lin
	switch a := add.(type) {
	case VNil:
		return base
	case VStr:
		x := e.explode(a)
		n = linC(0)
		for _, el := range x.el {
			if el.kind != sRune {
				st.imp = "append of a string"
				return unknown(t)
			}
			if k, ok := st.width(el.r).constInt(); !ok || k != 1 {
				st.imp = "append of a string"
				return unknown(t)
			}
			vals = append(vals, LSeg{el: VInt{el.r}})
			n = n.addC(1)
		}
	case VSlice:
		n = a.len
		if k, ok := n.constInt(); ok && k <= 200 {
			ao := st.obj(a.obj)
			if ao.arr == nil {
				st.imp = "append of an unknown slice"
				return unknown(t)
			}
			for i := int64(0); i < k; i++ {
				vals = append(vals, LSeg{el: st.arrRead(ao.arr, a.off.addC(i))})
			}
		} else {
			ao := st.obj(a.obj)
			if ao.arr == nil {
				st.imp = "append of an unknown slice"
				return unknown(t)
			}
			// append(empty, list...): a copy
			if isNilVal(base) || emptySlice(base) {
				if a.off.isZero() {
					o := e.alloc(st, elem, e.pos(in))
					o.arr = ao.arr.clone()
					return VSlice{o.id, linC(0), n, nil}
				}
				if ao.arr.gen != nil || len(ao.arr.cells) > 0 {
					o := e.alloc(st, elem, e.pos(in))
					na := &Arr{elem: elem, lost: ao.arr.lost || ao.arr.base != nil}
					for _, c := range ao.arr.cells {
						na.cells = append(na.cells, Cell{c.idx.sub(a.off), c.v})
					}
					if g := ao.arr.gen; g != nil {
						off := a.off
						na.gen = func(i *Lin) Val { return g(i.add(off)) }
					}
					o.arr = na
					return VSlice{o.id, linC(0), n, nil}
				}
			}
			if segs, ok := listContent(st, ao.arr, a.off.add(n)); ok && a.off.isZero() {
				vals = segs
			} else {
				// elements given by a generator
				o := *ao
				_ = o
				vals = nil
			}
			if vals == nil {
				return e.appendGen(st, fr, in, base, a, elem, t)
			}
		}
	default:
		st.imp = "append of an unknown value"
		return unknown(t)
	}
	var b VSlice
	switch x := base.(type) {
	case VSlice:
		b = x
	case VNil:
		o := e.alloc(st, elem, e.pos(in))
		o.arr = &Arr{elem: elem, zero: true}
		b = VSlice{o.id, linC(0), linC(0), nil}
		if n.isZero() {
			return base
		}
	default:
		st.imp = "append to an unknown slice"
		return unknown(t)
	}
	if n.isZero() {
		return b
	}
	dst, ok := e.grow(st, fr, in, b, n, elem)
	if !ok {
		return unknown(t)
	}
	o := *st.obj(dst.obj)
	at := dst.off.add(b.len)
	plain := true
	for _, v := range vals {
		if v.el == nil {
			plain = false
		}
	}
	if plain {
		a := o.arr
		for i, v := range vals {
			a = st.arrWrite(a, at.addC(int64(i)), v.el)
		}
		o.arr = a
		st.set(&o)
	} else {
		segs, ok := listContent(st, o.arr, at)
		na := o.arr.clone()
		na.cells, na.fills = nil, nil
		if !ok {
			na.lost = true
		}
		na.prefix = append(segs[:len(segs):len(segs)], vals...)
		na.base = at.add(n)
		o.arr = na
		st.set(&o)
	}
	return VSlice{dst.obj, dst.off, b.len.add(n), dst.cap}
}

func isNilVal(v Val) bool { _, ok := v.(VNil); return ok }

// grow returns the slice to which n elements can be appended
func (e *Eng) grow(st *State, fr *Frame, in ssa.Instruction, b VSlice, n *Lin, elem types.Type) (VSlice, bool) {
	o := st.obj(b.obj)
	at := b.off.add(b.len)
	if o.arr == nil {
		st.imp = "append to an unknown array"
		return b, false
	}
	fresh := func() VSlice {
		no := e.alloc(st, elem, e.pos(in))
		if b.off.isZero() {
			na := o.arr.clone()
			na.cells = nil
			for _, c := range o.arr.cells {
				if st.proveGe(at.sub(c.idx).addC(-1)) {
					na.cells = append(na.cells, c)
				}
			}
			no.arr = na
		} else {
			na := &Arr{elem: elem, lost: o.arr.lost || o.arr.base != nil || len(o.arr.fills) > 0, zero: o.arr.zero}
			for _, c := range o.arr.cells {
				na.cells = append(na.cells, Cell{c.idx.sub(b.off), c.v})
			}
			if g := o.arr.gen; g != nil {
				off := b.off
				na.gen = func(i *Lin) Val { return g(i.add(off)) }
			}
			no.arr = na
		}
		return VSlice{no.id, linC(0), b.len, nil}
	}
	if b.cap != nil {
		if st.proveGe(b.cap.sub(b.len).sub(n)) {
			e.checkWrite(st, o, at, in, "append")
			return b, true
		}
		if st.proveGe(b.len.add(n).sub(b.cap).addC(-1)) {
			return fresh(), true
		}
	}
	// in place or not
	if o.frozen != "" {
		e.checkWrite(st, o, at, in, "append")
		return fresh(), true
	}
	if o.esc != nil && !st.proveGe(at.sub(o.esc)) {
		e.checkWrite(st, o, at, in, "append")
	}
	if e.others(st, fr, in, b.obj, at) {
		f := fresh()
		oo := *o
		a := oo.arr
		if k, ok := n.constInt(); ok && k < 20 {
			for i := int64(0); i < k; i++ {
				a = st.arrWrite(a, at.addC(i), unknown(elem))
			}
		} else {
			a = a.clone()
			a.lost = true
		}
		oo.arr = a
		st.set(&oo)
		return f, true
	}
	return VSlice{b.obj, b.off, b.len, nil}, true
}

// appendGen appends a slice of unknown length
func (e *Eng) appendGen(st *State, fr *Frame, in ssa.Instruction, base Val, a VSlice, elem, t types.Type) Val {
	st.imp = "append of a slice of unknown length at " + e.pos(in)
	return unknown(t)
}

func (e *Eng) copySlice(st *State, in ssa.Instruction, dst, src Val) Val {
	n := VInt{linA(e.freshAtom("copied", big0, maxInt64))}
	d, ok := dst.(VSlice)
	if !ok {
		if isNilVal(dst) {
			return vi(0)
		}
		st.imp = "copy to an unknown slice"
		return n
	}
	if isNilVal(src) {
		return vi(0)
	}
	o := *st.obj(d.obj)
	s, ok := src.(VSlice)
	if !ok || o.arr == nil {
		e.checkWrite(st, &o, nil, in, "copy")
		a := o.arr.clone()
		a.lost, a.cells, a.fills = true, nil, nil
		o.arr = a
		st.set(&o)
		return n
	}
	var l *Lin
	switch {
	case st.proveGe(d.len.sub(s.len)):
		l = s.len
	case st.proveGe(s.len.sub(d.len)):
		l = d.len
	}
	if l != nil && l.isZero() {
		return vi(0)
	}
	e.checkWrite(st, &o, d.off, in, "copy")
	so := st.obj(s.obj)
	if l == nil || so.arr == nil {
		a := o.arr.clone()
		a.lost, a.cells, a.fills = true, nil, nil
		o.arr = a
		st.set(&o)
		return n
	}
	if k, ok := l.constInt(); ok && k <= 200 {
		var vs []Val
		for i := int64(0); i < k; i++ {
			vs = append(vs, st.arrRead(so.arr, s.off.addC(i)))
		}
		a := o.arr
		for i, v := range vs {
			a = st.arrWrite(a, d.off.addC(int64(i)), v)
		}
		o.arr = a
		st.set(&o)
		return VInt{l}
	}
	if d.off.isZero() && s.off.isZero() && l.equal(d.len) && !(d.obj == s.obj) {
		a := so.arr.clone()
		a.elem = o.arr.elem
		o.arr = a
		st.set(&o)
		return VInt{l}
	}
	a := o.arr.clone()
	a.lost, a.cells, a.fills = true, nil, nil
	o.arr = a
	st.set(&o)
	return VInt{l}
}

// ---------------------------------------------------------------- library

func floatTerm(op string, args ...Val) Val {
	return VTerm{mkTerm(types.Typ[types.Float64], op, args...)}
}

// runeIn forks on a rune being in a set
func (e *Eng) runeIn(st *State, r Val, set RuneSet) []Ret {
	v, ok := r.(VInt)
	if !ok {
		return []Ret{{st: st.clone(), val: VBool{cTrue}}, {st: st, val: VBool{cFalse}}}
	}
	cls, ok := st.runeSet1(v.l)
	if !ok {
		c := cTermBool(mkTerm(tBool, "in"+set.String(), v))
		return one(st, VBool{c})
	}
	in, out := cls.inter(set), cls.minus(set)
	if out.empty() {
		return one(st, VBool{cTrue})
	}
	if in.empty() {
		return one(st, VBool{cFalse})
	}
	a, _ := v.l.single()
	s2 := st.clone()
	st.runes[a] = in
	s2.runes[a] = out
	return []Ret{{st: s2, val: VBool{cFalse}}, {st: st, val: VBool{cTrue}}}
}

// hasRune forks on a string containing a rune of the set
func (e *Eng) hasRune(st *State, s VStr, set RuneSet) (yes, no *State) {
	x := e.explode(s)
	may := false
	for _, el := range x.el {
		switch el.kind {
		case sRune:
			cls, ok := st.runeSet1(el.r)
			if !ok {
				may = true
				continue
			}
			if cls.minus(set).empty() {
				return st, nil
			}
			if !cls.inter(set).empty() {
				may = true
			}
		case sStar:
			for ai, a := range el.star.alts {
				cls := st.starClass(el.star, ai)
				if cls.empty() {
					continue
				}
				for _, ie := range a.img {
					if y, ok := ie.r.single(); ok && y == a.v {
						if !cls.inter(set).empty() {
							may = true
						}
					} else if k, ok := ie.r.constInt(); ok {
						if set.has(rune(k)) {
							may = true
						}
					} else {
						may = true
					}
				}
			}
		}
	}
	if !may {
		return nil, st
	}
	no = st.clone()
	for _, el := range x.el {
		switch el.kind {
		case sRune:
			if a, ok := el.r.single(); ok {
				if cls, ok := no.runeSet(a); ok {
					no.runes[a] = cls.minus(set)
				}
			}
		case sStar:
			for ai, a := range el.star.alts {
				cls := no.starClass(el.star, ai)
				keep := cls
				for _, ie := range a.img {
					if y, ok := ie.r.single(); ok && y == a.v {
						keep = keep.minus(set)
					} else if k, ok := ie.r.constInt(); ok && set.has(rune(k)) {
						keep = RuneSet{}
					}
				}
				if !keep.equal(cls) {
					no.refineStar(el.star, ai, keep)
				}
			}
		}
	}
	key := cTermBool(mkTerm(tBool, "has"+set.String(), s))
	switch st.decide(key) {
	case 1:
		return st, nil
	case -1:
		return nil, no
	}
	no.assume(key.not())
	st.assume(key)
	return st, no
}

// firstClass is the set of the runes a string can start with; ok is
// false if it can be empty or is not known
func (e *Eng) firstClass(st *State, s VStr) (RuneSet, bool) {
	x := e.explode(s)
	var acc RuneSet
	for _, el := range x.el {
		switch el.kind {
		case sRune:
			c, ok := st.runeSet1(el.r)
			if !ok {
				return nil, false
			}
			return acc.union(c), true
		case sStar:
			for ai, a := range el.star.alts {
				cls := st.starClass(el.star, ai)
				if cls.empty() {
					continue
				}
				if len(a.img) == 0 {
					continue
				}
				if y, ok := a.img[0].r.single(); ok && y == a.v {
					acc = acc.union(cls)
				} else if k, ok := a.img[0].r.constInt(); ok {
					acc = acc.union(rs(rune(k), rune(k)))
				} else {
					return nil, false
				}
			}
		default:
			return nil, false
		}
	}
	return acc, false
}

// anyClass is the set of all runes of the string
func (e *Eng) anyClass(st *State, s VStr) (RuneSet, bool) {
	var acc RuneSet
	for _, el := range e.explode(s).el {
		switch el.kind {
		case sRune:
			c, ok := st.runeSet1(el.r)
			if !ok {
				return rsAll, false
			}
			acc = acc.union(c)
		case sStar:
			for ai, a := range el.star.alts {
				cls := st.starClass(el.star, ai)
				if cls.empty() {
					continue
				}
				for _, ie := range a.img {
					if y, ok := ie.r.single(); ok && y == a.v {
						acc = acc.union(cls)
					} else if k, ok := ie.r.constInt(); ok {
						acc = acc.union(rs(rune(k), rune(k)))
					} else {
						return rsAll, false
					}
				}
			}
		default:
			return rsAll, false
		}
	}
	return acc, true
}

// hasOne tells if the string certainly has a rune that is not in the set
func (e *Eng) hasOther(st *State, s VStr, set RuneSet) bool {
	for _, el := range s.el {
		if el.kind == sRune {
			if c, ok := st.runeSet1(el.r); ok && c.inter(set).empty() {
				return true
			}
		}
	}
	return false
}

var rsDigits = rs('0', '9')
var rsNum = map[int]RuneSet{
	10: rs('0', '9', '+', '+', '-', '-'),
	16: rs('0', '9', 'a', 'f', 'A', 'F', '+', '+', '-', '-'),
	8:  rs('0', '7', '+', '+', '-', '-'),
	2:  rs('0', '1', '+', '+', '-', '-'),
	0:  rs('0', '9', 'a', 'f', 'A', 'F', 'x', 'x', 'X', 'X', 'o', 'o', 'O', 'O', '_', '_', '+', '+', '-', '-'),
}
var rsFloat = rs('0', '9', '+', '+', '-', '-', '.', '.', 'a', 'z', 'A', 'Z', '_', '_')

func intTerm(s Val, base, bits int) *Term {
	return mkTerm(tInt, fmt.Sprintf("int%d/%d", base, bits), s)
}
func intOK(s Val, base, bits int) *Cond {
	return cTermBool(mkTerm(tBool, fmt.Sprintf("isint%d/%d", base, bits), s))
}
func floatOK(s Val, bits string) *Cond { return cTermBool(mkTerm(tBool, "isfloat"+bits, s)) }
func floatVal(s Val, bits string) Val  { return floatTerm("float"+bits, s) }

// fork returns a state for each value of a condition
func (e *Eng) fork(st *State, c *Cond) (yes, no *State) {
	switch st.decide(c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	n := st.clone()
	if !n.assume(c.not()) {
		n = nil
	}
	if !st.assume(c) {
		st = nil
	}
	return st, n
}

// bitsOf is the number of bits of a digit
func bitsOf(base int) int { return big.NewInt(int64(base - 1)).BitLen() }

// digitsValue is the number that digits spell, if the value of each is
// its distance from the same character wherever it is in its class
func digitsValue(st *State, s VStr, base int) *Lin {
	n := linC(0)
	if len(s.el) == 0 {
		return nil
	}
	for _, x := range s.el {
		if x.kind != sRune {
			return nil
		}
		c, ok := st.runeSet1(x.r)
		if !ok || c.empty() {
			return nil
		}
		v := int64(-1)
		for _, d := range [][3]rune{{'0', '9', '0'}, {'a', 'z', 'a' - 10}, {'A', 'Z', 'A' - 10}} {
			if c.minus(rs(d[0], d[1])).empty() && int(c[len(c)-1].hi-d[2]) < base {
				v = int64(d[2])
			}
		}
		if v < 0 {
			return nil
		}
		n = n.mulC(int64(base)).add(x.r.addC(-v))
	}
	return n
}

func (e *Eng) parseInt(st *State, s Val, base, bits int, unsigned bool, t types.Type) []Ret {
	ret := func(st *State, v Val, err Val) Ret { return Ret{st: st, val: VTuple{[]Val{v, err}}} }
	errT := types.Universe.Lookup("error").Type()
	nilErr := VNil{errT}
	if bits == 0 {
		bits = 64
	}
	str, ok := s.(VStr)
	if !ok {
		return []Ret{ret(st.clone(), unknown(t), e.newErr(st, "parse error")), ret(st, unknown(t), nilErr)}
	}
	if c, ok := str.constant(); ok {
		if unsigned {
			v, err := strconv.ParseUint(c, base, bits)
			if err != nil {
				return []Ret{ret(st, VInt{linB(new(big.Int).SetUint64(v))}, e.newErr(st, "parse error", s))}
			}
			return []Ret{ret(st, VInt{linB(new(big.Int).SetUint64(v))}, nilErr)}
		}
		v, err := strconv.ParseInt(c, base, bits)
		if err != nil {
			return []Ret{ret(st, vi(v), e.newErr(st, "parse error", s))}
		}
		return []Ret{ret(st, vi(v), nilErr)}
	}
	if len(str.el) == 1 && str.el[0].kind == sChunk && str.el[0].t.op == "itoa" && (base == 10 || base == 0) && bits == 64 && !unsigned {
		return []Ret{ret(st, str.el[0].t.args[0], nilErr)}
	}
	canon := e.canon(st, str)
	if bits == 64 && base == 0 && !unsigned && e.plainDecimal(st, canon) {
		base = 10
	}
	if base == 0 && !unsigned && len(canon.el) > 2 {
		// a prefix gives the base
		a, ok := canon.el[0].r.constInt()
		b, ok2 := canon.el[1].r.constInt()
		if canon.el[0].kind == sRune && canon.el[1].kind == sRune && ok && ok2 && a == '0' {
			nb := map[int64]int{'x': 16, 'X': 16, 'o': 8, 'O': 8, 'b': 2, 'B': 2}[b]
			rest := mkStr(canon.el[2:]...)
			if set, known := rsNum[nb]; known && e.allIn(st, rest, set) {
				if f, ok := e.firstClass(st, rest); ok && f.inter(rsOf("+-")).empty() {
					return e.parseInt(st, rest, nb, bits, unsigned, t)
				}
			}
		}
	}
	if v := digitsValue(st, canon, base); v != nil && base > 0 && len(canon.el)*bitsOf(base) < bits {
		return []Ret{ret(st, VInt{v}, nilErr)}
	}
	set, known := rsNum[base]
	bad := false
	if known {
		if f, ok := e.firstClass(st, canon); ok && f.inter(set).empty() {
			bad = true
		}
		if e.hasOther(st, canon, set) {
			bad = true
		}
	}
	lo := new(big.Int).Neg(new(big.Int).Lsh(big1, uint(bits-1)))
	hi := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits-1)), big1)
	if unsigned {
		lo, hi = big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)
	}
	bb := bits
	if unsigned {
		bb = -bits
	}
	if !unsigned && base == 10 && bits == 64 && len(canon.el) > 1 {
		// the negation of a decimal number
		if k, ok := canon.el[0].r.constInt(); canon.el[0].kind == sRune && ok && k == 45 {
			rest := mkStr(canon.el[1:]...)
			if f, ok := e.firstClass(st, rest); ok && f.minus(rs('0', '9')).empty() && e.allIn(st, rest, rs('0', '9')) {
				var out []Ret
				for _, r := range e.parseInt(st, rest, base, bits, unsigned, t) {
					tu := r.val.(VTuple)
					if _, ok := tu.f[1].(VNil); ok {
						out = append(out, ret(r.st, VInt{tu.f[0].(VInt).l.neg()}, nilErr))
						continue
					}
					out = append(out, ret(r.st.clone(), VInt{linB(lo)}, e.newErr(r.st, "parse error", canon)))
					out = append(out, ret(r.st, VInt{linB(lo)}, nilErr))
				}
				return out
			}
		}
	}
	// a fixed number of digits: the value cannot fail to fit
	val := VInt{linA(termAtom(intTerm(canon, base, bb), lo, hi))}
	sign := func(st *State) {
		if f, ok := e.firstClass(st, canon); ok && !unsigned && !f.has('-') {
			k := int64(0)
			if base == 10 && !f.has('0') {
				k = 1
			}
			st.assume(cGe0(val.l.addC(-k)))
		}
	}
	errv := func(st *State) Ret {
		// the value with an error is the nearest one in range, or 0
		a := linA(termAtom(mkTerm(tInt, fmt.Sprintf("badint%d/%d", base, bb), canon), lo, hi))
		return ret(st, VInt{a}, e.newErr(st, "parse error", canon))
	}
	if bad {
		return []Ret{errv(st)}
	}
	if known && base != 0 && e.fits(st, canon, base, bits, set) {
		sign(st)
		return []Ret{ret(st, val, nilErr)}
	}
	if e.narrowed {
		for _, a := range e.sameText(st, intTerm(canon, base, bb), canon) {
			switch st.decide(intOK(a.term.args[0], base, bb)) {
			case 1:
				st.assume(intOK(canon, base, bb))
			case -1:
				st.assume(intOK(canon, base, bb).not())
			}
		}
	}
	yes, no := e.fork(st, intOK(canon, base, bb))
	var out []Ret
	if no != nil {
		out = append(out, errv(no))
	}
	if yes != nil {
		if known {
			// which other characters do not occur
			if c := e.only(yes, canon, set); c.K() != canon.K() {
				defer func(b bool) { e.narrowed = b }(e.narrowed)
				e.narrowed = true
				return append(out, e.parseInt(yes, c, base, bits, unsigned, t)...)
			}
		}
		if e.narrowed {
			v := termAtom(intTerm(canon, base, bb), lo, hi)
			for _, a := range e.sameText(yes, v.term, canon) {
				yes.assume(cEq(linA(a), linA(v)))
			}
		}
		sign(yes)
		out = append(out, ret(yes, val, nilErr))
	}
	return out
}

// only is a string of which all characters are in the set
func (e *Eng) only(st *State, s VStr, set RuneSet) VStr {
	for _, el := range s.el {
		if el.kind != sStar || el.star.t != nil {
			continue
		}
		for i, a := range el.star.alts {
			in := rsAll
			for _, x := range a.img {
				if k, ok := x.r.constInt2(x.kind); ok && !set.has(rune(k)) {
					in = nil
				} else if v, ok := x.r.singleOf(x.kind); ok && v == a.v {
					in = in.inter(set)
				}
			}
			if c := st.starClass(el.star, i); !c.minus(in).empty() {
				st.refineStar(el.star, i, in)
			}
		}
	}
	return e.canon(st, s)
}

// sameText returns the values of the same operation on texts that turned
// out to be the same
func (e *Eng) sameText(st *State, t *Term, s VStr) []*Atom {
	var out []*Atom
	for _, a := range atomTab {
		if a.term == nil || a.term == t || a.term.op != t.op || a.term.key == t.key {
			continue
		}
		if x, ok := a.term.args[0].(VStr); ok && e.canon(st, x).K() == s.K() {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// allIn tells if all characters of a string are in a set
func (e *Eng) allIn(st *State, s VStr, set RuneSet) bool {
	var in func(el []SElem, v *Atom, cls RuneSet) bool
	in = func(el []SElem, v *Atom, cls RuneSet) bool {
		for _, x := range el {
			switch x.kind {
			case sRune:
				c, ok := st.runeSet1(x.r)
				if a, single := x.r.single(); single && a == v {
					c, ok = cls, true
				}
				if !ok || !c.minus(set).empty() {
					return false
				}
			case sStar:
				for i, a := range x.star.alts {
					if !in(a.img, a.v, st.starClass(x.star, i)) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return in(e.explode(s).el, nil, nil)
}

// plainDecimal tells if the string is a decimal number without a sign,
// leading zeros and underscores
func (e *Eng) plainDecimal(st *State, s VStr) bool {
	f, ok := e.firstClass(st, s)
	return ok && f.minus(rs('1', '9')).empty() && e.allIn(st, s, rs('0', '9'))
}

// fits tells if the string is a short sequence of digits
func (e *Eng) fits(st *State, s VStr, base, bits int, set RuneSet) bool {
	digits := set.minus(rs('+', '+', '-', '-'))
	per := map[int]int{10: 4, 16: 4, 8: 3, 2: 1}[base]
	if len(s.el) == 0 || len(s.el)*per > bits-1 {
		return false
	}
	for _, el := range s.el {
		if el.kind != sRune {
			return false
		}
		c, ok := st.runeSet1(el.r)
		if !ok || !c.minus(digits).empty() {
			return false
		}
	}
	return true
}

func (e *Eng) parseFloat(st *State, s Val, bits int, t types.Type) []Ret {
	ret := func(st *State, v Val, err Val) Ret { return Ret{st: st, val: VTuple{[]Val{v, err}}} }
	nilErr := VNil{types.Universe.Lookup("error").Type()}
	str, ok := s.(VStr)
	if !ok {
		return []Ret{ret(st.clone(), unknown(t), e.newErr(st, "parse error")), ret(st, unknown(t), nilErr)}
	}
	if c, ok := str.constant(); ok {
		v, err := strconv.ParseFloat(c, bits)
		if err != nil {
			return []Ret{ret(st, VFloat{v}, e.newErr(st, "parse error", s))}
		}
		return []Ret{ret(st, VFloat{v}, nilErr)}
	}
	suffix := ""
	if bits != 64 {
		suffix = fmt.Sprint(bits)
	}
	canon := e.canon(st, str)
	bad := false
	if f, ok := e.firstClass(st, canon); ok && f.inter(rs('0', '9', '+', '+', '-', '-', '.', '.', 'i', 'i', 'I', 'I', 'n', 'n', 'N', 'N')).empty() {
		bad = true
	}
	if e.hasOther(st, canon, rsFloat) {
		bad = true
	}
	errv := func(st *State) Ret {
		return ret(st, floatTerm("badfloat", canon), e.newErr(st, "parse error", canon))
	}
	if bad {
		return []Ret{errv(st)}
	}
	yes, no := e.fork(st, floatOK(canon, suffix))
	var out []Ret
	if no != nil {
		out = append(out, errv(no))
	}
	if yes != nil {
		out = append(out, ret(yes, floatVal(canon, suffix), nilErr))
	}
	return out
}

// trim removes the runes of a set from the ends of a string
func (e *Eng) trim(st *State, s VStr, cut string, left, right bool) (VStr, bool) {
	var set RuneSet
	for _, r := range cut {
		set = set.union(rs(r, r))
	}
	el := e.canon(st, s).el
	// side finds the first element to keep, in some order
	side := func(at func(i int) SElem) (int, bool) {
		for i := 0; i < len(el); i++ {
			x := at(i)
			switch x.kind {
			case sRune:
				c, ok := st.runeSet1(x.r)
				if !ok {
					return 0, false
				}
				if c.inter(set).empty() {
					return i, true
				}
				if !c.minus(set).empty() {
					return 0, false
				}
			case sStar:
				// nothing to remove from the star, or from what follows it
				for _, a := range x.star.alts {
					if !a.cls.inter(set).empty() || len(a.img) != 1 || a.img[0].kind != sRune || a.img[0].r.key() != linA(a.v).key() {
						return 0, false
					}
				}
				for j := i + 1; j < len(el); j++ {
					y := at(j)
					if y.kind != sRune {
						return 0, false
					}
					c, ok := st.runeSet1(y.r)
					if !ok || !c.inter(set).empty() {
						return 0, false
					}
					break
				}
				return i, true
			default:
				return 0, false
			}
		}
		return len(el), true
	}
	from, to := 0, len(el)
	if left {
		k, ok := side(func(i int) SElem { return el[i] })
		if !ok {
			return s, false
		}
		from = k
	}
	if right {
		k, ok := side(func(i int) SElem { return el[len(el)-1-i] })
		if !ok {
			return s, false
		}
		to = len(el) - k
	}
	if from == 0 && to == len(el) {
		return s, true
	}
	if from > to {
		return mkStr(), true
	}
	return mkStr(el[from:to]...), true
}

func constArg(v Val) (string, bool) {
	if s, ok := v.(VStr); ok {
		return s.constant()
	}
	return "", false
}

// strList returns the strings of a list of a known length
func strList(st *State, v Val) ([]VStr, bool) {
	sl, ok := v.(VSlice)
	if !ok || !sl.off.isZero() {
		return nil, false
	}
	o := st.obj(sl.obj)
	if o == nil || o.arr == nil {
		return nil, false
	}
	segs, ok := listContent(st, o.arr, sl.len)
	if !ok {
		return nil, false
	}
	var out []VStr
	for _, x := range segs {
		s, ok := x.el.(VStr)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// replaceRunes replaces runes by strings
func (e *Eng) replaceRunes(st *State, s VStr, from []rune, by []VStr) ([]Ret, bool) {
	find := func(c rune) int {
		for i, r := range from {
			if r == c {
				return i
			}
		}
		return -1
	}
	var special RuneSet
	for _, r := range from {
		special = special.union(rs(r, r))
	}
	v := e.explode(s)
	for _, el := range v.el {
		if el.kind != sRune {
			continue
		}
		c, ok := st.runeSet1(el.r)
		if !ok {
			return nil, false
		}
		if in := c.inter(special); c.size() > 1 && !in.empty() {
			var out []Ret
			is, not := e.fork(st, cEq(el.r, linC(int64(in[0].lo))))
			for _, x := range []*State{is, not} {
				if x != nil {
					rs, ok := e.replaceRunes(x, s, from, by)
					if !ok {
						return nil, false
					}
					out = append(out, rs...)
				}
			}
			return out, true
		}
	}
	var out []SElem
	for _, el := range v.el {
		switch el.kind {
		case sRune:
			c, _ := st.runeSet1(el.r)
			if c.size() == 1 && find(c[0].lo) >= 0 {
				out = append(out, by[find(c[0].lo)].el...)
			} else {
				out = append(out, el)
			}
		case sStar:
			n := &Star{id: el.star.id, t: el.star.t}
			for _, a := range el.star.alts {
				// the classes in which the rune is one to replace
				parts := []RuneSet{a.cls.minus(special)}
				for _, r := range from {
					parts = append(parts, a.cls.inter(rs(r, r)))
				}
				for _, cls := range parts {
					if cls.empty() {
						continue
					}
					var img []SElem
					for _, ie := range a.img {
						if ie.kind != sRune {
							return nil, false
						}
						k, isC := ie.r.constInt()
						if y, sg := ie.r.single(); sg && y == a.v {
							if cls.size() == 1 {
								k, isC = int64(cls[0].lo), true
							} else {
								k, isC = -1, true
							}
						}
						if !isC {
							return nil, false
						}
						if i := find(rune(k)); i >= 0 {
							for _, y := range by[i].el {
								if y.kind != sRune {
									return nil, false
								}
							}
							img = append(img, by[i].el...)
						} else {
							img = append(img, ie)
						}
					}
					n.alts = append(n.alts, StarAlt{tag: a.tag, cls: cls, v: a.v, img: img})
				}
			}
			out = append(out, SElem{kind: sStar, star: normStar(n)})
		default:
			return nil, false
		}
	}
	return one(st, mkStr(out...)), true
}

func (e *Eng) stdlib(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args, binds []Val, rt *types.Tuple) []Ret {
	name := fn.String()
	var t types.Type
	if rt.Len() > 0 {
		t = rt.At(0).Type()
	}
	boolRets := func(yes, no *State) []Ret {
		var out []Ret
		if no != nil {
			out = append(out, Ret{st: no, val: VBool{cFalse}})
		}
		if yes != nil {
			out = append(out, Ret{st: yes, val: VBool{cTrue}})
		}
		return out
	}
	str := func(i int) (VStr, bool) { s, ok := args[i].(VStr); return s, ok }
	if o := fn.Origin(); o != nil {
		switch o.String() {
		case "slices.Sort", "slices.Reverse":
			return e.sortSlice(st, in, args[0])
		}
	}
	if r, ok := constStr(name, args); ok {
		return one(st, r)
	}
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s":
		return e.sortSlice(st, in, args[0])
	case "strconv.Atoi":
		return e.parseInt(st, args[0], 10, 64, false, t)
	case "strconv.ParseInt", "strconv.ParseUint":
		b, ok1 := args[1].(VInt)
		n, ok2 := args[2].(VInt)
		if ok1 && ok2 {
			base, ok1 := b.l.constInt()
			bits, ok2 := n.l.constInt()
			if ok1 && ok2 {
				return e.parseInt(st, args[0], int(base), int(bits), name == "strconv.ParseUint", t)
			}
		}
	case "strconv.ParseFloat":
		bits := 0
		if v, ok := args[1].(VInt); ok {
			if k, ok := v.l.constInt(); ok {
				bits = 64
				if k == 32 {
					bits = 32
				}
			}
		}
		return e.parseFloat(st, args[0], bits, t)
	case "strconv.Itoa":
		if v, ok := args[0].(VInt); ok {
			if k, ok := v.l.constInt(); ok {
				return one(st, strC(strconv.FormatInt(k, 10)))
			}
		}
		return one(st, strChunk(mkTerm(tString, "itoa", args[0])))
	case "strconv.FormatInt":
		if v, ok := args[0].(VInt); ok {
			if b, ok := args[1].(VInt); ok && b.l.equal(linC(10)) {
				if k, ok := v.l.constInt(); ok {
					return one(st, strC(strconv.FormatInt(k, 10)))
				}
				return one(st, strChunk(mkTerm(tString, "itoa", v)))
			}
		}
		return one(st, strChunk(mkTerm(tString, name, args...)))
	case "strconv.FormatFloat", "strconv.Quote", "strconv.FormatBool", "strings.ToLower", "strings.ToUpper", "strings.Repeat":
		return one(st, strChunk(mkTerm(tString, name, args...)))
	case "strings.IndexRune", "strings.ContainsRune", "strings.IndexByte":
		s, ok := str(0)
		r, ok2 := args[1].(VInt)
		if ok && ok2 {
			cls, known := st.runeSet1(r.l)
			hay, hayConst := s.constant()
			ret := func(st *State, found bool) Ret {
				if name == "strings.ContainsRune" {
					return Ret{st: st, val: VBool{cBool(found)}}
				}
				if !found {
					return Ret{st: st, val: vi(-1)}
				}
				a := linA(e.freshAtom("index", big0, maxInt64))
				st.addLin(st.strLen(s).sub(a).addC(-1))
				return Ret{st: st, val: VInt{a}}
			}
			if hayConst && known {
				// is the rune in a constant string
				if k, ok := r.l.constInt(); ok {
					i := strings.IndexRune(hay, rune(k))
					if name == "strings.ContainsRune" {
						return one(st, VBool{cBool(i >= 0)})
					}
					return one(st, vi(int64(i)))
				}
				set := rsOf(hay)
				inn, out := cls.inter(set), cls.minus(set)
				a, single := r.l.single()
				if single {
					var res []Ret
					if !out.empty() {
						s2 := st.clone()
						s2.runes[a] = out
						res = append(res, ret(s2, false))
					}
					if !inn.empty() {
						st.runes[a] = inn
						res = append(res, ret(st, true))
					}
					return res
				}
			}
			if k, ok := r.l.constInt(); ok {
				yes, no := e.hasRune(st, s, rs(rune(k), rune(k)))
				var out []Ret
				if no != nil {
					out = append(out, ret(no, false))
				}
				if yes != nil {
					out = append(out, ret(yes, true))
				}
				return out
			}
		}
	case "strings.ContainsAny", "strings.IndexAny":
		s, ok := str(0)
		c, ok2 := constArg(args[1])
		if ok && ok2 {
			yes, no := e.hasRune(st, s, rsOf(c))
			if name == "strings.ContainsAny" {
				return boolRets(yes, no)
			}
			var out []Ret
			if no != nil {
				out = append(out, Ret{st: no, val: vi(-1)})
			}
			if yes != nil {
				a := linA(e.freshAtom("index", big0, maxInt64))
				yes.addLin(yes.strLen(s).sub(a).addC(-1))
				out = append(out, Ret{st: yes, val: VInt{a}})
			}
			return out
		}
	case "strings.Contains", "strings.Index":
		s, ok := str(0)
		c, ok2 := constArg(args[1])
		if ok && ok2 {
			if len([]rune(c)) == 1 {
				yes, no := e.hasRune(st, s, rsOf(c))
				if name == "strings.Contains" {
					return boolRets(yes, no)
				}
				var out []Ret
				if no != nil {
					out = append(out, Ret{st: no, val: vi(-1)})
				}
				if yes != nil {
					a := linA(e.freshAtom("index", big0, maxInt64))
					yes.addLin(yes.strLen(s).sub(a).addC(-1))
					out = append(out, Ret{st: yes, val: VInt{a}})
				}
				return out
			}
			if h, ok := s.constant(); ok {
				if name == "strings.Contains" {
					return one(st, VBool{cBool(strings.Contains(h, c))})
				}
				return one(st, vi(int64(strings.Index(h, c))))
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix":
		s, ok := str(0)
		p, ok2 := str(1)
		if ok && ok2 {
			x := e.explode(s).el
			res := 1
			n := len(p.el)
			for i := 0; i < n && res > 0; i++ {
				if p.el[i].kind != sRune {
					res = 0
					break
				}
				j := i
				pe := p.el[i]
				if name == "strings.HasSuffix" {
					pe = p.el[n-1-i]
					j = len(x) - 1 - i
				}
				if j >= len(x) || j < 0 {
					res = -1
					break
				}
				if x[j].kind != sRune {
					res = 0
					break
				}
				switch st.decide(cEq(x[j].r, pe.r)) {
				case -1:
					res = -1
				case 0:
					res = 0
				}
			}
			if res != 0 {
				return one(st, VBool{cBool(res > 0)})
			}
			if len(p.el) == 1 && len(x) > 0 {
				first := x[0]
				if name == "strings.HasSuffix" {
					first = x[len(x)-1]
				}
				if first.kind == sRune && p.el[0].kind == sRune {
					return one(st, VBool{cEq(first.r, p.el[0].r)})
				}
			}
			return one(st, VBool{cTermBool(mkTerm(tBool, name, args...))})
		}
	case "strings.ReplaceAll", "strings.Replace":
		s, ok := str(0)
		c, ok2 := constArg(args[1])
		by, ok3 := str(2)
		all := name == "strings.ReplaceAll"
		if !all {
			if n, ok := args[3].(VInt); ok {
				k, isC := n.l.constInt()
				all = isC && k < 0
			}
		}
		if ok && ok2 && ok3 && all && len([]rune(c)) == 1 {
			if r, ok := e.replaceRunes(st, s, []rune(c), []VStr{by}); ok {
				return r
			}
		}
		return one(st, strChunk(mkTerm(tString, name, args...)))
	case "strings.NewReplacer":
		if pairs, ok := strList(st, args[0]); ok && len(pairs)%2 == 0 {
			var vs []Val
			for _, x := range pairs {
				vs = append(vs, x)
			}
			return one(st, VTerm{mkTerm(t, name, vs...)})
		}
	case "(*strings.Replacer).Replace":
		s, ok2 := str(1)
		if r, ok := args[0].(VTerm); ok && ok2 && r.t.op == "strings.NewReplacer" {
			var from []rune
			var by []VStr
			good := true
			for i := 0; i+1 < len(r.t.args); i += 2 {
				c, ok := constArg(r.t.args[i])
				v, ok2 := r.t.args[i+1].(VStr)
				good = good && ok && ok2 && len([]rune(c)) == 1
				if good {
					from, by = append(from, []rune(c)[0]), append(by, v)
				}
			}
			if good {
				if out, ok := e.replaceRunes(st, s, from, by); ok {
					return out
				}
			}
		}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if s, ok := str(0); ok {
			cut, isC := "\t\n\v\f\r \u0085\u00A0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000", true
			if len(args) > 1 {
				cut, isC = constArg(args[1])
			}
			if isC && !strings.HasSuffix(name, "fix") {
				if r, ok := e.trim(st, s, cut, name != "strings.TrimRight", name != "strings.TrimLeft"); ok {
					return one(st, r)
				}
			}
			if isC && len([]rune(cut)) == 1 && len(s.el) > 0 {
				first, rest := s.el[0], s.el[1:]
				if name == "strings.TrimSuffix" {
					first, rest = s.el[len(s.el)-1], s.el[:len(s.el)-1]
				}
				if first.kind == sRune {
					var out []Ret
					is, not := e.fork(st, cEq(first.r, linC(int64([]rune(cut)[0]))))
					if is != nil {
						out = append(out, Ret{st: is, val: mkStr(rest...)})
					}
					if not != nil {
						out = append(out, Ret{st: not, val: s})
					}
					return out
				}
			}
			if c, ok := s.constant(); ok && isC {
				if name == "strings.TrimPrefix" {
					return one(st, strC(strings.TrimPrefix(c, cut)))
				}
				return one(st, strC(strings.TrimSuffix(c, cut)))
			}
			return one(st, strChunk(mkTerm(tString, name, args...)))
		}
	case "strings.EqualFold":
		return one(st, VBool{cTermBool(mkTerm(tBool, name, args...))})
	case "strings.Compare":
		x, ok := str(0)
		y, ok2 := str(1)
		if ok && ok2 {
			var out []Ret
			lt, rest := e.fork(st, relCond(x, y, 1))
			if lt != nil {
				out = append(out, Ret{st: lt, val: vi(-1)})
			}
			if rest != nil {
				eq, gt := e.fork(rest, relCond(x, y, 2))
				if eq != nil {
					out = append(out, Ret{st: eq, val: vi(0)})
				}
				if gt != nil {
					out = append(out, Ret{st: gt, val: vi(1)})
				}
			}
			return out
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteByte":
		if p, ok := args[0].(VPtr); ok && len(p.path) == 0 {
			o := *st.obj(p.obj)
			e.checkWrite(st, &o, nil, in, name)
			o.list = append(o.list[:len(o.list):len(o.list)], LSeg{el: args[1]})
			st.set(&o)
			return e.result(st, rt, func(i int, t types.Type) Val {
				if isErrorType(t) {
					return VNil{t}
				}
				return unknown(t)
			})
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(st, nil)
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if p, ok := args[0].(VPtr); ok && len(p.path) == 0 {
			return one(st, segsToStr(st.obj(p.obj).list))
		}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		if p, ok := args[0].(VPtr); ok && len(p.path) == 0 {
			if s, ok := segsToStr(st.obj(p.obj).list).(VStr); ok {
				return one(st, VInt{st.strLen(s)})
			}
			return one(st, VInt{linA(e.freshAtom("len", big0, maxInt64))})
		}
	case "errors.New", "fmt.Errorf":
		return one(st, e.newErr(st, fmt.Sprintf("%s at %s", name, e.pos(in)), args[0]))
	case "errors.Is", "errors.As":
		return one(st, unknown(t))
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		var as []Val
		for _, a := range args {
			as = append(as, e.flatArgs(st, a)...)
		}
		if name == "fmt.Sprint" && len(as) == 1 {
			if f, ok := as[0].(VIface); ok {
				if s, ok := f.v.(VStr); ok && types.Identical(f.dyn, tString) {
					return one(st, s)
				}
			}
		}
		for _, a := range as {
			if isUnknown(a) {
				return one(st, unknown(t))
			}
		}
		return one(st, strChunk(mkTerm(tString, name, as...)))
	case "math.Pow", "math.Mod", "math.Abs", "math.Floor", "math.Ceil", "math.Trunc", "math.Round", "math.Sqrt", "math.Max", "math.Min", "math.Remainder", "math.Inf", "math.NaN":
		if len(args) == 2 {
			a, ok1 := args[0].(VFloat)
			b, ok2 := args[1].(VFloat)
			if ok1 && ok2 {
				if name == "math.Pow" || name == "math.Mod" {
					return one(st, mathConst(name, a.f, b.f))
				}
			}
		}
		for _, a := range args {
			if isUnknown(a) {
				return one(st, unknown(t))
			}
		}
		return one(st, floatTerm(name, args...))
	case "math.IsNaN", "math.IsInf":
		return one(st, VBool{cTermBool(mkTerm(tBool, name, args...))})
	case "unicode.IsDigit":
		return e.runeIn(st, args[0], rsTable(unicode.Digit))
	case "unicode.IsLetter":
		return e.runeIn(st, args[0], rsTable(unicode.L))
	case "unicode.IsNumber":
		return e.runeIn(st, args[0], rsTable(unicode.N))
	case "unicode.IsSpace":
		return e.runeIn(st, args[0], rsTable(unicode.White_Space))
	case "unicode.IsUpper":
		return e.runeIn(st, args[0], rsTable(unicode.Upper))
	case "unicode.IsLower":
		return e.runeIn(st, args[0], rsTable(unicode.Lower))
	case "unicode.IsControl":
		return e.runeIn(st, args[0], rs(0, 0x1f, 0x7f, 0x9f))
	case "unicode.IsPrint", "unicode.IsPunct":
		return one(st, VBool{cTermBool(mkTerm(tBool, name, args...))})
	case "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			n := linC(0)
			for _, el := range e.explode(s).el {
				if el.kind == sRune {
					n = n.addC(1)
				} else {
					n = n.add(linA(newAtom("runes("+el.star.key()+")", big0, maxInt64)))
				}
			}
			return one(st, VInt{n})
		}
	case "unicode/utf8.RuneLen":
		if v, ok := args[0].(VInt); ok {
			return one(st, VInt{st.width(v.l)})
		}
	case "reflect.TypeOf":
		if v, ok := args[0].(VIface); ok {
			return one(st, VIface{t, VRType{v.dyn}})
		}
	}
	pkg := fnPkg(fn)
	switch pkg {
	case "strings", "slices", "maps", "sort", "unicode/utf8", "cmp", "iter":
		return e.Call(st, fn, args, binds, fr)
	}
	e.undecide("function %s is not modelled (called at %s)", name, e.pos(in))
	return nil
}

// constStr is the result of a function of constant strings
func constStr(name string, args []Val) (Val, bool) {
	var ss []string
	var k int64
	for _, a := range args {
		switch a := a.(type) {
		case VStr:
			c, ok := a.constant()
			if !ok {
				return nil, false
			}
			ss = append(ss, c)
		case VInt:
			c, ok := a.l.constInt()
			if !ok {
				return nil, false
			}
			k = c
		default:
			return nil, false
		}
	}
	num := func(n int) (Val, bool) { return vi(int64(n)), true }
	switch {
	case name == "strings.ToLower" && len(ss) == 1:
		return strC(strings.ToLower(ss[0])), true
	case name == "strings.ToUpper" && len(ss) == 1:
		return strC(strings.ToUpper(ss[0])), true
	case name == "strconv.Quote" && len(ss) == 1:
		return strC(strconv.Quote(ss[0])), true
	case name == "strings.Repeat" && len(ss) == 1 && k >= 0 && k*int64(len(ss[0])) < 1000:
		return strC(strings.Repeat(ss[0], int(k))), true
	case name == "strings.IndexByte" && len(ss) == 1:
		return num(strings.IndexByte(ss[0], byte(k)))
	case name == "strings.LastIndexByte" && len(ss) == 1:
		return num(strings.LastIndexByte(ss[0], byte(k)))
	case name == "strings.IndexRune" && len(ss) == 1:
		return num(strings.IndexRune(ss[0], rune(k)))
	case len(ss) != 2 || len(args) != 2:
	case name == "strings.Index":
		return num(strings.Index(ss[0], ss[1]))
	case name == "strings.LastIndex":
		return num(strings.LastIndex(ss[0], ss[1]))
	case name == "strings.IndexAny":
		return num(strings.IndexAny(ss[0], ss[1]))
	case name == "strings.LastIndexAny":
		return num(strings.LastIndexAny(ss[0], ss[1]))
	case name == "strings.Count":
		return num(strings.Count(ss[0], ss[1]))
	case name == "strings.Compare":
		return num(strings.Compare(ss[0], ss[1]))
	case name == "strings.EqualFold":
		return VBool{cBool(strings.EqualFold(ss[0], ss[1]))}, true
	case name == "strings.Contains":
		return VBool{cBool(strings.Contains(ss[0], ss[1]))}, true
	case name == "strings.ContainsAny":
		return VBool{cBool(strings.ContainsAny(ss[0], ss[1]))}, true
	}
	return nil, false
}

// sortSlice brings the elements of a slice into another order
func (e *Eng) sortSlice(st *State, in ssa.Instruction, v Val) []Ret {
	s, ok := v.(VSlice)
	if !ok {
		if isNilVal(v) {
			return one(st, nil)
		}
		e.oblige("unknown-store", in, false, "an unknown slice is sorted")
		return one(st, nil)
	}
	if n, ok := s.len.constInt(); ok && n < 2 {
		return one(st, nil)
	}
	o := *st.obj(s.obj)
	e.checkWrite(st, &o, s.off, in, "sort")
	if o.arr == nil {
		return one(st, nil)
	}
	a := &Arr{elem: o.arr.elem, lost: true}
	if segs, ok := listContent(st, o.arr, s.len); ok && s.off.isZero() {
		a = &Arr{elem: o.arr.elem, base: s.len, prefix: []LSeg{{name: "sorted(" + segsKey(segs) + ")", perm: segs}}}
	}
	o.arr = a
	st.set(&o)
	return one(st, nil)
}

// flatArgs returns the elements of a variadic argument
func (e *Eng) flatArgs(st *State, v Val) []Val {
	s, ok := v.(VSlice)
	if !ok {
		if isNilVal(v) {
			return nil
		}
		return []Val{v}
	}
	n, ok := s.len.constInt()
	if !ok {
		return []Val{v}
	}
	var out []Val
	for i := int64(0); i < n; i++ {
		out = append(out, st.arrRead(st.obj(s.obj).arr, s.off.addC(i)))
	}
	return out
}

func mathConst(name string, a, b float64) Val {
	if name == "math.Pow" {
		return VFloat{math.Pow(a, b)}
	}
	return VFloat{math.Mod(a, b)}
}

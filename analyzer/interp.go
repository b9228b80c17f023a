package main

// Abstract interpreter for the SSA form.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// undecided is the panic value used when the analysis cannot go on
type undecided string

type Frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]Val
	up    *Frame
	cur   ssa.Instruction // current instruction
	binds []Val
	args  []Val
	entry *State
	sum   *RecSum // of the generic analysis of a recursive function
	depth int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = cloneMap(f.regs)
	return &n
}

type Ret struct {
	st    *State
	val   Val
	panic bool
}

const (
	oReturn = iota
	oPanic
	oStop
)

type Out struct {
	kind      int
	st        *State
	fr        *Frame
	val       Val
	blk, prev *ssa.BasicBlock
	alt       int
}

// Obl is a proof obligation at a program point
type Obl struct {
	rule string
	pos  string
	fn   string
	ok   bool
	why  string
	sc   string
}

type Eng struct {
	P            *Prog
	next         int
	steps        int
	limit        int
	start        time.Time
	narrowed     bool // parsing a number of which some characters were excluded
	sc           *Scenario
	obl          []Obl
	writes       int             // stores checked
	marks        map[string]bool // instructions visited
	loopN        int
	recN         int
	recs         []*RecSum
	recChange    map[string]bool // objects changed by recursive calls
	callDepth    int
	loopCache    map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	live         map[*ssa.Function]*liveness
	extN         int
	noLog        int
	cmpLog       *[]*Lin
	loopStats    map[string]int
	summaryDepth int
	allLoops     []*LoopEv
	ext          map[int]*ExtInfo
	lastIn       ssa.Instruction
	shape        func(n *Term) *Shape // what the scenario assumes about a node
	hook         hookFn               // replaces functions
}

type hookFn func(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Val) ([]Ret, bool)

// Shape is what a scenario assumes about a node of the document
type Shape struct {
	typ string         // type of the node
	dyn types.Type     // type of its value, nil for a null
	has map[string]int // members it has (1) and has not (-1)
}

func (e *Eng) shapeOf(n Val) *Shape {
	if t, ok := n.(VTerm); ok && e.shape != nil {
		return e.shape(t.t)
	}
	return nil
}

func (e *Eng) undecide(format string, a ...any) {
	panic(undecided(fmt.Sprintf(format, a...)))
}

func (e *Eng) pos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		// closest instruction with a position
		b := e.P.blockOf(i)
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == i && p.IsValid() {
				break
			}
		}
	}
	return e.P.position(p)
}

func (e *Eng) oblige(rule string, i ssa.Instruction, ok bool, why string) {
	if i == nil { // the oracle of a query
		return
	}
	e.obl = append(e.obl, Obl{rule, e.pos(i), i.Parent().String(), ok, why, e.scName()})
}

func (e *Eng) scName() string {
	if e.sc == nil {
		return ""
	}
	return e.sc.Name
}

func (e *Eng) alloc(st *State, t types.Type, site string) *Obj {
	e.next++
	o := &Obj{id: e.next, typ: t, site: site}
	st.set(o)
	return o
}

// newArray allocates an array with the given elements
func (e *Eng) newArray(st *State, elem types.Type, vals []Val, site string) *Obj {
	o := e.alloc(st, elem, site)
	o.arr = &Arr{elem: elem, zero: true}
	for i, v := range vals {
		o.arr.cells = append(o.arr.cells, Cell{linC(int64(i)), v})
	}
	return o
}

// newSlice returns a slice with the given elements
func (e *Eng) newSlice(st *State, elem types.Type, vals []Val, site string) VSlice {
	o := e.newArray(st, elem, vals, site)
	n := linC(int64(len(vals)))
	return VSlice{o.id, linC(0), n, n}
}

// ---------------------------------------------------------------- memory

func (e *Eng) load(st *State, p Val, t types.Type, i ssa.Instruction) Val {
	switch p := p.(type) {
	case VPtr:
		o := st.obj(p.obj)
		if o.tree != nil || o.ext {
			return VExt{id: o.id, path: pathKey(p.path), t: t}
		}
		if o.esc != nil && len(p.path) > 0 {
			st.imp = "reads memory handed to the callback"
			return unknown(t)
		}
		return e.loadPath(st, o, p.path, t)
	case VExt:
		return VExt{id: p.id, path: p.path, t: t}
	case VNil:
		e.oblige("nil-dereference", i, false, "nil pointer dereference")
		st.dead = true
		return unknown(t)
	case VUnknown:
		return unknown(t)
	case VTerm:
		return VTerm{mkTerm(t, "deref", p)}
	}
	return unknown(t)
}

func pathKey(p []PStep) string {
	s := ""
	for _, x := range p {
		s += x.key()
	}
	return s
}

func (e *Eng) loadPath(st *State, o *Obj, path []PStep, t types.Type) Val {
	var v Val
	if o.arr != nil {
		if len(path) == 0 {
			// load of a whole array
			at, ok := t.Underlying().(*types.Array)
			if !ok || at.Len() > 64 {
				return unknown(t)
			}
			r := VArr{t: t}
			for i := int64(0); i < at.Len(); i++ {
				r.el = append(r.el, st.arrRead(o.arr, linC(i)))
			}
			return r
		}
		if path[0].field >= 0 {
			return unknown(t)
		}
		v = st.arrRead(o.arr, path[0].idx)
		path = path[1:]
	} else {
		v = o.v
	}
	for _, s := range path {
		v = e.sub(v, s, t)
	}
	if v == nil {
		return unknown(t)
	}
	return v
}

func (e *Eng) sub(v Val, s PStep, t types.Type) Val {
	switch x := v.(type) {
	case VStruct:
		if s.field >= 0 && s.field < len(x.f) {
			return x.f[s.field]
		}
	case VArr:
		if s.field < 0 {
			if k, ok := s.idx.constInt(); ok && k >= 0 && int(k) < len(x.el) {
				return x.el[k]
			}
		}
	case VTerm:
		if s.field >= 0 {
			return VTerm{mkTerm(t, fmt.Sprintf("field%d", s.field), x)}
		}
	case VExt:
		return VExt{id: x.id, path: x.path + s.key(), t: t}
	}
	return unknown(t)
}

func (e *Eng) setSub(st *State, v Val, path []PStep, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case VStruct:
		if s.field >= 0 && s.field < len(x.f) {
			f := append([]Val(nil), x.f...)
			f[s.field] = e.setSub(st, f[s.field], path[1:], nv)
			return VStruct{x.t, f}
		}
	case VArr:
		if s.field < 0 {
			if k, ok := s.idx.constInt(); ok && k >= 0 && int(k) < len(x.el) {
				el := append([]Val(nil), x.el...)
				el[k] = e.setSub(st, el[k], path[1:], nv)
				return VArr{x.t, el}
			}
		}
		el := make([]Val, len(x.el))
		for i := range el {
			el[i] = unknown(nil)
		}
		return VArr{x.t, el}
	}
	return unknown(nil)
}

// writeObj checks that an object may be written
func (e *Eng) checkWrite(st *State, o *Obj, idx *Lin, i ssa.Instruction, what string) {
	e.writes++
	if o.frozen != "" {
		rule := "write-to-" + o.frozen
		e.oblige(rule, i, false, fmt.Sprintf("%s modifies memory of the %s (%s)", what, o.frozen, o.site))
	}
	if o.esc != nil {
		if idx == nil || !st.proveGe(idx.sub(o.esc)) {
			e.oblige("write-after-capture", i, false, fmt.Sprintf("%s modifies the path given to the callback (%s)", what, o.site))
		}
	}
}

func (e *Eng) store(st *State, p Val, v Val, i ssa.Instruction) {
	switch p := p.(type) {
	case VPtr:
		o := st.obj(p.obj)
		if o.tree != nil || o.ext {
			return
		}
		n := *o
		var idx *Lin
		if o.arr != nil && len(p.path) > 0 && p.path[0].field < 0 {
			idx = p.path[0].idx
		}
		e.checkWrite(st, o, idx, i, "store")
		if o.arr != nil {
			switch {
			case len(p.path) == 0:
				a := &Arr{elem: o.arr.elem, zero: true}
				if x, ok := v.(VArr); ok {
					for k, el := range x.el {
						a.cells = append(a.cells, Cell{linC(int64(k)), el})
					}
				} else {
					a.lost = true
				}
				n.arr = a
			case len(p.path) == 1:
				n.arr = st.arrWrite(o.arr, idx, v)
			default:
				old := st.arrRead(o.arr, idx)
				n.arr = st.arrWrite(o.arr, idx, e.setSub(st, old, p.path[1:], v))
			}
		} else {
			n.v = e.setSub(st, o.v, p.path, v)
		}
		st.set(&n)
	case VExt:
	case VNil:
		e.oblige("nil-dereference", i, false, "store through a nil pointer")
		st.dead = true
	case VTerm:
		e.oblige("write-to-document", i, false, "store through a pointer that comes from the document: "+p.K())
	case VUnknown:
		st.imp = "store through an unknown pointer at " + e.pos(i)
		e.oblige("unknown-store", i, false, "store through a pointer the analysis does not know")
	}
}

// ---------------------------------------------------------------- frames

func (e *Eng) get(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Builtin:
		return VFunc{bi: x}
	case *ssa.Global:
		return e.global(st, x)
	}
	if r, ok := fr.regs[v]; ok {
		return r
	}
	panic(undecided(fmt.Sprintf("register %s of %s is not set", v.Name(), fr.fn)))
}

func (e *Eng) global(st *State, g *ssa.Global) Val {
	k := g.String()
	if id, ok := st.globals[k]; ok {
		return VPtr{obj: id}
	}
	t := g.Type().(*types.Pointer).Elem()
	o := e.alloc(st, t, "global "+k)
	if g.Pkg != e.P.Root {
		// package-level variable of another package: not analysed
		o.v = VTerm{mkTerm(t, "global:"+k)}
		if _, ok := t.Underlying().(*types.Basic); ok {
			o.v = unknown(t)
		}
	} else {
		e.initObj(o, t)
	}
	st.globals[k] = o.id
	return VPtr{obj: o.id}
}

func (e *Eng) initObj(o *Obj, t types.Type) {
	if at, ok := t.Underlying().(*types.Array); ok {
		o.arr = &Arr{elem: at.Elem(), zero: true}
		return
	}
	if isNamed(t, "strings", "Builder") || isNamed(t, "bytes", "Buffer") {
		o.isBld = true
		return
	}
	o.v = zeroVal(t)
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// Call runs a function and returns the possible results
func (e *Eng) Call(st *State, fn *ssa.Function, args, binds []Val, up *Frame) []Ret {
	if fn.Blocks == nil {
		e.P.build(fn)
	}
	if fn.Blocks == nil {
		return e.unmodelled(st, fn)
	}
	e.P.unrotate(fn)
	if fn.Pkg == e.P.Root {
		e.marks[fn.String()] = true
	} else if fn.Parent() != nil && fn.Parent().Pkg == e.P.Root {
		e.marks[fn.String()] = true
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, up: up, binds: binds, args: args}
	if up != nil {
		fr.depth = up.depth + 1
	}
	if fr.depth > 120 {
		e.undecide("call depth exceeded in %s", fn)
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.regs[p] = binds[i]
		}
	}
	if r, ok := e.recCut(st, fr); ok {
		return r
	}
	fr.entry = st.clone()
	outs := e.run(st, fr, fn.Blocks[0], nil, 0, nil)
	var rets []Ret
	for _, o := range outs {
		switch o.kind {
		case oReturn:
			rets = append(rets, Ret{st: o.st, val: o.val})
		case oPanic:
			rets = append(rets, Ret{st: o.st, panic: true})
		}
	}
	return rets
}

type work struct {
	st        *State
	fr        *Frame
	blk, prev *ssa.BasicBlock
	idx       int
}

// run interprets from instruction idx of blk on. If idx is 0 the phis
// are evaluated for the edge from prev.
func (e *Eng) run(st *State, fr *Frame, blk, prev *ssa.BasicBlock, idx int, stop func(from, to *ssa.BasicBlock) bool) []Out {
	var outs []Out
	list := []work{{st, fr, blk, prev, idx}}
	var goTo func(w work, to *ssa.BasicBlock)
	goTo = func(w work, to *ssa.BasicBlock) {
		from := w.blk
		if stop != nil && stop(from, to) {
			outs = append(outs, Out{kind: oStop, st: w.st, fr: w.fr, blk: to, prev: from})
			return
		}
		if lp := e.loops(fr.fn)[to]; lp != nil && !lp.blocks[from] {
			for _, o := range e.loop(w.st, w.fr, lp, from) {
				if o.kind == oStop {
					// leaves the loop by the edge prev -> blk
					goTo(work{st: o.st, fr: o.fr, blk: o.prev}, o.blk)
					continue
				}
				outs = append(outs, o)
			}
			return
		}
		list = append(list, work{w.st, w.fr, to, from, 0})
	}
	for len(list) > 0 {
		w := list[len(list)-1]
		list = list[:len(list)-1]
		if w.idx == 0 && w.prev != nil {
			e.phis(w.st, w.fr, w.blk, w.prev)
		}
		instrs := w.blk.Instrs
	block:
		for i := w.idx; i < len(instrs); i++ {
			in := instrs[i]
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			e.steps++
			if e.steps > e.limit {
				e.undecide("step limit exceeded in %s", fr.fn)
			}
			if e.steps%256 == 0 {
				e.within(fr.fn)
			}
			w.fr.cur = in
			if _, ok := in.(*ssa.Jump); !ok {
				e.lastIn = in
			}
			switch in := in.(type) {
			case *ssa.If:
				c := e.get(w.st, w.fr, in.Cond)
				b, ok := c.(VBool)
				if !ok {
					w.st.imp = "branch on an unknown condition at " + e.pos(in)
					s2, f2 := w.st.clone(), w.fr.clone()
					goTo(w, w.blk.Succs[0])
					goTo(work{st: s2, fr: f2, blk: w.blk}, w.blk.Succs[1])
					break block
				}
				e.logCmp(b.c)
				switch w.st.decide(b.c) {
				case 1:
					goTo(w, w.blk.Succs[0])
				case -1:
					goTo(w, w.blk.Succs[1])
				default:
					s2, f2 := w.st.clone(), w.fr.clone()
					if s2.assume(b.c.not()) {
						goTo(work{st: s2, fr: f2, blk: w.blk}, w.blk.Succs[1])
					}
					if w.st.assume(b.c) {
						goTo(w, w.blk.Succs[0])
					}
				}
				break block
			case *ssa.Jump:
				goTo(w, w.blk.Succs[0])
				break block
			case *ssa.Return:
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = e.get(w.st, w.fr, in.Results[0])
				default:
					t := VTuple{}
					for _, r := range in.Results {
						t.f = append(t.f, e.get(w.st, w.fr, r))
					}
					v = t
				}
				outs = append(outs, Out{kind: oReturn, st: w.st, fr: w.fr, val: v})
				break block
			case *ssa.Panic:
				e.oblige("explicit-panic", in, false, "reaches a panic statement")
				outs = append(outs, Out{kind: oPanic, st: w.st, fr: w.fr})
				break block
			default:
				rets := e.instr(w.st, w.fr, in)
				if len(rets) == 1 && !rets[0].panic && rets[0].st == w.st {
					if w.st.dead {
						outs = append(outs, Out{kind: oPanic, st: w.st, fr: w.fr})
						break block
					}
					if v, ok := in.(ssa.Value); ok && rets[0].val != nil {
						w.fr.regs[v] = rets[0].val
					}
					continue
				}
				for k, r := range rets {
					if r.panic || r.st.dead {
						outs = append(outs, Out{kind: oPanic, st: r.st, fr: w.fr})
						continue
					}
					f := w.fr
					if k < len(rets)-1 {
						f = w.fr.clone()
					}
					if v, ok := in.(ssa.Value); ok && r.val != nil {
						f.regs[v] = r.val
					}
					list = append(list, work{r.st, f, w.blk, nil, i + 1})
				}
				break block
			}
		}
		if len(list) > 5000 || len(outs) > 20000 {
			e.undecide("too many paths in %s", fr.fn)
		}
	}
	return outs
}

func (e *Eng) logCmp(c *Cond) {
	if e.cmpLog != nil && (c.op == ">=0" || c.op == "==0") {
		*e.cmpLog = append(*e.cmpLog, c.l)
	}
}

func (e *Eng) phis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.get(st, fr, p.Edges[k]))
	}
	for i, p := range phis {
		fr.regs[p] = vals[i]
	}
}

func one(st *State, v Val) []Ret { return []Ret{{st: st, val: v}} }

// ---------------------------------------------------------------- instructions

func (e *Eng) instr(st *State, fr *Frame, in ssa.Instruction) []Ret {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
		if _, ok := in.(*ssa.RunDefers); ok {
			return one(st, nil)
		}
		return one(st, nil)
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := e.alloc(st, t, e.pos(in))
		e.initObj(o, t)
		return one(st, VPtr{obj: o.id})
	case *ssa.BinOp:
		return e.binop(st, fr, in)
	case *ssa.UnOp:
		x := e.get(st, fr, in.X)
		switch in.Op {
		case token.MUL:
			return one(st, e.load(st, x, in.Type(), in))
		case token.NOT:
			if b, ok := x.(VBool); ok {
				return one(st, VBool{b.c.not()})
			}
		case token.SUB:
			if v, ok := x.(VInt); ok {
				return one(st, e.wrap(st, v.l.neg(), in.Type()))
			}
			if v, ok := x.(VFloat); ok {
				return one(st, VFloat{-v.f})
			}
			if v, ok := x.(VTerm); ok {
				return one(st, VTerm{mkTerm(in.Type(), "fneg", v)})
			}
		}
		return one(st, unknown(in.Type()))
	case *ssa.Store:
		e.store(st, e.get(st, fr, in.Addr), e.get(st, fr, in.Val), in)
		return one(st, nil)
	case *ssa.Call:
		return e.callInstr(st, fr, in, &in.Call)
	case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send:
		e.undecide("%T at %s", in, e.pos(in))
	case *ssa.ChangeInterface:
		return one(st, e.get(st, fr, in.X))
	case *ssa.ChangeType:
		v := e.get(st, fr, in.X)
		switch x := v.(type) {
		case VStruct:
			return one(st, VStruct{in.Type(), x.f})
		case VNil:
			return one(st, VNil{in.Type()})
		}
		return one(st, v)
	case *ssa.MakeInterface:
		return one(st, VIface{in.X.Type(), e.get(st, fr, in.X)})
	case *ssa.MakeClosure:
		f := VFunc{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, e.get(st, fr, b))
		}
		return one(st, f)
	case *ssa.Extract:
		switch t := e.get(st, fr, in.Tuple).(type) {
		case VTuple:
			return one(st, t.f[in.Index])
		}
		return one(st, unknown(in.Type()))
	case *ssa.Field:
		return one(st, e.sub(e.get(st, fr, in.X), PStep{field: in.Field}, in.Type()))
	case *ssa.FieldAddr:
		x := e.get(st, fr, in.X)
		switch p := x.(type) {
		case VPtr:
			return one(st, VPtr{p.obj, append(p.path[:len(p.path):len(p.path)], PStep{field: in.Field})})
		case VExt:
			return one(st, VExt{p.id, p.path + fmt.Sprintf(".%d", in.Field), in.Type()})
		case VNil:
			e.oblige("nil-dereference", in, false, "field of a nil pointer")
			st.dead = true
		}
		return one(st, unknown(in.Type()))
	case *ssa.Index:
		x := e.get(st, fr, in.X)
		i := e.get(st, fr, in.Index)
		if s, ok := x.(VStr); ok {
			return e.strByte(st, s, i, in)
		}
		if a, ok := x.(VArr); ok {
			iv, ok := i.(VInt)
			if ok {
				if k, ok := iv.l.constInt(); ok && int(k) < len(a.el) && k >= 0 {
					return one(st, a.el[k])
				}
			}
			e.inBounds(st, i, linC(int64(len(a.el))), in)
			return one(st, unknown(in.Type()))
		}
		e.oblige("index-in-bounds", in, false, "index of an unknown value")
		return one(st, unknown(in.Type()))
	case *ssa.IndexAddr:
		return one(st, e.indexAddr(st, fr, in))
	case *ssa.Lookup:
		return e.lookup(st, fr, in)
	case *ssa.MakeMap:
		o := e.alloc(st, in.Type(), e.pos(in))
		o.mp = &MapObj{}
		return one(st, VMap{o.id})
	case *ssa.MapUpdate:
		m := e.get(st, fr, in.Map)
		k, v := e.get(st, fr, in.Key), e.get(st, fr, in.Value)
		e.mapUpdate(st, m, k, v, in)
		return one(st, nil)
	case *ssa.MakeSlice:
		n, ok1 := e.get(st, fr, in.Len).(VInt)
		c, ok2 := e.get(st, fr, in.Cap).(VInt)
		if !ok1 || !ok2 {
			e.oblige("make-slice-size", in, false, "unknown size")
			return one(st, unknown(in.Type()))
		}
		ok := st.proveGe(n.l) && st.proveGe(c.l.sub(n.l))
		e.oblige("make-slice-size", in, ok, fmt.Sprintf("make with length %s and capacity %s", n.l.key(), c.l.key()))
		o := e.alloc(st, in.Type(), e.pos(in))
		o.arr = &Arr{elem: in.Type().Underlying().(*types.Slice).Elem(), zero: true}
		return one(st, VSlice{o.id, linC(0), n.l, c.l})
	case *ssa.Slice:
		return one(st, e.slice(st, fr, in))
	case *ssa.TypeAssert:
		return e.typeAssert(st, fr, in)
	case *ssa.Convert:
		return e.convert(st, e.get(st, fr, in.X), in.X.Type(), in.Type(), in)
	case *ssa.Range:
		x := e.get(st, fr, in.X)
		o := e.alloc(st, in.Type(), e.pos(in))
		switch x := x.(type) {
		case VStr:
			o.it = &IterObj{str: e.explode(x), off: linC(0)}
			return one(st, VIter{o.id})
		case VMap:
			mo := st.obj(x.obj)
			if len(mo.mp.keys) > 1 {
				st.imp = "iterates a map at " + e.pos(in)
				e.oblige("map-order", in, false, "iterates a map in random order")
			}
			o.it = &IterObj{mp: x.obj, off: linC(0)}
			return one(st, VIter{o.id})
		case VNil:
			e.next++
			mo := e.alloc(st, in.X.Type(), e.pos(in))
			mo.mp = &MapObj{}
			o.it = &IterObj{mp: mo.id, off: linC(0)}
			return one(st, VIter{o.id})
		case VTerm:
			e.oblige("map-order", in, false, "iterates a map of the document in random order")
			e.next++
			mo := e.alloc(st, in.X.Type(), e.pos(in))
			mo.mp = &MapObj{opaque: x.t}
			o.it = &IterObj{mp: mo.id, off: linC(0)}
			o.v = vi(0) // entries seen
			return one(st, VIter{o.id})
		}
		e.undecide("range over an unknown value at %s", e.pos(in))
	case *ssa.Next:
		return e.nextInstr(st, fr, in)
	}
	e.undecide("unsupported instruction %T at %s", in, e.pos(in))
	return nil
}

func (e *Eng) inBounds(st *State, i Val, n *Lin, in ssa.Instruction) bool {
	iv, ok := i.(VInt)
	if !ok || n == nil {
		e.oblige("index-in-bounds", in, false, "the index or the length is not known")
		return false
	}
	ok = st.proveGe(iv.l) && st.proveGe(n.sub(iv.l).addC(-1))
	e.oblige("index-in-bounds", in, ok, fmt.Sprintf("index %s, length %s", iv.l.key(), n.key()))
	if !ok {
		if !st.assume(cGe0(iv.l)) || !st.assume(cGe0(n.sub(iv.l).addC(-1))) {
			st.dead = true
		}
	}
	return ok
}

func (e *Eng) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Val {
	x := e.get(st, fr, in.X)
	i := e.get(st, fr, in.Index)
	switch x := x.(type) {
	case VSlice:
		e.inBounds(st, i, x.len, in)
		iv, ok := i.(VInt)
		if !ok {
			return unknown(in.Type())
		}
		return VPtr{x.obj, []PStep{{field: -1, idx: x.off.add(iv.l)}}}
	case VPtr: // pointer to array
		if at, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := at.Elem().Underlying().(*types.Array); ok {
				e.inBounds(st, i, linC(a.Len()), in)
			}
		}
		iv, ok := i.(VInt)
		if !ok {
			return unknown(in.Type())
		}
		return VPtr{x.obj, append(x.path[:len(x.path):len(x.path)], PStep{field: -1, idx: iv.l})}
	case VNil:
		e.oblige("index-in-bounds", in, false, "index of a nil slice")
		st.dead = true
		return unknown(in.Type())
	case VExt:
		return VExt{x.id, x.path + "[]", in.Type()}
	}
	e.oblige("index-in-bounds", in, false, "index of an unknown slice")
	return unknown(in.Type())
}

func (e *Eng) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	x := e.get(st, fr, in.X)
	var lo, hi, mx *Lin
	opt := func(v ssa.Value) (*Lin, bool) {
		if v == nil {
			return nil, true
		}
		i, ok := e.get(st, fr, v).(VInt)
		return i.l, ok
	}
	var ok1, ok2, ok3 bool
	lo, ok1 = opt(in.Low)
	hi, ok2 = opt(in.High)
	mx, ok3 = opt(in.Max)
	if !ok1 || !ok2 || !ok3 {
		e.oblige("slice-in-bounds", in, false, "unknown bound")
		return unknown(in.Type())
	}
	if lo == nil {
		lo = linC(0)
	}
	if s, ok := x.(VStr); ok {
		return e.strSlice(st, s, lo, hi, in)
	}
	var sl VSlice
	switch x := x.(type) {
	case VSlice:
		sl = x
	case VNil:
		if (hi == nil || hi.isZero()) && lo.isZero() {
			return x
		}
		e.oblige("slice-in-bounds", in, false, "slice of a nil slice")
		st.dead = true
		return unknown(in.Type())
	case VPtr: // pointer to array
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if len(x.path) != 0 {
			return unknown(in.Type())
		}
		n := linC(at.Len())
		sl = VSlice{x.obj, linC(0), n, n}
	default:
		e.oblige("slice-in-bounds", in, false, "slice of an unknown value")
		return unknown(in.Type())
	}
	if hi == nil {
		hi = sl.len
	}
	limit := sl.cap
	if limit == nil {
		limit = sl.len
	}
	ok := st.proveGe(lo) && st.proveGe(hi.sub(lo)) && st.proveGe(limit.sub(hi))
	if mx != nil {
		ok = ok && st.proveGe(mx.sub(hi)) && st.proveGe(limit.sub(mx))
	}
	e.oblige("slice-in-bounds", in, ok, fmt.Sprintf("[%s:%s] of length %s", lo.key(), hi.key(), sl.len.key()))
	if !ok {
		if !st.assume(cGe0(lo)) || !st.assume(cGe0(hi.sub(lo))) || (sl.cap != nil && !st.assume(cGe0(sl.cap.sub(hi)))) {
			st.dead = true
		}
	}
	var c *Lin
	if sl.cap != nil {
		c = sl.cap.sub(lo)
	}
	if mx != nil {
		c = mx.sub(lo)
	}
	return VSlice{sl.obj, sl.off.add(lo), hi.sub(lo), c}
}

// ---------------------------------------------------------------- arithmetic

// wrap returns the value of an integer expression of the given type. If
// it may overflow, the result is an atom nothing is known about.
func (e *Eng) wrap(st *State, l *Lin, t types.Type) Val {
	lo, hi := intRange(t)
	if l.isConst() {
		if l.c.Cmp(lo) >= 0 && l.c.Cmp(hi) <= 0 {
			return VInt{l}
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big1)
		c := new(big.Int).Sub(l.c, lo)
		c.Mod(c, m)
		return VInt{linB(c.Add(c, lo))}
	}
	if st.proveGe(l.sub(linB(lo))) && st.proveGe(linB(hi).sub(l)) {
		return VInt{l}
	}
	return VInt{linA(termAtom(mkTerm(t, "wrap", VInt{l}), lo, hi))}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (e *Eng) binop(st *State, fr *Frame, in *ssa.BinOp) []Ret {
	x, y := e.get(st, fr, in.X), e.get(st, fr, in.Y)
	t := in.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		if rs := e.equalFork(st, x, y, in); rs != nil {
			return rs
		}
		v := e.equal(st, x, y, in.X.Type(), in.Y.Type(), in)
		if b, ok := v.(VBool); ok && in.Op == token.NEQ {
			v = VBool{b.c.not()}
		}
		return one(st, v)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var m uint8
		switch in.Op {
		case token.LSS:
			m = 1
		case token.LEQ:
			m = 3
		case token.GTR:
			m = 4
		case token.GEQ:
			m = 6
		}
		if isUnknown(x) || isUnknown(y) {
			return one(st, unknown(t))
		}
		return one(st, VBool{relCond(e.narrow(st, x), e.narrow(st, y), m)})
	}
	return e.arith(st, in.Op, x, y, t, in)
}

// arith is an arithmetic operation
func (e *Eng) arith(st *State, tok token.Token, x, y Val, t types.Type, at ssa.Instruction) []Ret {
	in := struct {
		ssa.Instruction
		Op token.Token
	}{at, tok}
	if a, ok := x.(VInt); ok {
		b, ok := y.(VInt)
		if !ok {
			if in.Op == token.QUO || in.Op == token.REM {
				e.oblige("division-by-zero", at, false, "unknown divisor")
			}
			return one(st, unknown(t))
		}
		switch in.Op {
		case token.ADD:
			return one(st, e.wrap(st, a.l.add(b.l), t))
		case token.SUB:
			return one(st, e.wrap(st, a.l.sub(b.l), t))
		case token.MUL:
			if k, ok := a.l.constInt(); ok && abs64(k) < 1<<31 {
				return one(st, e.wrap(st, b.l.mulC(k), t))
			}
			if k, ok := b.l.constInt(); ok && abs64(k) < 1<<31 {
				return one(st, e.wrap(st, a.l.mulC(k), t))
			}
			p, q := Val(a), Val(b)
			if q.K() < p.K() {
				p, q = q, p
			}
			lo, hi := intRange(t)
			return one(st, VInt{linA(termAtom(mkTerm(t, "mul", p, q), lo, hi))})
		case token.QUO, token.REM:
			nz := st.proveNe(b.l, linC(0))
			e.oblige("division-by-zero", at, nz, "integer division by "+b.l.key())
			if !nz && !st.assume(cEq0(b.l).not()) {
				st.dead = true
				return one(st, unknown(t))
			}
			ca, ok1 := a.l.constInt()
			cb, ok2 := b.l.constInt()
			if ok1 && ok2 && cb != 0 {
				if in.Op == token.QUO {
					return one(st, vi(ca/cb))
				}
				return one(st, vi(ca%cb))
			}
			op := "quo"
			lo, hi := intRange(t)
			if in.Op == token.REM {
				op = "rem"
			}
			if ok2 && cb == 1 {
				if op == "rem" {
					return one(st, vi(0))
				}
				return one(st, a)
			}
			return one(st, VInt{linA(termAtom(mkTerm(t, op, a, b), lo, hi))})
		default:
			ca, ok1 := a.l.constInt()
			cb, ok2 := b.l.constInt()
			lo, hi := intRange(t)
			if ok1 && ok2 && cb >= 0 {
				switch in.Op {
				case token.AND:
					return one(st, vi(ca&cb))
				case token.OR:
					return one(st, vi(ca|cb))
				case token.XOR:
					return one(st, vi(ca^cb))
				case token.SHL:
					if cb < 64 {
						return one(st, e.wrap(st, linB(new(big.Int).Lsh(big.NewInt(ca), uint(cb))), t))
					}
				case token.SHR:
					if cb < 64 {
						return one(st, vi(ca>>uint(cb)))
					}
				}
			}
			if in.Op == token.SHL && ok2 && cb >= 0 && cb < 31 {
				return one(st, e.wrap(st, a.l.mulC(1<<uint(cb)), t))
			}
			if (in.Op == token.SHL || in.Op == token.SHR) && !st.proveGe(b.l) {
				e.oblige("negative-shift", at, false, "shift by "+b.l.key())
			}
			if in.Op == token.OR && (disjoint(st, a.l, b.l) || disjoint(st, b.l, a.l)) {
				return one(st, VInt{a.l.add(b.l)})
			}
			if in.Op == token.AND && st.proveGe(a.l) {
				lo = big0
			}
			return one(st, VInt{linA(termAtom(mkTerm(t, in.Op.String(), a, b), lo, hi))})
		}
	}
	if a, ok := x.(VStr); ok && in.Op == token.ADD {
		if b, ok := y.(VStr); ok {
			return one(st, concat(a, b))
		}
		return one(st, unknown(t))
	}
	if isFloat(t) {
		return one(st, floatOp(t, in.Op, x, y))
	}
	if in.Op == token.QUO || in.Op == token.REM {
		e.oblige("division-by-zero", at, false, "unknown divisor")
	}
	return one(st, unknown(t))
}

var started = time.Now()

// late tells if the time of a scenario, or of the check, is used up
func (e *Eng) late() bool {
	return time.Since(e.start) > 150*time.Second || time.Since(started) > 780*time.Second && os.Getenv("VERIF_TIER") != "thorough"
}

// within stops an analysis that needs too much time or memory
func (e *Eng) within(fn *ssa.Function) {
	if e.late() {
		e.undecide("time limit exceeded in %s", fn)
	}
	if e.steps%4096 == 0 {
		var m runtime.MemStats
		if runtime.ReadMemStats(&m); m.HeapAlloc > 3500<<20 {
			e.undecide("memory limit exceeded in %s", fn)
		}
	}
}

// disjoint tells if a is a multiple of a power of two, and b is not
// negative and smaller than it
func disjoint(st *State, a, b *Lin) bool {
	if !st.proveGe(b) {
		return false
	}
	k := a.c.TrailingZeroBits()
	if a.c.Sign() == 0 {
		k = 62
	}
	for _, x := range a.t {
		k = min(k, uint(bits.TrailingZeros64(uint64(x.c))))
	}
	k = min(k, 62)
	return k > 0 && st.proveGe(linC(1<<k-1).sub(b))
}

func abs64(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

func floatOp(t types.Type, op token.Token, x, y Val) Val {
	a, ok1 := x.(VFloat)
	b, ok2 := y.(VFloat)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return VFloat{a.f + b.f}
		case token.SUB:
			return VFloat{a.f - b.f}
		case token.MUL:
			return VFloat{a.f * b.f}
		case token.QUO:
			if b.f != 0 {
				return VFloat{a.f / b.f}
			}
		}
	}
	if isUnknown(x) || isUnknown(y) {
		return unknown(t)
	}
	name := "f" + op.String()
	if (op == token.ADD || op == token.MUL) && y.K() < x.K() {
		x, y = y, x
	}
	return VTerm{mkTerm(t, name, x, y)}
}

// equalFork compares values in separate states, where this says more
// than an opaque condition
func (e *Eng) equalFork(st *State, x, y Val, in *ssa.BinOp) []Ret {
	res := func(yes, no *State, y, n Val) []Ret {
		var rs []Ret
		for i, s := range []*State{yes, no} {
			if s == nil {
				continue
			}
			b, ok := []Val{y, n}[i].(VBool)
			if ok && in.Op == token.NEQ {
				b = VBool{b.c.not()}
			}
			if ok {
				rs = append(rs, one(s, b)...)
			} else {
				rs = append(rs, one(s, unknown(in.Type()))...)
			}
		}
		return rs
	}
	a, ok1 := x.(VBool)
	b, ok2 := y.(VBool)
	if ok1 && ok2 {
		_, c1 := a.c.isConst()
		_, c2 := b.c.isConst()
		if c1 || c2 || a.c.base() == b.c.base() {
			return nil
		}
		yes, no := e.fork(st, a.c)
		return res(yes, no, b, VBool{b.c.not()})
	}
	tx, ty := in.X.Type(), in.Y.Type()
	t, isT := x.(VTerm)
	i, isI := y.(VIface)
	if !isT || !isI {
		t, isT = y.(VTerm)
		i, isI = x.(VIface)
		tx, ty = ty, tx
	}
	if isT && isI && isIface(tx) && isIface(ty) && comparable_(i.dyn) {
		yes, no := e.fork(st, cDyn(t, i.dyn))
		var v Val
		if yes != nil {
			v = e.equal(yes, e.as(yes, t, i.dyn), i.v, i.dyn, i.dyn, in)
		}
		return res(yes, no, v, VBool{cFalse})
	}
	return nil
}

func comparable_(t types.Type) bool { return types.Comparable(t) }

// equal compares two values
func (e *Eng) equal(st *State, x, y Val, tx, ty types.Type, in ssa.Instruction) Val {
	tb := types.Typ[types.Bool]
	if isUnknown(x) || isUnknown(y) {
		if isIface(tx) && isIface(ty) {
			_, n1 := x.(VNil)
			_, n2 := y.(VNil)
			if !n1 && !n2 {
				e.oblige("comparable-operands", in, false, "comparison of interface values that may not be comparable")
			}
		}
		return unknown(tb)
	}
	// nil
	_, xn := x.(VNil)
	_, yn := y.(VNil)
	if xn && yn {
		return VBool{cTrue}
	}
	if xn {
		x, y, xn, yn = y, x, yn, xn
		tx, ty = ty, tx
	}
	if yn {
		switch v := x.(type) {
		case VIface, VPtr, VSlice, VMap, VFunc, VRType:
			return VBool{cFalse}
		case VExt:
			return VBool{cFalse}
		case VTerm:
			return VBool{cDyn(v, nil)}
		}
		return unknown(tb)
	}
	switch a := x.(type) {
	case VInt:
		if b, ok := y.(VInt); ok {
			return VBool{cEq(a.l, b.l)}
		}
	case VStr:
		if b, ok := y.(VStr); ok {
			return VBool{relCond(e.narrow(st, a), e.narrow(st, b), 2)}
		}
	case VBool:
		if b, ok := y.(VBool); ok {
			if v, ok := a.c.isConst(); ok {
				if v {
					return b
				}
				return VBool{b.c.not()}
			}
			if v, ok := b.c.isConst(); ok {
				if v {
					return a
				}
				return VBool{a.c.not()}
			}
			if a.c.key() == b.c.key() {
				return VBool{cTrue}
			}
			ka, kb := Val(a), Val(b)
			if kb.K() < ka.K() {
				ka, kb = kb, ka
			}
			return VBool{cTermBool(mkTerm(tb, "beq", ka, kb))}
		}
	case VFloat:
		return VBool{relCond(e.narrow(st, x), e.narrow(st, y), 2)}
	case VPtr:
		if b, ok := y.(VPtr); ok {
			return VBool{cBool(a.K() == b.K())}
		}
	case VStruct:
		if b, ok := y.(VStruct); ok {
			res := Val(VBool{cTrue})
			st2, ok2 := a.t.Underlying().(*types.Struct)
			for i := range a.f {
				var ft types.Type
				if ok2 {
					ft = st2.Field(i).Type()
				}
				r := e.equal(st, a.f[i], b.f[i], ft, ft, in)
				rb, ok := r.(VBool)
				if !ok {
					return unknown(tb)
				}
				if c, ok := rb.c.isConst(); ok {
					if !c {
						return VBool{cFalse}
					}
					continue
				}
				if pb, _ := res.(VBool).c.isConst(); pb {
					res = r
				} else {
					return unknown(tb)
				}
			}
			return res
		}
	case VIface:
		if b, ok := y.(VIface); ok {
			if !types.Identical(a.dyn, b.dyn) {
				return VBool{cFalse}
			}
			if !comparable_(a.dyn) {
				e.oblige("comparable-operands", in, false, "comparison of values of the uncomparable type "+a.dyn.String())
				st.dead = true
				return unknown(tb)
			}
			return e.equal(st, a.v, b.v, a.dyn, b.dyn, in)
		}
		if b, ok := y.(VTerm); ok {
			return e.eqTermIface(st, b, a, in)
		}
		if !isIface(ty) { // comparison with a concrete value
			if !types.Identical(a.dyn, ty) {
				return VBool{cFalse}
			}
			return e.equal(st, a.v, y, ty, ty, in)
		}
	case VTerm:
		if isIface(tx) {
			if b, ok := y.(VIface); ok {
				return e.eqTermIface(st, a, b, in)
			}
			if isIface(ty) && !isErrorType(tx) {
				e.oblige("comparable-operands", in, false, "comparison of interface values that may not be comparable")
			}
		}
		if isFloat(tx) {
			return VBool{relCond(e.narrow(st, x), e.narrow(st, y), 2)}
		}
		if a.K() == y.K() {
			return VBool{cTrue}
		}
		ka, kb := x, y
		if kb.K() < ka.K() {
			ka, kb = kb, ka
		}
		return VBool{cTermBool(mkTerm(tb, "eq", ka, kb))}
	case VRType:
		return VBool{cBool(x.K() == y.K())}
	}
	return unknown(tb)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Eng) eqTermIface(st *State, a VTerm, b VIface, in ssa.Instruction) Val {
	if !comparable_(b.dyn) {
		d := st.decide(cDyn(a, b.dyn))
		if d >= 0 {
			e.oblige("comparable-operands", in, false, "comparison of values of the uncomparable type "+b.dyn.String())
		}
		return VBool{cFalse}
	}
	switch st.decide(cDyn(a, b.dyn)) {
	case -1:
		return VBool{cFalse}
	case 1:
		return e.equal(st, e.as(st, a, b.dyn), b.v, b.dyn, b.dyn, in)
	}
	return VBool{cTermBool(mkTerm(types.Typ[types.Bool], "eq", a, b))}
}

// ---------------------------------------------------------------- types

// as is the value of an opaque interface value as the type t
func (e *Eng) as(st *State, x VTerm, t types.Type) Val {
	return e.opaque(st, mkTerm(t, "as:"+strings.ReplaceAll(types.TypeString(t, shortQ), "interface{}", "any"), x), t)
}

// opaque returns the value denoted by an opaque term of type t
func (e *Eng) opaque(st *State, tm *Term, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(t)
			return VInt{linA(termAtom(tm, lo, hi))}
		case u.Info()&types.IsString != 0:
			return strChunk(tm)
		case u.Info()&types.IsBoolean != 0:
			return VBool{cTermBool(tm)}
		}
	case *types.Slice:
		return e.opaqueSlice(st, tm, u.Elem())
	}
	return VTerm{tm}
}

func (e *Eng) opaqueSlice(st *State, tm *Term, elem types.Type) Val {
	k := "opaque:" + tm.key
	id, ok := st.globals[k]
	if !ok {
		o := e.alloc(st, elem, "slice "+tm.key)
		o.frozen = "document"
		o.arr = &Arr{elem: elem, gen: func(i *Lin) Val {
			return e.opaque(st, mkTerm(elem, "elem", VTerm{tm}, VInt{i}), elem)
		}}
		id = o.id
		st.globals[k] = id
	}
	n := linA(termAtom(mkTerm(types.Typ[types.Int], "len", VTerm{tm}), big0, maxInt64))
	return VSlice{id, linC(0), n, nil}
}

func (e *Eng) internalType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if n.Obj().Pkg() == e.P.Root.Pkg {
		return !n.Obj().Exported()
	}
	return n.Obj().Pkg() == e.P.Parser.Pkg || strings.Contains(n.Obj().Pkg().Path(), "antlr")
}

func (e *Eng) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) []Ret {
	x := e.get(st, fr, in.X)
	t := in.AssertedType
	res := func(st *State, v Val, ok bool) Ret {
		if !ok {
			v = zeroVal(t)
		}
		if in.CommaOk {
			return Ret{st: st, val: VTuple{[]Val{v, VBool{cBool(ok)}}}}
		}
		return Ret{st: st, val: v}
	}
	fail := func(why string) []Ret {
		if in.CommaOk {
			return []Ret{res(st, nil, false)}
		}
		e.oblige("type-assertion", in, false, why)
		return []Ret{{st: st, panic: true}}
	}
	pass := func(v Val) []Ret {
		if !in.CommaOk {
			e.oblige("type-assertion", in, true, "")
		}
		return []Ret{res(st, v, true)}
	}
	_, isI := t.Underlying().(*types.Interface)
	switch v := x.(type) {
	case VIface:
		if isI {
			if types.Implements(v.dyn, t.Underlying().(*types.Interface)) {
				return pass(v)
			}
			return fail(fmt.Sprintf("%s does not implement %s", v.dyn, t))
		}
		if types.Identical(v.dyn, t) {
			return pass(v.v)
		}
		return fail(fmt.Sprintf("value of type %s is not a %s", v.dyn, t))
	case VNil:
		return fail("nil is not a " + t.String())
	case VExt:
		return pass(VExt{v.id, v.path, t})
	case VTerm:
		var c *Cond
		if isI {
			if types.Identical(in.X.Type(), t) || types.Implements(in.X.Type(), t.Underlying().(*types.Interface)) {
				c = cDyn(v, nil).not()
			} else {
				c = cTermBool(mkTerm(types.Typ[types.Bool], "impl:"+types.TypeString(t, shortQ), v))
			}
		} else {
			if e.internalType(t) {
				return fail("a value of the document is not a " + t.String())
			}
			c = cDyn(v, t)
		}
		val := func(st *State) Val {
			if isI {
				return v
			}
			return e.as(st, v, t)
		}
		switch st.decide(c) {
		case 1:
			return pass(val(st))
		case -1:
			return fail(fmt.Sprintf("%s is not a %s", v.K(), t))
		}
		if !in.CommaOk {
			e.oblige("type-assertion", in, false, fmt.Sprintf("%s may not be a %s", v.K(), t))
		}
		var out []Ret
		s2 := st.clone()
		if in.CommaOk && s2.assume(c.not()) {
			out = append(out, res(s2, nil, false))
		}
		if st.assume(c) {
			out = append(out, res(st, val(st), true))
		}
		return out
	}
	// unknown
	st.imp = "type of an unknown value at " + e.pos(in)
	if !in.CommaOk {
		e.oblige("type-assertion", in, false, "type assertion of a value the analysis does not know")
		return []Ret{res(st, unknown(t), true)}
	}
	return []Ret{res(st.clone(), nil, false), res(st, unknown(t), true)}
}

func (e *Eng) convert(st *State, x Val, from, to types.Type, in ssa.Instruction) []Ret {
	fu, tu := from.Underlying(), to.Underlying()
	if isInt(from) && isInt(to) {
		if v, ok := x.(VInt); ok {
			return one(st, e.wrap(st, v.l, to))
		}
		return one(st, unknown(to))
	}
	if isInt(from) && isFloat(to) {
		if v, ok := x.(VInt); ok {
			if k, ok := v.l.constInt(); ok {
				return one(st, VFloat{float64(k)})
			}
			return one(st, VTerm{mkTerm(to, "i2f", v)})
		}
		return one(st, unknown(to))
	}
	if isFloat(from) && isInt(to) {
		if v, ok := x.(VFloat); ok && v.f == float64(int64(v.f)) {
			return one(st, vi(int64(v.f)))
		}
		if isUnknown(x) {
			return one(st, unknown(to))
		}
		lo, hi := intRange(to)
		if v, ok := x.(VFloat); ok && !math.IsNaN(v.f) && !math.IsInf(v.f, 0) {
			if k, _ := big.NewFloat(v.f).Int(nil); k.Cmp(lo) >= 0 && k.Cmp(hi) <= 0 {
				return one(st, VInt{linB(k)})
			}
		}
		return one(st, VInt{linA(termAtom(mkTerm(to, "f2i", x), lo, hi))})
	}
	if isFloat(from) && isFloat(to) {
		if types.Identical(fu, tu) {
			return one(st, x)
		}
		return one(st, VTerm{mkTerm(to, "fconv", x)})
	}
	if isString(from) && isString(to) {
		return one(st, x)
	}
	if isInt(from) && isString(to) {
		if v, ok := x.(VInt); ok {
			return one(st, mkStr(SElem{kind: sRune, r: v.l}))
		}
		return one(st, unknown(to))
	}
	if isString(from) {
		if sl, ok := tu.(*types.Slice); ok {
			v, ok := x.(VStr)
			if !ok {
				return one(st, unknown(to))
			}
			return one(st, e.strToList(st, v, sl.Elem(), in))
		}
	}
	if sl, ok := fu.(*types.Slice); ok && isString(to) {
		return one(st, e.listToStr(st, x, sl.Elem()))
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface:
		return one(st, x)
	}
	return one(st, unknown(to))
}

// ---------------------------------------------------------------- maps

func (e *Eng) lookup(st *State, fr *Frame, in *ssa.Lookup) []Ret {
	m := e.get(st, fr, in.X)
	k := e.get(st, fr, in.Index)
	if s, ok := m.(VStr); ok {
		return e.strByte(st, s, k, in)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	res := func(st *State, v Val, ok bool) Ret {
		if in.CommaOk {
			return Ret{st: st, val: VTuple{[]Val{v, VBool{cBool(ok)}}}}
		}
		return Ret{st: st, val: v}
	}
	zero := zeroVal(mt.Elem())
	switch m := m.(type) {
	case VNil:
		return []Ret{res(st, zero, false)}
	case VMap:
		mo := st.obj(m.obj).mp
		if mo == nil || mo.opaque != nil {
			break
		}
		var out []Ret
		cur := st
		for i := range mo.keys {
			c, ok := e.equal(cur, k, mo.keys[i], mt.Key(), mt.Key(), in).(VBool)
			if !ok {
				cur.imp = "unknown map key at " + e.pos(in)
				return []Ret{res(cur.clone(), zero, false), res(cur, unknown(mt.Elem()), true)}
			}
			switch cur.decide(c.c) {
			case 1:
				return append(out, res(cur, mo.vals[i], true))
			case -1:
				continue
			}
			hit := cur.clone()
			if hit.assume(c.c) {
				out = append(out, res(hit, mo.vals[i], true))
			}
			if !cur.assume(c.c.not()) {
				return out
			}
		}
		return append(out, res(cur, zero, false))
	case VTerm:
		if isIface(mt.Key()) {
			e.oblige("hashable-key", in, false, "map key may not be hashable")
		}
		c := cTermBool(mkTerm(types.Typ[types.Bool], "maphas", m, k))
		v := func(st *State) Val { return e.opaque(st, mkTerm(mt.Elem(), "mapval", m, k), mt.Elem()) }
		switch st.decide(c) {
		case 1:
			return []Ret{res(st, v(st), true)}
		case -1:
			return []Ret{res(st, zero, false)}
		}
		s2 := st.clone()
		var out []Ret
		if s2.assume(c.not()) {
			out = append(out, res(s2, zero, false))
		}
		if st.assume(c) {
			out = append(out, res(st, v(st), true))
		}
		return out
	}
	st.imp = "lookup in an unknown map at " + e.pos(in)
	return []Ret{res(st.clone(), zero, false), res(st, unknown(mt.Elem()), true)}
}

func (e *Eng) mapUpdate(st *State, m, k, v Val, in ssa.Instruction) {
	switch m := m.(type) {
	case VMap:
		o := st.obj(m.obj)
		e.checkWrite(st, o, nil, in, "map update")
		n := *o
		mo := &MapObj{keys: append([]Val(nil), o.mp.keys...), vals: append([]Val(nil), o.mp.vals...)}
		for i := range mo.keys {
			if mo.keys[i].K() == k.K() {
				mo.vals[i] = v
				n.mp = mo
				st.set(&n)
				return
			}
		}
		mo.keys = append(mo.keys, k)
		mo.vals = append(mo.vals, v)
		n.mp = mo
		st.set(&n)
	case VNil:
		e.oblige("nil-map-write", in, false, "assignment to an entry of a nil map")
		st.dead = true
	case VTerm:
		e.oblige("write-to-document", in, false, "map update of "+m.K())
	default:
		e.oblige("unknown-store", in, false, "update of a map the analysis does not know")
	}
}

// ---------------------------------------------------------------- liveness

type liveness struct {
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (e *Eng) liveAfter(fn *ssa.Function, in ssa.Instruction) map[ssa.Value]bool {
	lv := e.live[fn]
	if lv == nil {
		lv = computeLive(fn)
		e.live[fn] = lv
	}
	b := e.P.blockOf(in)
	cur := cloneMap(lv.out[b])
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		x := b.Instrs[i]
		if x == in {
			return cur
		}
		stepLive(x, cur)
	}
	return cur
}

func stepLive(x ssa.Instruction, cur map[ssa.Value]bool) {
	if v, ok := x.(ssa.Value); ok {
		delete(cur, v)
	}
	if _, ok := x.(*ssa.Phi); ok {
		return
	}
	var buf [10]*ssa.Value
	for _, op := range x.Operands(buf[:0]) {
		if *op != nil {
			switch (*op).(type) {
			case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			default:
				cur[*op] = true
			}
		}
	}
}

func computeLive(fn *ssa.Function) *liveness {
	lv := &liveness{out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		lv.out[b] = map[ssa.Value]bool{}
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			o := lv.out[b]
			for _, s := range b.Succs {
				for v := range in[s] {
					if !o[v] {
						o[v] = true
						ch = true
					}
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, x := range s.Instrs {
						phi, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						v := phi.Edges[k]
						switch v.(type) {
						case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
							continue
						}
						if !o[v] {
							o[v] = true
							ch = true
						}
					}
				}
			}
			cur := cloneMap(o)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				stepLive(b.Instrs[j], cur)
			}
			if len(cur) != len(in[b]) {
				in[b] = cur
				ch = true
			}
		}
	}
	return lv
}

// liveIn: registers live at the start of a block, phis included
func (e *Eng) liveAtHeader(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	lv := e.live[fn]
	if lv == nil {
		lv = computeLive(fn)
		e.live[fn] = lv
	}
	cur := cloneMap(lv.out[b])
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		if _, ok := b.Instrs[j].(*ssa.Phi); ok {
			continue
		}
		stepLive(b.Instrs[j], cur)
	}
	return cur
}

// roots returns the values that are live: registers of all frames and
// package-level variables
func (e *Eng) roots(st *State, fr *Frame, in ssa.Instruction) []Val {
	var out []Val
	first := true
	for f := fr; f != nil; f = f.up {
		at := f.cur
		if first && in != nil {
			at = in
		}
		first = false
		if at == nil {
			continue
		}
		for v := range e.liveAfter(f.fn, at) {
			if x, ok := at.(ssa.Value); ok && v == x {
				continue // the result that is being computed
			}
			if x, ok := f.regs[v]; ok {
				out = append(out, x)
			}
		}
	}
	return out
}

// visitReach calls f for every value reachable from the roots
func (st *State) visitReach(roots []Val, f func(Val)) {
	seen := map[int]bool{}
	var val func(v Val)
	var obj func(id int)
	obj = func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := st.heap[id]
		if o == nil {
			return
		}
		if o.v != nil {
			val(o.v)
		}
		if o.arr != nil {
			for _, c := range o.arr.cells {
				val(c.v)
			}
			for _, p := range o.arr.prefix {
				if p.el != nil {
					val(p.el)
				}
			}
		}
		if o.mp != nil {
			for i := range o.mp.keys {
				val(o.mp.keys[i])
				val(o.mp.vals[i])
			}
		}
		if o.it != nil && o.it.mp != 0 {
			obj(o.it.mp)
		}
	}
	val = func(v Val) {
		if v == nil {
			return
		}
		f(v)
		switch x := v.(type) {
		case VIface:
			val(x.v)
		case VPtr:
			obj(x.obj)
		case VSlice:
			obj(x.obj)
		case VMap:
			obj(x.obj)
		case VIter:
			obj(x.obj)
		case VStruct:
			for _, y := range x.f {
				val(y)
			}
		case VTuple:
			for _, y := range x.f {
				val(y)
			}
		case VArr:
			for _, y := range x.el {
				val(y)
			}
		case VFunc:
			for _, y := range x.binds {
				val(y)
			}
			if x.recv != nil {
				val(x.recv)
			}
		}
	}
	for _, v := range roots {
		val(v)
	}
	var gs []string
	for k := range st.globals {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		obj(st.globals[k])
	}
}

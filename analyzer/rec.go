package main

// Recursive functions: a recursive call of a function with the same
// arguments (up to the current position in the document) is not
// followed. Instead the function is analysed once from a generic entry
// state that covers the state at every recursive call: the current path
// has an unknown length and ends with an unknown node.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// RecSum is the analysis of a recursive function from the generic state
type RecSum struct {
	id    int
	key   string
	fn    *ssa.Function
	node  Val   // the generic node
	n     *Atom // length of the generic path
	level int   // step of the path, -1: not known
	gst   *State
	args  []Val
	binds []Val
	up    *Frame
	paths []recPath // path slices
	base  *Ev
	outs  []Outcome
	done  bool
}

// recPath is a slice that holds the current path
type recPath struct {
	obj, arr int
	steps    []PStep
	arg      int // index of the argument, if obj is 0
}

type RecEv struct {
	sum  *RecSum
	node Val // the node the recursive call is for
	segs []Val
	st   *State
	loc  Val // path slice
}

func sameVals(a, b []Val) bool { return keys(a) == keys(b) && len(a) == len(b) }

// pathSlices finds the slices of path segments in a value
func (e *Eng) pathSlices(v Val, steps []PStep, f func(VSlice, []PStep)) {
	switch x := v.(type) {
	case VStruct:
		for i, y := range x.f {
			e.pathSlices(y, append(steps[:len(steps):len(steps)], PStep{field: i}), f)
		}
	case VSlice:
		f(x, steps)
	}
}

func (e *Eng) isSegArr(st *State, id int) bool {
	o := st.heap[id]
	if o == nil || o.arr == nil || o.arr.elem == nil {
		return false
	}
	s, ok := o.arr.elem.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isIface(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func segNode(v Val) (Val, bool) {
	x, ok := v.(VStruct)
	if !ok {
		return nil, false
	}
	for _, f := range x.f {
		if isNode(f) {
			return f, true
		}
	}
	return nil, false
}

// lastSeg returns the last element of a slice
func lastSeg(st *State, s VSlice) Val {
	o := st.heap[s.obj]
	if o == nil || o.arr == nil {
		return nil
	}
	return st.arrRead(o.arr, s.off.add(s.len).addC(-1))
}

func (e *Eng) recCut(st *State, fr *Frame) ([]Ret, bool) {
	for a := fr.up; a != nil; a = a.up {
		if a.fn != fr.fn || a.entry == nil || !sameVals(a.binds, fr.binds) || len(a.args) != len(fr.args) {
			continue
		}
		same := true
		for i := range a.args {
			if a.args[i].K() != fr.args[i].K() {
				if !e.widenable(a.entry, a.args[i], st, fr.args[i]) {
					same = false
				}
			}
		}
		if !same {
			continue
		}
		return e.cut(st, fr, a), true
	}
	return nil, false
}

func (e *Eng) widenable(s0 *State, v0 Val, s1 *State, v1 Val) bool {
	switch x := v0.(type) {
	case VSlice:
		y, ok := v1.(VSlice)
		return ok && x.off.equal(y.off) && e.isSegArr(s0, x.obj) && e.isSegArr(s1, y.obj)
	case VStruct:
		y, ok := v1.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if x.f[i].K() != y.f[i].K() && !e.widenable(s0, x.f[i], s1, y.f[i]) {
				return false
			}
		}
		return true
	}
	return isNode(v0) && isNode(v1)
}

// cut handles a recursive call of the function of frame a
func (e *Eng) cut(st *State, fr *Frame, a *Frame) []Ret {
	s0 := a.entry
	sum := e.generic(st, fr, a)
	ev := &RecEv{sum: sum, st: st.clone()}
	// the position at the call
	for _, p := range sum.paths {
		sl, ok := e.pathAt(st, fr.args, p)
		if !ok {
			x := "nil"
			if p.obj != 0 {
				x = showVal(st, st.obj(p.obj).v)
			} else {
				x = showVal(st, fr.args[p.arg])
			}
			e.undecide("recursive call of %s: no path in %s", fr.fn, x)
		}
		seg := lastSeg(st, sl)
		n, ok := segNode(seg)
		if !ok {
			e.undecide("recursive call of %s: the current node is not known", fr.fn)
		}
		if ev.node != nil && ev.node.K() != n.K() {
			e.undecide("recursive call of %s with several positions", fr.fn)
		}
		ev.node = n
		if !e.instanceSeg(st, sum, seg, n) {
			e.undecide("recursive call of %s: the last path segment is not covered", fr.fn)
		}
		ev.loc = sl
		// nothing else may depend on the length
		if !st.proveGe(sl.len.addC(-1)) {
			e.undecide("recursive call of %s with an empty path", fr.fn)
		}
		// what is behind the end of the path may be overwritten
		o := *st.obj(sl.obj)
		ar := o.arr.clone()
		end := sl.off.add(sl.len)
		cells := ar.cells[:0:0]
		for _, c := range ar.cells {
			if !st.proveGe(end.sub(c.idx).addC(-1)) {
				c.v = VUnknown{ar.elem, -1}
			}
			cells = append(cells, c)
		}
		ar.cells = cells
		ar.zero = false
		o.arr = ar
		st.set(&o)
	}
	_ = s0
	st.event(&Ev{kind: "rec", rec: ev, loc: ev.loc, st: ev.st})
	if ev.node == nil {
		e.undecide("recursion of %s not understood", fr.fn)
	}
	// other effects
	for _, id := range e.recChanged(st, sum) {
		e.havoc(st, id)
	}
	rt := fr.fn.Signature.Results()
	var v Val
	switch rt.Len() {
	case 0:
	case 1:
		v = zeroVal(rt.At(0).Type())
	default:
		t := VTuple{}
		for i := 0; i < rt.Len(); i++ {
			t.f = append(t.f, zeroVal(rt.At(i).Type()))
		}
		v = t
	}
	return one(st, v)
}

func (e *Eng) pathAt(st *State, args []Val, p recPath) (VSlice, bool) {
	var v Val
	if p.obj != 0 {
		v = st.obj(p.obj).v
	} else {
		v = args[p.arg]
	}
	for _, s := range p.steps {
		x, ok := v.(VStruct)
		if !ok {
			return VSlice{}, false
		}
		v = x.f[s.field]
	}
	s, ok := v.(VSlice)
	return s, ok
}

// instanceSeg tells if a path segment is an instance of the generic one
func (e *Eng) instanceSeg(st *State, sum *RecSum, seg, node Val) bool {
	x, ok := seg.(VStruct)
	if !ok {
		return false
	}
	s := x.t.Underlying().(*types.Struct)
	for i, f := range x.f {
		switch {
		case isIface(s.Field(i).Type()):
			if f.K() != node.K() {
				return false
			}
		case types.Identical(s.Field(i).Type(), e.P.typ("NodeType")):
			v, ok := f.(VInt)
			if !ok || !st.proveEq(v.l, e.nodeType(node).l) {
				return false
			}
		case isUnknown(f):
			return false
		}
	}
	return true
}

func (e *Eng) genericSeg(t types.Type, id int, node Val) Val {
	s := t.Underlying().(*types.Struct)
	v := VStruct{t: t}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		name := fmt.Sprintf("gen%d.%s", id, s.Field(i).Name())
		switch {
		case isIface(ft):
			v.f = append(v.f, node)
		case types.Identical(ft, e.P.typ("NodeType")):
			v.f = append(v.f, e.nodeType(node))
		case isInt(ft):
			lo, hi := intRange(ft)
			v.f = append(v.f, VInt{linA(newAtom(name, lo, hi))})
		case isString(ft):
			v.f = append(v.f, strChunk(mkTerm(tString, name)))
		default:
			v.f = append(v.f, unknown(ft))
		}
	}
	return v
}

// generic returns the summary that covers the call
func (e *Eng) generic(st *State, fr *Frame, a *Frame) *RecSum {
	s0 := a.entry
	key := fmt.Sprintf("%s/%s/%d", fr.fn, keys(a.binds), len(e.recChange))
	for _, x := range a.args {
		switch x.(type) {
		case VSlice, VStruct:
		default:
			if !isNode(x) {
				key += "/" + x.K()
			}
		}
	}
	if a.sum != nil {
		// the call is made in the generic analysis itself
		return a.sum
	}
	for _, s := range e.recs {
		if s.key == key {
			return s
		}
	}
	e.recN++
	sum := &RecSum{id: e.recN, key: key, fn: fr.fn, binds: a.binds, up: a.up, level: -1}
	node := VTerm{mkTerm(anyType, fmt.Sprintf("node:X%d", sum.id))}
	sum.node = node
	sum.n = newAtom(fmt.Sprintf("depth%d", sum.id), big1, maxSegs)
	g := s0.clone()
	g.tr = nil
	done := map[int]VSlice{}
	gen := func(sl VSlice) VSlice {
		if x, ok := done[sl.obj]; ok {
			return x
		}
		o := g.obj(sl.obj)
		no := e.alloc(g, o.typ, o.site)
		no.arr = &Arr{elem: o.arr.elem, prefix: []LSeg{{name: fmt.Sprintf("prefix%d", sum.id)}}, base: linA(sum.n).addC(-1)}
		no.arr.cells = []Cell{{linA(sum.n).addC(-1), e.genericSeg(o.arr.elem, sum.id, node)}}
		r := VSlice{no.id, linC(0), linA(sum.n), nil}
		done[sl.obj] = r
		return r
	}
	// arguments
	var args []Val
	for i, x := range a.args {
		if x.K() == fr.args[i].K() {
			args = append(args, x)
			continue
		}
		if isNode(x) {
			args = append(args, node)
			continue
		}
		nv := x
		e.pathSlices(x, nil, func(sl VSlice, steps []PStep) {
			sum.paths = append(sum.paths, recPath{arg: i, steps: steps})
			nv = e.setSub(g, nv, steps, gen(sl))
		})
		args = append(args, nv)
	}
	sum.args = args
	// memory that the function reaches and that differs
	ids := map[int]bool{}
	var order []int
	s0.visitReach(append(append([]Val(nil), a.args...), a.binds...), func(v Val) {
		if p, ok := v.(VPtr); ok && !ids[p.obj] {
			ids[p.obj] = true
			order = append(order, p.obj)
		}
	})
	for _, id := range order {
		o0, o1 := s0.heap[id], st.heap[id]
		if o0 == nil || o1 == nil || o0.v == nil || o1.v == nil || o0.v.K() == o1.v.K() {
			continue
		}
		if !e.widenable(s0, o0.v, st, o1.v) {
			e.noteChange(o0)
			continue
		}
		nv := o0.v
		e.pathSlices(o0.v, nil, func(sl VSlice, steps []PStep) {
			if !e.isSegArr(s0, sl.obj) {
				return
			}
			sum.paths = append(sum.paths, recPath{obj: id, steps: steps})
			nv = e.setSub(g, nv, steps, gen(sl))
		})
		n := *g.obj(id)
		n.v = nv
		g.set(&n)
	}
	for _, id := range e.recChanged(g, sum) {
		e.havoc(g, id)
	}
	sum.gst = g
	e.recs = append(e.recs, sum)
	return sum
}

// changes of other memory in a recursion, by allocation site

func siteKey(o *Obj) string { return o.site + "/" + fmt.Sprint(o.typ) }

// noteChange records that recursive calls change an object: the
// analysis starts again
func (e *Eng) noteChange(o *Obj) {
	k := siteKey(o)
	if e.recChange[k] {
		return
	}
	panic(recNeed{k})
}

type recNeed struct{ key string }

func (e *Eng) recChanged(st *State, sum *RecSum) []int {
	if len(e.recChange) == 0 {
		return nil
	}
	var out []int
	seen := map[int]bool{}
	st.visitReach(append(append([]Val(nil), sum.args...), sum.binds...), func(v Val) {
		if p, ok := v.(VPtr); ok && !seen[p.obj] {
			seen[p.obj] = true
			if o := st.heap[p.obj]; o != nil && e.recChange[siteKey(o)] {
				out = append(out, p.obj)
			}
		}
	})
	return out
}

// havoc forgets the value of an object
func (e *Eng) havoc(st *State, id int) {
	o := *st.obj(id)
	e.next++
	switch x := o.v.(type) {
	case VSlice:
		el := x.elem(st)
		n := linA(newAtom(fmt.Sprintf("hlen%d", e.next), big0, maxInt64))
		no := e.alloc(st, el, "recursion")
		if isIface(el) {
			if ob := st.heap[x.obj]; ob != nil && ob.arr != nil {
				bad := ob.arr.lost || len(ob.arr.fills) > 0
				for _, c := range ob.arr.cells {
					bad = bad || !isNode(c.v)
				}
				for _, c := range ob.arr.prefix {
					bad = bad || c.el != nil && !isNode(c.el)
				}
				if bad {
					e.undecide("recursion with a list of other values than nodes: %s", o.site)
				}
			}
			k := e.next
			no.arr = &Arr{elem: el, gen: func(i *Lin) Val {
				return VTerm{mkTerm(anyType, fmt.Sprintf("node:H%d", k), VInt{i})}
			}}
		} else {
			no.arr = &Arr{elem: el, lost: true}
		}
		o.v = VSlice{no.id, linC(0), n, nil}
	case VNil:
		t, ok := x.t.Underlying().(*types.Slice)
		if !ok {
			e.undecide("recursion changes %s (%v)", o.site, o.v)
		}
		o.v = VSlice{0, linC(0), linC(0), nil}
		no := e.alloc(st, t.Elem(), "recursion")
		no.arr = &Arr{elem: t.Elem()}
		o.v = VSlice{no.id, linC(0), linC(0), nil}
		st.set(&o)
		e.havoc(st, id)
		return
	case VInt:
		o.v = VInt{linA(newAtom(fmt.Sprintf("hint%d", e.next), minInt64, maxInt64))}
	case VBool:
		o.v = VBool{cTermBool(mkTerm(tBool, fmt.Sprintf("hbool%d", e.next)))}
	default:
		e.undecide("recursion changes %s (%v)", o.site, o.v)
	}
	st.set(&o)
}

func (x VSlice) elem(st *State) types.Type {
	if o := st.heap[x.obj]; o != nil && o.arr != nil {
		return o.arr.elem
	}
	return anyType
}

// runSum analyses the function of a summary from the generic state
func (e *Eng) runSum(sum *RecSum) {
	if sum.done {
		return
	}
	sum.done = true
	st := sum.gst.clone()
	fn := sum.fn
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, up: sum.up, binds: sum.binds, args: sum.args, sum: sum}
	if sum.up != nil {
		fr.depth = sum.up.depth + 1
	}
	for i, p := range fn.Params {
		fr.regs[p] = sum.args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = sum.binds[i]
	}
	fr.entry = st.clone()
	for _, o := range e.run(st, fr, fn.Blocks[0], nil, 0, nil) {
		oc := Outcome{st: o.st, v: o.val, pan: o.kind == oPanic}
		sum.outs = append(sum.outs, oc)
		if oc.pan {
			continue
		}
		// what was assumed at the recursive calls
		if o.val != nil {
			t := fn.Signature.Results()
			var z Val
			if t.Len() == 1 {
				z = zeroVal(t.At(0).Type())
			} else {
				tu := VTuple{}
				for i := 0; i < t.Len(); i++ {
					tu.f = append(tu.f, zeroVal(t.At(i).Type()))
				}
				z = tu
			}
			if o.val.K() != z.K() {
				e.undecide("the recursive function %s returns %s", fn, o.val.K())
			}
		}
		for _, p := range sum.paths {
			if p.obj == 0 {
				continue
			}
			sl, ok := e.pathAt(o.st, sum.args, p)
			if !ok || !o.st.proveEq(sl.len, linA(sum.n)) {
				e.undecide("the recursive function %s does not restore the current path", fn)
			}
			n, ok := segNode(lastSeg(o.st, sl))
			if !ok || n.K() != sum.node.K() {
				e.undecide("the recursive function %s does not restore the current path segment", fn)
			}
			if a := o.st.obj(sl.obj).arr; len(a.prefix) != 1 || a.prefix[0].name != fmt.Sprintf("prefix%d", sum.id) {
				e.undecide("the recursive function %s changes the current path", fn)
			}
		}
		// nothing else changes
		ids := map[int]bool{}
		sum.gst.visitReach(append(append([]Val(nil), sum.args...), sum.binds...), func(v Val) {
			if p, ok := v.(VPtr); ok {
				ids[p.obj] = true
			}
		})
		for id := range ids {
			o0, o1 := sum.gst.heap[id], o.st.heap[id]
			if o0 == nil || o1 == nil || o0.v == nil || o1.v == nil || o0.v.K() == o1.v.K() {
				continue
			}
			isPath := false
			for _, p := range sum.paths {
				if p.obj == id {
					isPath = true
				}
			}
			if isPath || e.recChange[siteKey(o0)] {
				continue
			}
			e.noteChange(o0)
		}
	}
}

// recsOf returns the summaries used by the events
func recsOf(evs []*Ev, f func(*RecSum)) {
	for _, ev := range evs {
		switch {
		case ev.rec != nil:
			f(ev.rec.sum)
		case ev.loop != nil:
			for _, p := range ev.loop.paths {
				recsOf(p.evs, f)
			}
		}
	}
}

// runSums analyses all summaries that the outcomes need
func (e *Eng) runSums(outs []Outcome) {
	var visit func(s *RecSum)
	visit = func(s *RecSum) {
		if s.done {
			return
		}
		e.runSum(s)
		for _, o := range s.outs {
			recsOf(o.st.events(), visit)
		}
	}
	for _, o := range outs {
		recsOf(o.st.events(), visit)
	}
}

// maxSegs bounds the length of a path in memory
var maxSegs = new(big.Int).Lsh(big1, 48)

// restarting runs f again if it turns out that recursive calls change
// more memory than was assumed
func (e *Eng) restarting(f func()) {
	for i := 0; ; i++ {
		again := false
		mark := len(e.obl)
		func() {
			defer func() {
				if r := recover(); r != nil {
					n, ok := r.(recNeed)
					if !ok || i > 8 {
						panic(r)
					}
					e.recChange[n.key] = true
					e.recs = nil
					e.obl = e.obl[:mark]
					again = true
				}
			}()
			f()
		}()
		if !again {
			return
		}
	}
}

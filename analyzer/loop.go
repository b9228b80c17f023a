package main

// Loops: unrolling when every exit is decided, otherwise a fixpoint with
// widening and inferred linear invariants.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (e *Eng) loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := e.loopCache[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if e.P.dominates(s, b) {
				lp := m[s]
				if lp == nil {
					lp = &Loop{fn, s, map[*ssa.BasicBlock]bool{s: true}}
					m[s] = lp
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	e.loopCache[fn] = m
	return m
}

// IndVar is an integer that changes in a loop
type IndVar struct {
	atom *Atom
	init *Lin
}

type LoopPath struct {
	conds []*Cond
	evs   []*Ev
	next  map[*Atom]*Lin
	app   map[int][]LSeg // appended by list
	st    *State
}

// LoopEv summarizes a loop: the state at the start of an iteration is
// described by vars; paths are the ways through one iteration that
// start another one. In the states after the loop the vars have the
// values they had when the loop was left.
type LoopEv struct {
	id     int
	pos    string
	fn     string
	vars   []IndVar
	paths  []LoopPath
	ranked bool
	invs   []*Lin
	mapOf  *Term
	gst    *State
	init   map[int][]LSeg
}

func (lp *Loop) stop(from, to *ssa.BasicBlock) bool {
	return lp.blocks[from] && (to == lp.header || !lp.blocks[to])
}

func (e *Eng) loop(st *State, fr *Frame, lp *Loop, from *ssa.BasicBlock) []Out {
	fr = fr.clone()
	e.phis(st, fr, lp.header, from)
	mark := len(e.obl)
	s0, f0 := st.clone(), fr.clone()
	outs, ok := e.iterate(st, fr, lp, 0)
	if !ok {
		e.obl = e.obl[:mark]
		return e.summarize(s0, f0, lp, nil, 0)
	}
	return outs
}

func (e *Eng) body(st *State, fr *Frame, lp *Loop) (backs, others []Out) {
	for _, o := range e.run(st, fr, lp.header, nil, 0, lp.stop) {
		if o.kind == oStop && o.blk == lp.header {
			e.phis(o.st, o.fr, lp.header, o.prev)
			backs = append(backs, o)
		} else {
			others = append(others, o)
		}
	}
	return
}

// iterate interprets the loop from the header. It returns false if the
// loop has to be summarized from its start.
func (e *Eng) iterate(st *State, fr *Frame, lp *Loop, n int) ([]Out, bool) {
	if it, nx := e.starAt(st, fr, lp); it != nil {
		return e.star(st, fr, lp, it, nx, n)
	}
	mark := len(e.obl)
	s0, f0 := st.clone(), fr.clone()
	backs, others := e.body(st, fr, lp)
	if len(backs) == 0 {
		return others, true
	}
	for _, o := range others {
		if o.kind == oStop && o.prev == lp.header {
			// may go on or stop: not decided
			e.obl = e.obl[:mark]
			return e.summarize(s0, f0, lp, nil, 0), true
		}
	}
	if n > 40 {
		return nil, false
	}
	res := others
	for _, b := range backs {
		r, ok := e.iterate(b.st, b.fr, lp, n+1)
		if !ok {
			return nil, false
		}
		res = append(res, r...)
		if len(res) > 3000 {
			return nil, false
		}
	}
	return res, true
}

// starAt tells if the loop iterates over a string and is at an element
// of unknown length
func (e *Eng) starAt(st *State, fr *Frame, lp *Loop) (*Obj, *ssa.Next) {
	for _, in := range lp.header.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			v, ok := fr.regs[n.Iter].(VIter)
			if !ok {
				return nil, nil
			}
			o := st.obj(v.obj)
			if o.it != nil && o.it.pos < len(o.it.str.el) && o.it.str.el[o.it.pos].kind == sStar {
				return o, n
			}
		}
	}
	return nil, nil
}

// star handles an element of unknown length of the string that is
// iterated: one generic unit is interpreted, then the iteration goes on
// after the element
func (e *Eng) star(st *State, fr *Frame, lp *Loop, it *Obj, nx *ssa.Next, n int) ([]Out, bool) {
	outs := e.summarize(st, fr, lp, it, 0)
	var res []Out
	for _, o := range outs {
		if o.kind == oStop && o.blk == lp.header {
			r, ok := e.iterate(o.st, o.fr, lp, n)
			if !ok {
				return nil, false
			}
			res = append(res, r...)
		} else {
			res = append(res, o)
		}
	}
	return res, true
}

// ---------------------------------------------------------------- locations

// wloc is a widened location
type wloc struct {
	key          string
	phi          *ssa.Phi
	obj          int
	path         []PStep
	kind         string // "leaf", "cell", "list", "lost", "fill", "bld", "iter", "map"
	idx          *Lin
	fill         *Fill
	c            *Lin
	init         Val
	t            types.Type
	atom         *Atom
	bval, gslice Val
}

type summary struct {
	e                 *Eng
	lp                *Loop
	id                int
	st                *State
	fr                *Frame
	locs              map[string]*wloc
	order             []string
	mat               map[string]int // nil slices that are materialized, by location
	ev                *LoopEv
	starIt            *Obj
	newStars          map[string]*Star
	newLens           map[string]*Atom
	deferred, noDefer bool
}

func (s *summary) add(l *wloc) bool {
	if _, ok := s.locs[l.key]; ok {
		return false
	}
	s.locs[l.key] = l
	s.order = append(s.order, l.key)
	return true
}

func (s *summary) dropObj(id int) {
	var o []string
	for _, k := range s.order {
		if s.locs[k].obj == id && s.locs[k].kind != "leaf" {
			delete(s.locs, k)
			continue
		}
		o = append(o, k)
	}
	s.order = o
}

// fresh returns the widened value for a location
func (s *summary) fresh(l *wloc, a, b Val) Val {

	name := fmt.Sprintf("φ%d.%s", s.id, l.key)
	switch x := a.(type) {
	case VInt:
		lo, hi := minInt64, maxInt64
		if l.t != nil && isInt(l.t) {
			lo, hi = intRange(l.t)
		}
		l.atom = newAtom(name, lo, hi)
		l.init = a
		return VInt{linA(l.atom)}
	case VBool:
		return VBool{cTermBool(mkTerm(types.Typ[types.Bool], name))}
	case VStr:
		l.init = a
		return strChunk(mkTerm(types.Typ[types.String], name))
	case VSlice:
		if y, ok := b.(VSlice); ok && x.obj == y.obj && x.off.equal(y.off) {
			l.atom = newAtom(name+".len", big0, maxInt64)
			l.init = VInt{x.len}
			c := x.cap
			if c != nil && (y.cap == nil || !y.cap.equal(c)) {
				c = nil
			}
			return VSlice{x.obj, x.off, linA(l.atom), c}
		}
	case VFloat, VTerm:
		if l.t != nil && isFloat(l.t) {
			return VTerm{mkTerm(l.t, name)}
		}
	}
	if dbgUnknown {
		fmt.Println("FRESH", s.ev.pos, l.key, a.K(), b.K())
	}
	return VUnknown{l.t, -s.id*1000 - len(s.order)}
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Type()
	}
	return nil
}

// diffVal compares the value g of a location with the value b after an
// iteration, and registers the locations that change
func (s *summary) diffVal(key string, mk func() *wloc, g, b Val, t types.Type, bst *State) bool {
	if g == nil || b == nil {
		return false
	}
	if g.K() == b.K() {
		return false
	}
	if _, ok := s.locs[key]; ok {
		// already widened
		if x, ok := g.(VSlice); ok {
			y, ok := b.(VSlice)
			if !ok || y.obj != x.obj || !y.off.equal(x.off) {
				return s.toUnknown(key)
			}
			return false
		}
		if isUnknown(g) {
			return false
		}
		if _, ok := g.(VInt); ok {
			if _, ok := b.(VInt); !ok {
				return s.toUnknown(key)
			}
			return false
		}
		if _, ok := g.(VBool); ok {
			if _, ok := b.(VBool); ok {
				return false
			}
		}
		if _, ok := g.(VStr); ok {
			if _, ok := b.(VStr); ok {
				return false
			}
		}
		if _, ok := g.(VTerm); ok && !isUnknown(b) {
			return false
		}
		return s.toUnknown(key)
	}
	if x, ok := g.(VStruct); ok {
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			ch := false
			for i := range x.f {
				i := i
				ch = s.diffVal(fmt.Sprintf("%s.%d", key, i), func() *wloc {
					l := mk()
					l.path = append(l.path[:len(l.path):len(l.path)], PStep{field: i})
					return l
				}, x.f[i], y.f[i], fieldType(x.t, i), bst) || ch
			}
			return ch
		}
	}
	if _, ok := g.(VNil); ok {
		if y, ok := b.(VSlice); ok {
			_ = y
			if s.mat[key] <= 1 {
				s.mat[key] = 1
				return true
			}
		}
	}
	if x, ok := g.(VSlice); ok && emptySlice(g) {
		if y, ok := b.(VSlice); ok && x.obj != y.obj {
			if s.mat[key] <= 1 {
				s.mat[key] = 1
				return true
			}
		}
	}
	l := mk()
	l.key = key
	l.kind = "leaf"
	l.t = t
	l.init = g
	s.add(l)
	// the list it refers to
	if x, ok := g.(VSlice); ok {
		if y, ok := b.(VSlice); ok && x.obj == y.obj && !x.len.equal(y.len) {
			s.addList(x.obj)
		}
	}
	l.c = nil
	l.t = t
	s.locs[key].init = g
	l.initB(b)
	return true
}

func (l *wloc) initB(b Val) { l.bval = b }

func (s *summary) addList(id int) {
	k := fmt.Sprintf("list:%d", id)
	if _, ok := s.locs[k]; !ok {
		s.dropObj(id)
		s.add(&wloc{key: k, kind: "list", obj: id})
	}
}

func (s *summary) toUnknown(key string) bool {
	l := s.locs[key]
	if l.kind == "unknown" {
		return false
	}
	if dbgUnknown {
		fmt.Println("UNKNOWN", s.ev.pos, l.key, l.init, l.bval)
	}
	l.kind = "unknown"
	l.atom = nil
	return true
}

// build returns the generic state at the header
func (s *summary) build() (*State, *Frame) {
	st, fr := s.st.clone(), s.fr.clone()
	// nil slices that grow become empty slices
	for k := range s.mat {
		s.materialize(st, fr, k)
	}
	for _, k := range s.order {
		l := s.locs[k]
		switch l.kind {
		case "leaf", "unknown":
			var cur Val
			if l.phi != nil {
				cur = fr.regs[l.phi]
			} else {
				cur = st.obj(l.obj).v
			}
			nv := s.setPath(cur, l.path, func(old Val) Val {
				if l.kind == "unknown" {
					return VUnknown{l.t, -s.id*1000 - len(s.order)}
				}
				return s.fresh(l, old, l.bval)
			})
			if l.phi != nil {
				fr.regs[l.phi] = nv
			} else {
				o := *st.obj(l.obj)
				o.v = nv
				st.set(&o)
			}
		case "cell":
			o := *st.obj(l.obj)
			a := o.arr.clone()
			done := false
			for i := range a.cells {
				if a.cells[i].idx.equal(l.idx) {
					a.cells[i].v = VUnknown{a.elem, -s.id*1000 - len(s.order) - 1}
					done = true
				}
			}
			if !done {
				a.cells = append(a.cells, Cell{l.idx, VUnknown{a.elem, -s.id*1000 - len(s.order) - 1}})
			}
			o.arr = a
			st.set(&o)
		case "havoc":
			s.e.havoc(st, l.obj)
		case "lost":
			o := *st.obj(l.obj)
			o.arr = &Arr{elem: o.arr.elem, lost: true}
			st.set(&o)
		}
	}
	// lists: the length is the widened length of a slice on it
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind != "list" {
			continue
		}
		o := *st.obj(l.obj)
		ln := s.listLen(l.obj, st, fr)
		content, ok := s.content(s.st, l.obj, st)
		a := &Arr{elem: o.arr.elem}
		if ln == nil || !ok {
			a.lost = true
		} else {
			if s.starIt != nil {
				if s.newStars[k] != nil {
					content = append(content, LSeg{star: s.newStars[k]})
				} else {
					content = append(content, LSeg{name: "acc"})
				}
			} else {
				content = append(content, LSeg{loop: s.ev, acc: l.obj})
			}
			a.prefix = content
			a.base = ln
		}
		o.arr = a
		st.set(&o)
	}
	for _, k := range s.order {
		l := s.locs[k]
		switch l.kind {
		case "bld":
			o := *st.obj(l.obj)
			content := append([]LSeg(nil), s.st.obj(l.obj).list...)
			if s.starIt != nil && s.newStars[k] != nil {
				content = append(content, LSeg{star: s.newStars[k]})
			} else {
				content = append(content, LSeg{loop: s.ev, acc: l.obj, name: "acc"})
			}
			o.list = content
			st.set(&o)
		case "fill":
			o := *st.obj(l.obj)
			a := o.arr.clone()
			f := *l.fill
			a.fills = append(a.fills, f)
			o.arr = a
			st.set(&o)
		case "iter":
			s.e.undecide("a nested iterator changes in a loop at %s", s.ev.pos)
		case "map":
			s.e.undecide("a map is filled in a loop with an unknown number of iterations at %s", s.ev.pos)
		}
	}
	return st, fr
}

func (s *summary) setPath(v Val, path []PStep, f func(Val) Val) Val {
	if len(path) == 0 {
		return f(v)
	}
	x, ok := v.(VStruct)
	if !ok {
		return f(v)
	}
	n := append([]Val(nil), x.f...)
	n[path[0].field] = s.setPath(n[path[0].field], path[1:], f)
	return VStruct{x.t, n}
}

func (s *summary) materialize(st *State, fr *Frame, key string) {
	mk := func(old Val) Val {
		var el types.Type
		switch x := old.(type) {
		case VNil:
			el = x.t.Underlying().(*types.Slice).Elem()
		case VSlice:
			if !emptySlice(x) || st.obj(x.obj).arr == nil {
				return old
			}
			el = st.obj(x.obj).arr.elem
		default:
			return old
		}
		id := s.mat[key]
		if id <= 1 {
			s.e.next++
			id = s.e.next
			s.mat[key] = id
		}
		o := &Obj{id: id, typ: types.NewSlice(el), site: "nil slice", arr: &Arr{elem: el, zero: true}}
		st.set(o)
		if s.st.heap[id] == nil {
			s.st.set(o)
		}
		return VSlice{id, linC(0), linC(0), nil}
	}
	parts := strings.Split(key, ".")
	var path []PStep
	for _, p := range parts[1:] {
		var f int
		fmt.Sscanf(p, "%d", &f)
		path = append(path, PStep{field: f})
	}
	head := parts[0]
	if strings.HasPrefix(head, "phi:") {
		for r := range fr.regs {
			if p, ok := r.(*ssa.Phi); ok && "phi:"+p.Name() == head && s.e.P.blockOf(p) == s.lp.header {
				fr.regs[p] = s.setPath(fr.regs[p], path, mk)
			}
		}
		return
	}
	var id int
	fmt.Sscanf(head, "obj:%d", &id)
	o := *st.obj(id)
	o.v = s.setPath(o.v, path, mk)
	st.set(&o)
}

// emptySlice tells if nothing can ever be stored through the slice
func emptySlice(v Val) bool {
	x, ok := v.(VSlice)
	return ok && x.len.isZero() && x.cap != nil && x.cap.isZero()
}

// listLen returns the widened length of the slice that refers to a list
func (s *summary) listLen(id int, st *State, fr *Frame) *Lin {
	var res *Lin
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind != "leaf" || l.atom == nil {
			continue
		}
		var cur Val
		if l.phi != nil {
			cur = fr.regs[l.phi]
		} else {
			cur = st.obj(l.obj).v
		}
		for _, p := range l.path {
			if x, ok := cur.(VStruct); ok {
				cur = x.f[p.field]
			}
		}
		if x, ok := cur.(VSlice); ok && x.obj == id && x.off.isZero() {
			res = x.len
		}
	}
	return res
}

// content returns the elements of the list before the loop
func (s *summary) content(st *State, id int, gst *State) ([]LSeg, bool) {
	o := st.heap[id]
	if o == nil {
		return nil, true
	}
	// length before the loop: initial length of the slice
	var n *Lin
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind == "leaf" {
			if x, ok := l.init.(VInt); ok && l.atom != nil && strings.HasSuffix(l.atom.key, ".len") {
				if y, ok := l.gslice.(VSlice); ok && y.obj == id {
					n = x.l
				}
			}
		}
	}
	if n == nil {
		if x := s.initLen(id); x != nil {
			n = x
		} else {
			return nil, false
		}
	}
	return listContent(st, o.arr, n)
}

func (s *summary) initLen(id int) *Lin {
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind != "leaf" {
			continue
		}
		var cur Val
		if l.phi != nil {
			cur = s.fr.regs[l.phi]
		} else {
			cur = s.st.obj(l.obj).v
		}
		for _, p := range l.path {
			if x, ok := cur.(VStruct); ok {
				cur = x.f[p.field]
			}
		}
		if x, ok := cur.(VSlice); ok && x.obj == id {
			return x.len
		}
		if _, ok := cur.(VNil); (ok || emptySlice(cur)) && s.mat[l.key] == id {
			return linC(0)
		}
	}
	return nil
}

// listContent returns the first n elements of an array
func listContent(st *State, a *Arr, n *Lin) ([]LSeg, bool) {
	if a.lost || a.gen != nil {
		return nil, false
	}
	out := append([]LSeg(nil), a.prefix...)
	at := linC(0)
	if a.base != nil {
		at = a.base
	} else {
		out = nil
	}
	for i := 0; i < 300; i++ {
		if at.equal(n) || st.proveEq(at, n) {
			return out, true
		}
		d := n.sub(at)
		if d.isConst() && d.c.Sign() < 0 {
			return nil, false
		}
		v := st.arrRead(a, at)
		if isUnknown(v) {
			found := false
			for _, c := range a.cells {
				if c.idx.equal(at) {
					found = true
				}
			}
			if !found {
				return nil, false
			}
		}
		out = append(out, LSeg{el: v})
		at = at.addC(1)
		if !d.isConst() && i > 40 {
			return nil, false
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- summary

// diffs registers the locations that differ between the generic state
// and the state after an iteration
func (s *summary) diffs(g *State, gf *Frame, b Out) bool {
	ch := false
	for _, in := range s.lp.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		key := "phi:" + phi.Name()
		ch = s.diffVal(key, func() *wloc { return &wloc{phi: phi} }, gf.regs[phi], b.fr.regs[phi], phi.Type(), b.st) || ch
	}
	// heap objects that are still reachable
	reach := map[int]bool{}
	var roots []Val
	for v := range s.e.liveAtHeader(s.lp.fn, s.lp.header) {
		if x, ok := b.fr.regs[v]; ok {
			roots = append(roots, x)
		}
	}
	if b.fr.up != nil {
		roots = append(roots, s.e.roots(b.st, b.fr.up, nil)...)
	}
	note := func(v Val) {
		switch x := v.(type) {
		case VPtr:
			reach[x.obj] = true
		case VSlice:
			reach[x.obj] = true
		case VMap:
			reach[x.obj] = true
		case VIter:
			reach[x.obj] = true
		}
	}
	b.st.visitReach(roots, note)
	for _, id := range b.st.globals {
		reach[id] = true
	}
	var ids []int
	for id := range reach {
		if g.heap[id] != nil && g.heap[id] != b.st.heap[id] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		go_, bo := g.heap[id], b.st.heap[id]
		switch {
		case go_.it != nil:
			if s.starIt != nil && id == s.starIt.id {
				continue
			}
			if go_.it.key() != bo.it.key() {
				if go_.it.mp != 0 || bo.it.mp != 0 {
					// only the number of entries seen
					if go_.it.mp == bo.it.mp && go_.v != nil && bo.v != nil {
						ch = s.diffVal(fmt.Sprintf("obj:%d", id), func() *wloc { return &wloc{obj: id} }, go_.v, bo.v, tInt, b.st) || ch
					}
					continue
				}
				ch = s.add(&wloc{key: fmt.Sprintf("iter:%d", id), kind: "iter", obj: id}) || ch
			}
		case go_.isBld:
			if go_.key() != bo.key() {
				ch = s.add(&wloc{key: fmt.Sprintf("bld:%d", id), kind: "bld", obj: id}) || ch
			}
		case go_.mp != nil:
			if go_.key() != bo.key() {
				ch = s.add(&wloc{key: fmt.Sprintf("map:%d", id), kind: "map", obj: id}) || ch
			}
		case go_.arr != nil:
		case s.e.recChange[siteKey(go_)]:
			if go_.v.K() != bo.v.K() {
				ch = s.add(&wloc{key: fmt.Sprintf("havoc:%d", id), kind: "havoc", obj: id}) || ch
			}
		default:
			ch = s.diffVal(fmt.Sprintf("obj:%d", id), func() *wloc { return &wloc{obj: id} }, go_.v, bo.v, go_.typ, b.st) || ch
		}
	}
	if ch {
		return true // the indices written depend on the variables
	}
	for _, id := range ids {
		if go_, bo := g.heap[id], b.st.heap[id]; go_.arr != nil && go_.it == nil && !go_.isBld && go_.mp == nil {
			ch = s.diffArr(id, g, go_.arr, bo.arr, b) || ch
		}
	}
	return ch
}

// wrapped: l holds a variable of the loop in an operation that may
// overflow as far as is known
func (s *summary) wrapped(l *Lin) bool {
	hit := false
	for _, k := range s.order {
		w := s.locs[k]
		if w.kind == "leaf" && w.atom != nil && l.coef(w.atom) == 0 && strings.Contains(l.key(), w.atom.key) {
			hit = true
		}
	}
	return hit
}

func (s *summary) diffArr(id int, g *State, ga, ba *Arr, b Out) bool {
	lk := fmt.Sprintf("list:%d", id)
	if _, ok := s.locs[lk]; ok {
		return false
	}
	lostK := fmt.Sprintf("lost:%d", id)
	if _, ok := s.locs[lostK]; ok {
		return false
	}
	if ga.key() == ba.key() {
		return false
	}
	if ba.lost && !ga.lost || (ga.base == nil) != (ba.base == nil) || (ga.base != nil && !ga.base.equal(ba.base)) || len(ga.fills) != len(ba.fills) {
		s.dropObj(id)
		return s.add(&wloc{key: lostK, kind: "lost", obj: id})
	}
	ch := false
	for _, c := range ba.cells {
		var gv Val
		for _, d := range ga.cells {
			if d.idx.equal(c.idx) {
				gv = d.v
			}
		}
		if gv != nil && gv.K() == c.v.K() {
			continue
		}
		ck := fmt.Sprintf("cell:%d:%s", id, c.idx.key())
		if _, ok := s.locs[ck]; ok {
			continue
		}
		if gv != nil && isUnknown(c.v) && !isUnknown(gv) && !s.noDefer {
			// the invariants may tell that it is not written
			s.deferred = true
			continue
		}
		if s.wrapped(c.idx) {
			// the invariants may tell what is written
			s.deferred = true
			if !s.noDefer {
				continue
			}
			s.dropObj(id)
			return s.add(&wloc{key: lostK, kind: "lost", obj: id})
		}
		// index depends on a variable of the loop
		for _, k := range s.order {
			l := s.locs[k]
			if l.kind != "leaf" || l.atom == nil || c.idx.coef(l.atom) == 0 {
				continue
			}
			fk := fmt.Sprintf("fill:%d", id)
			if f, ok := s.locs[fk]; ok {
				// the same element again?
				if f.fill.hi.equal(c.idx) {
					sb := &Subst{at: map[*Atom]*Lin{f.fill.v: c.idx}}
					if sb.val(f.fill.val).K() == c.v.K() {
						goto next
					}
				}
				s.dropObj(id)
				return s.add(&wloc{key: lostK, kind: "lost", obj: id})
			}
			init, isInt := l.init.(VInt)
			d := c.idx.sub(linA(l.atom))
			if isInt && d.isConst() && c.idx.coef(l.atom) == 1 {
				fv := newAtom(fmt.Sprintf("fill%d.%d", s.id, id), minInt64, maxInt64)
				sb := &Subst{at: map[*Atom]*Lin{l.atom: linA(fv).sub(d)}}
				s.add(&wloc{key: fk, kind: "fill", obj: id, fill: &Fill{fv, sb.val(c.v), init.l.add(d), c.idx}})
				return true
			}
			s.dropObj(id)
			return s.add(&wloc{key: lostK, kind: "lost", obj: id})
		}
		ch = s.add(&wloc{key: ck, kind: "cell", obj: id, idx: c.idx}) || ch
	next:
	}
	return ch
}

// summarize computes the effect of the loop from the state at the header.
// If it is not nil, one element of the string iterated by it is
// summarized instead, and the outcomes with the header as target go on
// after this element.
func (e *Eng) summarize(st *State, fr *Frame, lp *Loop, it *Obj, peel int) []Out {
	e.summaryDepth++
	defer func() { e.summaryDepth-- }()
	if e.summaryDepth > 8 {
		e.undecide("loops nested too deeply at %s", lp.fn)
	}
	e.loopN++
	s := &summary{e: e, lp: lp, id: e.loopN, st: st, fr: fr, locs: map[string]*wloc{}, mat: map[string]int{}, starIt: it, newStars: map[string]*Star{}}
	pos := lp.fn.String()
	for _, in := range lp.header.Instrs {
		if in.Pos().IsValid() {
			pos = e.pos(in)
			break
		}
	}
	s.ev = &LoopEv{id: s.id, pos: pos, fn: lp.fn.String()}
	mark := len(e.obl)
	oldLog := e.cmpLog
	defer func() { e.cmpLog = oldLog }()
	var cmps []*Lin
	invs := map[string]*Lin{}
	dropped := map[string]bool{}
	again := map[string]*Lin{} // not inductive with the invariants of the time
	tried := map[string]bool{}
	news := false // an invariant is found since the last was dropped
	starCls := map[int]RuneSet{}
	for round := 0; ; round++ {
		if round > 60 {
			e.undecide("no fixpoint for the loop at %s", s.ev.pos)
		}
		e.obl = e.obl[:mark]
		g, gf := s.build()
		atoms := s.intVars()
		// invariants
		for _, k := range sortedKeys(invs) {
			g.addLin(invs[k])
		}
		s.ev.vars = atoms
		for _, k := range s.divs(atoms) {
			g.bools[k.base()] = true
		}
		g.event(&Ev{kind: "loop", loop: s.ev})
		var log []*Lin
		e.cmpLog = &log
		g0, gf0 := g.clone(), gf.clone()
		pcLen, tr0 := len(g.pc), g.tr
		var backs, others []Out
		if it == nil {
			backs, others = e.body(g, gf, lp)
			backs, others = s.last(gf0, backs, others)
		} else {
			backs, others = s.unit(g, gf)
		}
		e.cmpLog = nil
		cmps = append(cmps, log...)
		// changed locations
		ch := false
		s.deferred = false
		for _, b := range backs {
			ch = s.diffs(g0, gf0, b) || ch
		}
		if ch {
			if round == 0 && it == nil && peel < 2 && s.flagged(backs, lp) {
				// a flag is set in the first iteration: take it out
				e.obl = e.obl[:mark]
				b2, o2 := e.body(st.clone(), fr.clone(), lp)
				res := o2
				for _, b := range b2 {
					res = append(res, e.summarize(b.st, b.fr, lp, nil, peel+1)...)
				}
				e.cmpLog = oldLog
				return res
			}
			invs = map[string]*Lin{}
			dropped = map[string]bool{}
			again = map[string]*Lin{}
			continue
		}
		if len(s.intVars()) != len(atoms) {
			continue
		}
		// check the invariants assumed
		bad := false
		for _, k := range sortedKeys(invs) {
			for _, b := range backs {
				nx := s.nexts(b, atoms)
				sb := &Subst{at: nx}
				if nx == nil || !b.st.proveGe(sb.lin(invs[k])) {
					again[k] = invs[k]
					delete(invs, k)
					dropped[k] = true
					bad = true
					news = false
					break
				}
			}
		}
		if bad {
			continue
		}
		// new candidates
		added := false
		for _, c := range s.candidates(atoms, cmps, backs) {
			k := c.key()
			if dropped[k] || invs[k] != nil {
				continue
			}
			init := &Subst{at: map[*Atom]*Lin{}}
			for _, v := range atoms {
				init.at[v.atom] = v.init
			}
			if !st.proveGe(init.lin(c)) {
				dropped[k] = true
				continue
			}
			invs[k] = c
			added = true
			news = true
		}
		if !added && len(again) > 0 && news {
			// they may be inductive together with others found since
			sig := strings.Join(sortedKeys(invs), ";")
			if !tried[sig] && len(tried) < 4 {
				tried[sig] = true
				for k, c := range again {
					if invs[k] == nil {
						invs[k] = c
						added = true
					}
				}
				again = map[string]*Lin{}
			}
		}
		if added {
			continue
		}
		// steps other than one: congruences
		if s.findDivs(backs, atoms) {
			continue
		}
		if it != nil {
			if s.newStarsFrom(backs, starCls) {
				continue
			}
		}
		if s.deferred {
			s.noDefer = true
			continue
		}
		// stable
		s.ev.gst = g0
		s.ev.init = map[int][]LSeg{}
		for _, k := range sortedKeys(invs) {
			s.ev.invs = append(s.ev.invs, invs[k])
		}
		for _, b := range backs {
			p := LoopPath{conds: append([]*Cond(nil), b.st.pc[pcLen:]...), evs: eventsSince(b.st.tr, tr0), next: s.nexts(b, atoms), app: map[int][]LSeg{}, st: b.st}
			for _, k := range s.order {
				l := s.locs[k]
				if l.kind == "list" {
					p.app[l.obj] = s.appended(l.obj, b)
				}
				if l.kind == "bld" {
					n := len(g0.obj(l.obj).list)
					if bl := b.st.obj(l.obj).list; len(bl) >= n {
						p.app[l.obj] = bl[n:]
					}
				}
			}
			s.ev.paths = append(s.ev.paths, p)
		}
		s.rank(lp, it, invs)
		if len(backs) == 0 && it == nil {
			s.ev.ranked = true
		}
		e.allLoops = append(e.allLoops, s.ev)
		e.obl = append(e.obl, Obl{"terminates", s.ev.pos, s.ev.fn, s.ev.ranked, "no bounded variable that grows or shrinks in every iteration of the loop", e.scName()})
		if oldLog != nil {
			*oldLog = append(*oldLog, cmps...)
		}
		if it == nil {
			return others
		}
		// go on after the element
		after := g0.clone()
		star := it.it.str.el[it.it.pos].star
		for i := range star.alts {
			c, ok := starCls[i]
			if !ok {
				c = RuneSet{}
			}
			after.refineStar(star, i, c)
		}
		o := *after.obj(it.id)
		n := *o.it
		n.pos++
		n.inStar = false
		n.off = s.offAfter(n.off)
		o.it = &n
		after.set(&o)
		return append(others, Out{kind: oStop, st: after, fr: gf0.clone(), blk: lp.header})
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *summary) intVars() []IndVar {
	var out []IndVar
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind == "leaf" && l.atom != nil {
			if x, ok := l.init.(VInt); ok {
				out = append(out, IndVar{l.atom, x.l})
			}
		}
	}
	return out
}

// nexts returns the values of the loop variables after an iteration
func (s *summary) nexts(b Out, vars []IndVar) map[*Atom]*Lin {
	m := map[*Atom]*Lin{}
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind != "leaf" || l.atom == nil {
			continue
		}
		var cur Val
		if l.phi != nil {
			cur = b.fr.regs[l.phi]
		} else {
			cur = b.st.obj(l.obj).v
		}
		for _, p := range l.path {
			if x, ok := cur.(VStruct); ok {
				cur = x.f[p.field]
			}
		}
		switch x := cur.(type) {
		case VInt:
			m[l.atom] = x.l
		case VSlice:
			m[l.atom] = x.len
		default:
			return nil
		}
	}
	return m
}

func (s *summary) candidates(vars []IndVar, cmps []*Lin, backs []Out) []*Lin {
	var out []*Lin
	is := map[*Atom]bool{}
	for _, v := range vars {
		is[v.atom] = true
		d := linA(v.atom).sub(v.init)
		out = append(out, d, d.neg())
	}
	for i, v := range vars {
		for _, w := range vars[:i] {
			d := linA(v.atom).sub(linA(w.atom)).sub(v.init.sub(w.init))
			out = append(out, d, d.neg())
		}
	}
	// what is compared may be the next value of a variable
	for _, b := range backs {
		nx := s.nexts(b, vars)
		for _, v := range vars {
			if nx == nil || nx[v.atom] == nil {
				continue
			}
			a, ok := nx[v.atom].single()
			if !ok || a.term == nil || a.term.op != "wrap" {
				continue
			}
			for _, c := range cmps[:len(cmps):len(cmps)] {
				if c.coef(a) != 0 {
					cmps = append(cmps, (&Subst{at: map[*Atom]*Lin{a: linA(v.atom)}}).lin(c))
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, c := range cmps {
		hit := false
		for _, t := range c.t {
			if is[t.a] {
				hit = true
			}
		}
		if !hit || seen[c.key()] {
			continue
		}
		seen[c.key()] = true
		for d := int64(-1); d <= 1; d++ {
			out = append(out, c.addC(d), c.neg().addC(d))
		}
	}
	return out
}

func (s *summary) divs(vars []IndVar) []*Cond {
	var out []*Cond
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind == "leaf" && l.atom != nil && l.c != nil {
			if x, ok := l.init.(VInt); ok {
				c := cDiv(l.c, linA(l.atom).sub(x.l))
				if _, k := c.isConst(); !k {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// findDivs records loop variables that always change by the same amount
func (s *summary) findDivs(backs []Out, vars []IndVar) bool {
	ch := false
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind != "leaf" || l.atom == nil || l.c != nil {
			continue
		}
		if _, ok := l.init.(VInt); !ok {
			continue
		}
		var d *Lin
		same := len(backs) > 0
		for _, b := range backs {
			nx := s.nexts(b, vars)
			if nx == nil || nx[l.atom] == nil {
				same = false
				break
			}
			x := nx[l.atom].sub(linA(l.atom))
			if d != nil && !d.equal(x) {
				same = false
				break
			}
			d = x
		}
		if !same || d == nil || d.coef(l.atom) != 0 || d.isZero() {
			continue
		}
		if k, ok := d.constInt(); ok && (k == 1 || k == -1) {
			continue
		}
		l.c = d
		ch = true
	}
	return ch
}

// appended returns what an iteration appends to a list
func (s *summary) appended(id int, b Out) []LSeg {
	a := b.st.obj(id).arr
	ln := s.listLenIn(id, b)
	if ln == nil || a.base == nil || a.lost {
		return []LSeg{{name: "unknown"}}
	}
	all, ok := listContent(b.st, a, ln)
	if !ok || len(all) < len(a.prefix) {
		return []LSeg{{name: "unknown"}}
	}
	// the prefix may have grown in a nested loop
	n := 0
	for i, p := range all {
		if p.loop == s.ev || (p.star != nil && s.starIt != nil && i < len(a.prefix) && s.newStars[fmt.Sprintf("list:%d", id)] == p.star) || p.name == "acc" {
			n = i + 1
		}
	}
	return all[n:]
}

func (s *summary) listLenIn(id int, b Out) *Lin {
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind != "leaf" || l.atom == nil {
			continue
		}
		var cur Val
		if l.phi != nil {
			cur = b.fr.regs[l.phi]
		} else {
			cur = b.st.obj(l.obj).v
		}
		for _, p := range l.path {
			if x, ok := cur.(VStruct); ok {
				cur = x.f[p.field]
			}
		}
		if x, ok := cur.(VSlice); ok && x.obj == id {
			return x.len
		}
	}
	return nil
}

// last finds the iterations that set a flag that ends the loop: the test
// of the flag is made part of these iterations
func (s *summary) last(gf *Frame, backs, others []Out) (bs, os []Out) {
	os = others
	var phis []*ssa.Phi
	var split func(b Out)
	split = func(b Out) {
		for _, p := range phis {
			v, ok := b.fr.regs[p].(VBool)
			if !ok {
				continue
			}
			if _, known := v.c.isConst(); known {
				continue
			}
			if d := b.st.decide(v.c); d != 0 {
				b.fr = b.fr.clone()
				b.fr.regs[p] = VBool{cBool(d > 0)}
				continue
			}
			for _, val := range []bool{true, false} {
				c := v.c
				if !val {
					c = c.not()
				}
				b2 := b
				b2.st = b.st.clone()
				if !b2.st.assume(c) {
					continue
				}
				b2.fr = b.fr.clone()
				b2.fr.regs[p] = VBool{cBool(val)}
				split(b2)
			}
			return
		}
		differ := false
		for _, p := range phis {
			v, g := b.fr.regs[p], gf.regs[p]
			differ = differ || v == nil || g == nil || v.K() != g.K()
		}
		if differ {
			b2, o2 := s.e.body(b.st.clone(), b.fr.clone(), s.lp)
			if len(b2) == 0 {
				os = append(os, o2...)
				return
			}
		}
		bs = append(bs, b)
	}
	for _, in := range s.lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 || types.Identical(p.Type(), types.Universe.Lookup("error").Type()) {
			phis = append(phis, p)
		}
	}
	if len(phis) == 0 {
		return backs, others
	}
	for _, b := range backs {
		split(b)
	}
	return
}

// flagged tells if some location with a constant value is set to another
// constant by the first iteration and keeps this value in the next one
func (s *summary) flagged(backs []Out, lp *Loop) bool {
	isConst := func(v Val) bool {
		switch x := v.(type) {
		case VInt:
			return x.l.isConst()
		case VBool:
			_, ok := x.c.isConst()
			return ok
		case VNil:
			return true
		}
		return false
	}
	var cand []*wloc
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind == "leaf" && isConst(l.init) {
			cand = append(cand, l)
		}
	}
	if len(cand) == 0 {
		return false
	}
	value := func(l *wloc, st *State, fr *Frame) Val {
		var cur Val
		if l.phi != nil {
			cur = fr.regs[l.phi]
		} else {
			cur = st.obj(l.obj).v
		}
		for _, p := range l.path {
			if x, ok := cur.(VStruct); ok {
				cur = x.f[p.field]
			}
		}
		return cur
	}
	mark := len(s.e.obl)
	defer func() { s.e.obl = s.e.obl[:mark] }()
	more := false
	var some []*wloc
	for _, l := range cand {
		// a counter is no flag
		if l.phi != nil {
			step := false
			for _, x := range l.phi.Edges {
				if y, ok := x.(*ssa.BinOp); ok && (y.X == l.phi || y.Y == l.phi) {
					step = true
				}
			}
			if step {
				continue
			}
		}
		ok := true
		for _, b := range backs {
			ok = ok && isConst(value(l, b.st, b.fr))
		}
		if ok {
			some = append(some, l)
		}
	}
	for _, b := range backs {
		if len(some) == 0 {
			return false
		}
		b2, _ := s.e.body(b.st.clone(), b.fr.clone(), lp)
		if len(b2) == 0 {
			continue
		}
		more = true
		var left []*wloc
		for _, l := range some {
			v1 := value(l, b.st, b.fr)
			ok := true
			for _, x := range b2 {
				if v2 := value(l, x.st, x.fr); v2 == nil || v2.K() != v1.K() {
					ok = false
				}
			}
			if ok {
				left = append(left, l)
			}
		}
		some = left
	}
	return more && len(some) > 0
}

// rank looks for a bounded loop variable that always grows (or shrinks)
func (s *summary) rank(lp *Loop, it *Obj, invs map[string]*Lin) {
	if it != nil {
		s.ev.ranked = true
		return
	}
	for _, in := range lp.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			s.ev.ranked = true
			if !n.IsString {
				if v, ok := s.fr.regs[n.Iter].(VIter); ok {
					if mo := s.st.obj(s.st.obj(v.obj).it.mp); mo.mp.opaque != nil {
						s.ev.mapOf = mo.mp.opaque
					}
				}
			}
			return
		}
	}
	vars := map[*Atom]bool{}
	for _, v := range s.ev.vars {
		vars[v.atom] = true
	}
	for _, v := range s.ev.vars {
		up, down := true, true
		for _, p := range s.ev.paths {
			nx := p.next[v.atom]
			if nx == nil {
				up, down = false, false
				break
			}
			d := nx.sub(linA(v.atom))
			if !p.st.proveGe(d.addC(-1)) {
				up = false
			}
			if !p.st.proveGe(d.neg().addC(-1)) {
				down = false
			}
		}
		for _, inv := range invs {
			c := inv.coef(v.atom)
			other := false
			for _, t := range inv.t {
				if t.a != v.atom && vars[t.a] {
					other = true
				}
			}
			if other {
				continue
			}
			if (up && c < 0) || (down && c > 0) {
				s.ev.ranked = true
				return
			}
		}
	}
}

// ---------------------------------------------------------------- stars

func (s *summary) offAfter(off *Lin) *Lin {
	a := newAtom(fmt.Sprintf("off%d", s.id), big0, maxInt64)
	_ = off
	return linA(a)
}

// unit interprets one generic unit of the element at the iterator
func (s *summary) unit(g *State, gf *Frame) (backs, others []Out) {
	it := s.starIt.it
	star := it.str.el[it.pos].star
	for ai := range star.alts {
		alt := star.alts[ai]
		cls := g.starClass(star, ai)
		if cls.empty() {
			continue
		}
		st, fr := g.clone(), gf.clone()
		rho := newAtom(fmt.Sprintf("ρ%s.%d", star.id, ai), big.NewInt(0), big.NewInt(0x10ffff))
		st.runes[rho] = cls
		off := newAtom(fmt.Sprintf("uoff%d", s.id), big0, maxInt64)
		st.addLin(linA(off).sub(it.off))
		var img []SElem
		sb := &Subst{at: map[*Atom]*Lin{}}
		if alt.v != nil {
			sb.at[alt.v] = linA(rho)
		}
		img = sb.elems(alt.img)
		o := *st.obj(s.starIt.id)
		n := *o.it
		n.str = mkStr(append(append([]SElem(nil), img...), SElem{kind: sChunk, t: mkTerm(nil, "unit-end")})...)
		n.pos = 0
		n.off = linA(off)
		o.it = &n
		st.set(&o)
		cur := []Out{{st: st, fr: fr}}
		for range img {
			var next []Out
			for _, c := range cur {
				b, ot := s.e.body(c.st, c.fr, s.lp)
				next = append(next, b...)
				others = append(others, ot...)
			}
			cur = next
		}
		for _, b := range cur {
			b.alt = ai
			backs = append(backs, b)
		}
	}
	return
}

// newStarsFrom determines what the units are mapped to; it returns true
// if something new was found
func (s *summary) newStarsFrom(backs []Out, cls map[int]RuneSet) bool {
	it := s.starIt.it
	star := it.str.el[it.pos].star
	for i := range cls {
		delete(cls, i)
	}
	rho := func(ai int) *Atom { return newAtom(fmt.Sprintf("ρ%s.%d", star.id, ai), nil, nil) }
	for _, b := range backs {
		c := b.st.runes[rho(b.alt)]
		cls[b.alt] = cls[b.alt].union(c)
	}
	ch := false
	for _, k := range s.order {
		l := s.locs[k]
		if l.kind != "list" && l.kind != "bld" {
			continue
		}
		ns := &Star{id: star.id, t: star.t}
		ok := true
		for _, b := range backs {
			var app []LSeg
			if l.kind == "list" {
				app = s.appended(l.obj, b)
			} else {
				gl := len(s.st.obj(l.obj).list) + 1
				bl := b.st.obj(l.obj).list
				if len(bl) < gl {
					ok = false
					continue
				}
				app = bl[gl:]
			}
			r := rho(b.alt)
			a := StarAlt{tag: star.alts[b.alt].tag, cls: b.st.runes[r], v: r}
			for _, x := range app {
				v, isI := x.el.(VInt)
				if !isI {
					if str, isS := x.el.(VStr); isS {
						a.img = append(a.img, str.el...)
						continue
					}
					ok = false
					break
				}
				a.img = append(a.img, SElem{kind: sRune, r: v.l})
			}
			ns.alts = append(ns.alts, a)
		}
		if !ok {
			if old, has := s.newStars[k]; !has || old != nil {
				s.newStars[k] = nil
				ch = !has || old != nil
			}
			continue
		}
		ns = normStar(ns)
		if ns == nil {
			ns = &Star{id: star.id, t: star.t}
		}
		if old := s.newStars[k]; old == nil || old.key() != ns.key() {
			s.newStars[k] = ns
			ch = true
		}
	}
	return ch
}

// normStar merges alternatives with the same image
func normStar(s *Star) *Star {
	n := &Star{id: s.id, t: s.t}
	iv := newAtom("ρid", nil, nil)
	type g struct {
		a StarAlt
		k string
	}
	var rest []g
	for _, a := range s.alts {
		if a.cls.empty() {
			continue
		}
		a.img = append([]SElem(nil), a.img...)
		sb := &Subst{at: map[*Atom]*Lin{}}
		if a.v != nil {
			sb.at[a.v] = linA(iv)
			a.img = sb.elems(a.img)
		}
		a.v = iv
		// in an alternative of a single rune the rune stands for itself
		if a.cls.size() == 1 {
			c := int64(a.cls[0].lo)
			for i, x := range a.img {
				if k, ok := x.r.constInt2(x.kind); ok && k == c {
					a.img[i].r = linA(iv)
				}
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%03d", a.tag)
		for _, x := range a.img {
			b.WriteString(x.key())
		}
		found := false
		for i := range rest {
			if rest[i].k == b.String() {
				rest[i].a.cls = rest[i].a.cls.union(a.cls)
				found = true
			}
		}
		if !found {
			rest = append(rest, g{a, b.String()})
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].k < rest[j].k })
	for _, x := range rest {
		n.alts = append(n.alts, x.a)
	}
	return n
}

package main

// Queries: the effects computed by the analysis are compared with what
// the property demands, case by case. A query asks for conditions; if
// the state does not decide one, both cases are examined.

import (
	"fmt"
	"strings"
)

type Q struct {
	e      *Eng
	st     *State
	st0    *State // without the assumptions of the query
	pc0    int
	script []int
	width  []int
	pos    int
	ways   map[string]int // way through an iteration
	wit    []witness      // elements of arrays that are assumed to exist
	univ   []universal    // what is assumed about all elements of an array
	told   int            // how many of them are applied to the code outside of loops
	ex     *Subst         // loop variables that have a known value after the loop
}

// exact finds the values of loop variables after their loops, and adds
// what the conditions say about these values
func (e *Eng) exact(st *State) *Subst {
	atoms := map[*Atom]bool{}
	note := func(l *Lin) {
		for _, x := range l.t {
			if strings.HasPrefix(x.a.key, "φ") {
				atoms[x.a] = true
			}
		}
	}
	f := func(t *Term) {
		for _, a := range t.args {
			if v, ok := a.(VInt); ok {
				note(v.l)
			}
		}
	}
	for _, c := range st.pc {
		termsInCond(c, f)
		if c.l != nil {
			note(c.l)
		}
	}
	if len(atoms) == 0 {
		return nil
	}
	s := &Subst{at: map[*Atom]*Lin{}}
	for a := range atoms {
		for _, l := range st.lin {
			k := l.coef(a)
			if k != 1 && k != -1 {
				continue
			}
			// l = k*a + rest; a = -rest/k
			v := l.sub(linA(a).mulC(k)).mulC(-k)
			loop := false
			for _, x := range v.t {
				loop = loop || atoms[x.a] || strings.HasPrefix(x.a.key, "φ")
			}
			if !loop && st.proveEq(linA(a), v) {
				s.at[a] = v
				break
			}
		}
	}
	if len(s.at) == 0 {
		return nil
	}
	for i := 0; i < 4; i++ {
		for a, v := range s.at {
			s.at[a] = s.lin(v)
		}
		s.memo = nil
	}
	for _, c := range st.pc {
		if d := s.cond(c); d.key() != c.key() {
			st.assume(d)
		}
	}
	return s
}

type qPrune struct{}
type qFail string

func (q *Q) fail(format string, a ...any) { panic(qFail(fmt.Sprintf(format, a...))) }
func (q *Q) prune()                       { panic(qPrune{}) }

// choose returns one of n alternatives
func (q *Q) choose(n int) int {
	if q.pos < len(q.script) {
		r := q.script[q.pos]
		q.pos++
		return r
	}
	q.script = append(q.script, 0)
	q.width = append(q.width, n)
	q.pos++
	return 0
}

// is decides a condition
func (q *Q) is(c *Cond) bool {
	switch q.st.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	if q.choose(2) == 0 {
		if !q.st.assume(c) {
			q.prune()
		}
		return true
	}
	if !q.st.assume(c.not()) {
		q.prune()
	}
	return false
}

// need assumes a condition
func (q *Q) need(c *Cond) {
	if !q.st.assume(c) {
		q.prune()
	}
}

func (q *Q) conds() string {
	var s []string
	for _, c := range q.st.pc[q.pc0:] {
		s = append(s, c.key())
	}
	return strings.Join(s, " && ")
}

// cases runs f for all cases; it returns the number of cases and the
// first failure
func (e *Eng) cases(st *State, pc0 int, f func(q *Q)) (n int, fail string) {
	var script, width []int
	st = st.clone()
	ex := e.exact(st)
	for {
		q := &Q{e: e, st: st.clone(), st0: st, pc0: pc0, script: script, width: width, ways: map[string]int{}, ex: ex}
		pruned := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case qPrune:
						pruned = true
					case qFail:
						fail = string(x) + " if " + q.conds()
					default:
						panic(r)
					}
				}
			}()
			f(q)
		}()
		if !pruned {
			n++
		}
		if fail != "" {
			return
		}
		if n > 20000 || e.late() {
			return n, "too many cases"
		}
		script, width = q.script, q.width
		for len(script) > 0 && script[len(script)-1]+1 >= width[len(script)-1] {
			script = script[:len(script)-1]
			width = width[:len(width)-1]
		}
		if len(script) == 0 {
			return
		}
		script = append([]int(nil), script...)
		script[len(script)-1]++
	}
}

// ---------------------------------------------------------------- locations

// Seg is a segment of a path given to the callback
type Seg struct {
	node, typ Val
	name      Val
	idx       Val
}

// Loc is a location: the segments after a prefix
type Loc struct {
	prefix string // "" if the path starts at the root
	base   *Lin   // length of the prefix
	segs   []Seg
}

func (e *Eng) seg(v Val) (Seg, bool) {
	x, ok := v.(VStruct)
	if !ok || len(x.f) < 4 {
		return Seg{}, false
	}
	s := Seg{}
	for _, f := range []struct {
		n string
		p *Val
	}{{"Node", &s.node}, {"Type", &s.typ}, {"Name", &s.name}, {"Index", &s.idx}} {
		i := e.P.field(x.t, f.n)
		if i < 0 || i >= len(x.f) {
			return s, false
		}
		*f.p = x.f[i]
	}
	return s, true
}

// loc reads the path in a value at the time of an event
func (e *Eng) loc(st *State, v Val) (*Loc, string) {
	sls := flatSlices(v)
	if len(sls) != 1 {
		return nil, "not a path: " + v.K()
	}
	sl := sls[0]
	o := st.heap[sl.obj]
	if o == nil || o.arr == nil {
		return nil, "unknown path " + v.K()
	}
	l := &Loc{}
	start := sl.off
	n := sl.len
	if k, ok := n.constInt(); ok && (o.arr.base == nil || k <= 0 || !o.arr.base.equal(linC(0))) && o.arr.base == nil {
		_ = k
	} else if o.arr.base != nil {
		if !sl.off.isZero() {
			return nil, "path in a part of an array"
		}
		if len(o.arr.prefix) == 1 && o.arr.prefix[0].name != "" {
			l.prefix = o.arr.prefix[0].name
			l.base = o.arr.base
			start = o.arr.base
			n = n.sub(o.arr.base)
		} else if segs, ok := listContent(st, o.arr, sl.len); ok {
			for _, s := range segs {
				if s.el == nil {
					return nil, "path with unknown elements"
				}
				sg, ok := e.seg(s.el)
				if !ok {
					return nil, "path with unknown segments"
				}
				l.segs = append(l.segs, sg)
			}
			return l, ""
		} else {
			return nil, "path with unknown contents"
		}
	}
	k, ok := n.constInt()
	if !ok || k > 100 {
		return nil, "path of unknown length " + n.key()
	}
	for i := int64(0); i < k; i++ {
		sg, ok := e.seg(st.arrRead(o.arr, start.addC(i)))
		if !ok {
			return nil, fmt.Sprintf("unknown path segment %d", i)
		}
		l.segs = append(l.segs, sg)
	}
	return l, ""
}

func (s *Subst) seg(x Seg) Seg {
	return Seg{s.val(x.node), s.val(x.typ), s.val(x.name), s.val(x.idx)}
}

// validLoc checks that the segments of a location describe the nodes
// they belong to
func (e *Eng) validLoc(st *State, l *Loc, top Val) string {
	if len(l.segs) == 0 {
		return "an empty path"
	}
	for i, s := range l.segs {
		if !isNode(s.node) {
			return fmt.Sprintf("segment %d: %s is not a node", i, s.node.K())
		}
		t, ok := s.typ.(VInt)
		if !ok || !st.proveEq(t.l, e.nodeType(s.node).l) {
			return fmt.Sprintf("segment %d: the type is %s, the node is %s", i, s.typ.K(), s.node.K())
		}
		name, ok1 := s.name.(VStr)
		idx, ok2 := s.idx.(VInt)
		if !ok1 || !ok2 {
			return fmt.Sprintf("segment %d: unknown name or index", i)
		}
		if i == 0 {
			if s.node.K() != top.K() {
				return fmt.Sprintf("the path starts at %s", s.node.K())
			}
			if l.prefix == "" && (name.K() != strC("").K() || !st.proveEq(idx.l, linC(0))) {
				return "the first segment has a name or an index"
			}
			continue
		}
		parent := l.segs[i-1].node
		nt, ok := s.node.(VTerm)
		if !ok || len(nt.t.args) != 2 || nt.t.args[0].K() != parent.K() {
			return fmt.Sprintf("segment %d: %s is not a child of %s", i, s.node.K(), parent.K())
		}
		switch nt.t.op {
		case "Key":
			if e.canonKey(st, name).K() != nt.t.args[1].K() {
				return fmt.Sprintf("segment %d: the name is %s, the node is %s", i, name.K(), s.node.K())
			}
			if !st.proveEq(idx.l, linC(0)) {
				return fmt.Sprintf("segment %d: the index of an object member is %s", i, idx.l.key())
			}
			if st.decide(e.typeIs(parent, "ObjectNode")) != 1 {
				return fmt.Sprintf("segment %d: key of a node that may not be an object", i)
			}
			if !isKeyOf(parent, name) && st.decide(e.hasMember(parent, nt.t.args[1])) != 1 {
				return fmt.Sprintf("segment %d: the member %s may not exist", i, name.K())
			}
		case "Elem":
			k, ok := nt.t.args[1].(VInt)
			if !ok || !st.proveEq(k.l, idx.l) {
				return fmt.Sprintf("segment %d: the index is %s, the node is %s", i, idx.l.key(), s.node.K())
			}
			if name.K() != strC("").K() {
				return fmt.Sprintf("segment %d: an array element has the name %s", i, name.K())
			}
			if st.decide(e.typeIs(parent, "ArrayNode")) != 1 {
				return fmt.Sprintf("segment %d: element of a node that may not be an array", i)
			}
			if !st.proveGe(k.l) || !st.proveGe(nodeLen(parent).sub(k.l).addC(-1)) {
				return fmt.Sprintf("segment %d: the index %s may be out of bounds", i, k.l.key())
			}
		default:
			return fmt.Sprintf("segment %d: %s is not a child of %s", i, s.node.K(), parent.K())
		}
	}
	return ""
}

// isKeyOf tells if a string is an element of the keys of a node
func isKeyOf(parent Val, name VStr) bool {
	_, ok := keyIndex(parent, name)
	return ok
}

func keyIndex(parent Val, name VStr) (*Lin, bool) {
	if len(name.el) != 1 || name.el[0].kind != sChunk {
		return nil, false
	}
	t := name.el[0].t
	if t.op != "elem" || len(t.args) != 2 {
		return nil, false
	}
	ks, ok := t.args[0].(VTerm)
	if !ok || ks.t.op != "Keys" || ks.t.args[0].K() != parent.K() {
		return nil, false
	}
	i, ok := t.args[1].(VInt)
	return i.l, ok
}

// ---------------------------------------------------------------- targets

// Child is a child of a node, named by a key or an index
type Child struct {
	parent  Val
	obj     bool
	name    VStr
	idx     *Lin
	node    Val
	special int // index into the special names or indices, -1: another one
}

// Specials are the keys and indices that the path mentions
type Specials struct {
	keys []VStr
	idx  []*Lin // absolute
}

// termsIn calls f for all terms in a value
func termsIn(v Val, f func(*Term)) {
	lin := func(l *Lin) {
		if l == nil {
			return
		}
		for _, t := range l.t {
			if t.a.term != nil {
				termsIn(VTerm{t.a.term}, f)
			}
		}
	}
	switch x := v.(type) {
	case VTerm:
		f(x.t)
		for _, a := range x.t.args {
			termsIn(a, f)
		}
	case VInt:
		lin(x.l)
	case VBool:
		termsInCond(x.c, f)
	case VStr:
		for _, el := range x.el {
			switch el.kind {
			case sRune:
				lin(el.r)
			case sChunk:
				termsIn(VTerm{el.t}, f)
			}
		}
	case VIface:
		termsIn(x.v, f)
	case VStruct:
		for _, y := range x.f {
			termsIn(y, f)
		}
	case VTuple:
		for _, y := range x.f {
			termsIn(y, f)
		}
	}
}

func termsInCond(c *Cond, f func(*Term)) {
	if c.a != nil {
		termsIn(c.a, f)
	}
	if c.b != nil {
		termsIn(c.b, f)
	}
	if c.l != nil {
		termsIn(VInt{c.l}, f)
	}
}

// mentioned lists the positions of keys and elements of a node that the
// conditions and the locations outside of loops are about
func (q *Q) mentioned(parent Val) (keys, idx []*Lin) {
	seen := map[string]bool{}
	pk := parent.K()
	f := func(t *Term) {
		var l *Lin
		switch {
		case t.op == "Elem" && t.args[0].K() == pk:
			l = t.args[1].(VInt).l
		case t.op == "elem" && len(t.args) == 2:
			if ks, ok := t.args[0].(VTerm); ok && ks.t.op == "Keys" && ks.t.args[0].K() == pk {
				l = t.args[1].(VInt).l
			}
		}
		if l != nil && q.ex != nil {
			l = q.ex.lin(l)
		}
		if l == nil || seen[t.op+l.key()] {
			return
		}
		seen[t.op+l.key()] = true
		for _, x := range l.t {
			if strings.HasPrefix(x.a.key, "φ") || strings.HasPrefix(x.a.key, "child") {
				return
			}
		}
		if t.op == "Elem" {
			idx = append(idx, l)
		} else {
			keys = append(keys, l)
		}
	}
	if q.ex != nil {
		for _, v := range q.ex.at {
			for _, x := range v.t {
				if x.a.term != nil && x.a.term.op == "Len" && x.a.term.args[0].K() == pk && !seen["Elem"+v.key()] {
					seen["Elem"+v.key()] = true
					idx = append(idx, v)
				}
			}
		}
	}
	for _, c := range q.st0.pc[min(q.pc0, len(q.st0.pc)):] {
		termsInCond(c, f)
	}
	for _, ev := range q.st0.events() {
		if ev.loc != nil {
			if l, _ := q.e.loc(ev.st, ev.loc); l != nil {
				for _, s := range l.segs {
					termsIn(s.node, f)
				}
			}
		}
	}
	return
}

// merge adds what the conditions say about another name of a node
func (q *Q) merge(from, to Val) {
	s := &Subst{tm: map[string]Val{from.K(): to}}
	for _, c := range append([]*Cond(nil), q.st.pc...) {
		if d := s.cond(c); d.key() != c.key() {
			q.need(d)
		}
	}
}

// child chooses a child of a node; it is nil if the node has none
func (q *Q) child(parent Val, level int, sp Specials) *Child {
	e := q.e
	if q.is(e.typeIs(parent, "ObjectNode")) {
		c := &Child{parent: parent, obj: true, special: -1}
		keys := make([]VStr, len(sp.keys))
		for i, k := range sp.keys {
			keys[i] = e.canonKey(q.st, k)
		}
		sp.keys = keys
		pos, _ := q.mentioned(parent)
		if k := q.choose(len(sp.keys) + len(pos) + 1); k < len(sp.keys) {
			c.special = k
			c.name = e.canonKey(q.st, sp.keys[k])
			for _, o := range sp.keys[:k] {
				q.need(relCond(c.name, o, 2).not())
			}
			if !isKeyOf(parent, c.name) {
				q.need(q.e.hasMember(parent, c.name))
			}
		} else {
			var j *Lin
			k -= len(sp.keys)
			if k < len(pos) {
				j = pos[k]
			} else {
				j = linA(newAtom(fmt.Sprintf("child%d", level), big0, maxInt64))
			}
			for _, o := range pos[:k] {
				q.need(cEq(j, o).not())
			}
			q.need(cLt(j, keysLen(parent)))
			c.name = keyAt(parent, j)
			for _, o := range sp.keys {
				q.need(relCond(c.name, o, 2).not())
			}
		}
		c.node = childKey(parent, c.name)
		return c
	}
	if q.is(e.typeIs(parent, "ArrayNode")) {
		c := &Child{parent: parent, special: -1}
		_, more := q.mentioned(parent)
		all := append(append([]*Lin(nil), sp.idx...), more...)
		k := q.choose(len(all) + 1)
		if k < len(all) {
			c.special = k
			c.idx = all[k]
			for _, o := range all[k+1:] {
				if !o.equal(c.idx) && q.is(cEq(c.idx, o)) {
					q.merge(elemAt(parent, o), elemAt(parent, c.idx))
				}
			}
		} else {
			c.idx = linA(newAtom(fmt.Sprintf("child%d", level), big0, maxInt64))
		}
		for _, o := range all[:k] {
			q.need(cEq(c.idx, o).not())
		}
		q.need(cGe0(c.idx))
		q.need(cLt(c.idx, nodeLen(parent)))
		c.node = elemAt(parent, c.idx)
		return c
	}
	return nil
}

// ---------------------------------------------------------------- counting

// solve finds the iteration in which the segment is the child: b is the
// variable of the loop
func (q *Q) solve(s Seg, c *Child, b *Atom) (eq *Subst, ok bool) {
	one := func(l, target *Lin) (*Subst, bool) {
		k := l.coef(b)
		if k != 1 && k != -1 {
			return nil, false
		}
		rest := l.sub(linA(b).mulC(k))
		return &Subst{at: map[*Atom]*Lin{b: target.sub(rest).mulC(k)}}, true
	}
	if c.obj {
		n, isS := s.name.(VStr)
		if !isS {
			return nil, false
		}
		i, isK := keyIndex(c.parent, n)
		if !isK {
			return nil, (&Subst{at: map[*Atom]*Lin{b: linC(-7)}}).val(n).K() == n.K()
		}
		if i.coef(b) == 0 {
			return nil, true
		}
		if j, isJ := keyIndex(c.parent, c.name); isJ {
			return one(i, j)
		}
		// a special key: at some position
		p := newAtom("pos "+c.name.K()+" in "+c.parent.K(), big0, maxInt64)
		q.need(cLt(linA(p), keysLen(c.parent)))
		eq, ok := one(i, linA(p))
		if ok {
			eq.tm = map[string]Val{VTerm{keyAt(c.parent, linA(p)).el[0].t}.K(): c.name}
		}
		return eq, ok
	}
	x, isI := s.idx.(VInt)
	if !isI {
		return nil, false
	}
	if x.l.coef(b) == 0 {
		return nil, true
	}
	return one(x.l, c.idx)
}

// compose applies a after b
func (s *Subst) then(t *Subst) *Subst {
	n := &Subst{at: map[*Atom]*Lin{}, tm: map[string]Val{}}
	for k, v := range s.at {
		n.at[k] = t.lin(v)
	}
	for k, v := range s.tm {
		n.tm[k] = t.val(v)
	}
	for k, v := range t.at {
		n.at[k] = v
	}
	for k, v := range t.tm {
		n.tm[k] = v
	}
	return n
}

type found struct {
	ev  *Ev
	ord []int // position in the events
}

// count returns how often an event of the given kind occurs at the
// location that starts at top and goes through the children
func (q *Q) count(evs []*Ev, kind string, top Val, prefix string, chain []*Child) []found {
	if n := len(q.wit) + len(q.univ); n != q.told {
		// the elements mentioned outside of loops
		q.told = n
		sb := q.ex
		if sb == nil {
			sb = &Subst{at: map[*Atom]*Lin{}, tm: map[string]Val{}}
		}
		q.facts(sb, &LoopPath{conds: q.st0.pc[min(q.pc0, len(q.st0.pc)):], evs: evs})
	}
	var res []found
	q.walk(evs, nil, nil, kind, func(ev *Ev, ord []int, encs []enc) {
		if q.occurs(ev, encs, top, prefix, chain) {
			res = append(res, found{ev, append([]int(nil), ord...)})
		}
	})
	return res
}

// located lists the events of a kind in a list of events
func located(evs []*Ev, kind string) bool {
	for _, ev := range evs {
		if ev.kind == kind {
			return true
		}
		if ev.loop != nil {
			for _, p := range ev.loop.paths {
				if located(p.evs, kind) {
					return true
				}
			}
		}
	}
	return false
}

// enclosing loops of an event
type enc struct {
	loop *LoopEv
	path *LoopPath
}

func (q *Q) walk(evs []*Ev, ord []int, encs []enc, kind string, f func(ev *Ev, ord []int, encs []enc)) {
	for i, ev := range evs {
		o := append(append([]int(nil), ord...), i)
		if ev.kind == kind {
			f(ev, o, encs)
		}
		if ev.loop != nil {
			for pi := range ev.loop.paths {
				p := &ev.loop.paths[pi]
				q.walk(p.evs, append(o, 0), append(encs[:len(encs):len(encs)], enc{ev.loop, p}), kind, f)
			}
		}
	}
}

// occurs decides if an event in the given loops happens at the location
func (q *Q) occurs(ev *Ev, encs []enc, top Val, prefix string, chain []*Child) bool {
	e := q.e
	l, why := e.loc(ev.st, ev.loc)
	if l == nil {
		q.fail("%s", why)
	}
	if l.prefix != prefix {
		q.fail("a path from another recursion")
	}
	if len(l.segs) != len(chain)+1 {
		return false
	}
	if l.segs[0].node.K() != top.K() {
		q.fail("a path that starts at %s", l.segs[0].node.K())
	}
	sb := &Subst{at: map[*Atom]*Lin{}, tm: map[string]Val{}}
	if q.ex != nil {
		for a, v := range q.ex.at {
			sb.at[a] = v
		}
		for _, en := range encs {
			for _, v := range en.loop.vars {
				delete(sb.at, v.atom)
			}
		}
	}
	segs := l.segs
	// the segments that do not depend on the remaining iterations have
	// to be the children
	matched := 0
	advance := func(rest []enc) (int, bool) {
		un := &Subst{at: map[*Atom]*Lin{}}
		for _, en := range rest {
			if b, _ := en.loop.counter(); b != nil {
				un.at[b.atom] = linC(-7)
				if v, ok := sb.lin(linA(b.atom)).single(); ok {
					un.at[v] = linC(-7)
				}
			}
		}
		for matched < len(chain) {
			s := sb.seg(segs[matched+1])
			if un.val(s.name).K() != s.name.K() || un.val(s.idx).K() != s.idx.K() {
				return matched, true
			}
			if !q.same(s, chain[matched]) {
				return matched, false
			}
			matched++
		}
		return matched, true
	}
	// the iterations
	for ei, en := range encs {
		b, step := en.loop.counter()
		if b == nil {
			q.fail("the loop at %s has no counter", en.loop.pos)
		}
		var eq *Subst
		exit := sb.lin(linA(b.atom))
		bv := b.atom
		if v, ok := exit.single(); ok {
			bv = v
			if q.ex != nil {
				exit = q.ex.lin(exit)
			}
		}
		if c := en.loop.pinned(b.atom); c != nil {
			eq = &Subst{at: map[*Atom]*Lin{bv: c}}
		} else {
			i, ok := advance(encs[ei:])
			if !ok {
				return false
			}
			if i == len(chain) {
				q.fail("repeated event in the loop at %s", en.loop.pos)
			}
			s := sb.seg(segs[i+1])
			if e.isObjChild(s) != chain[i].obj {
				return false
			}
			eq, ok = q.solve(s, chain[i], bv)
			if !ok {
				q.fail("the loop at %s: cannot solve for %s", en.loop.pos, b.atom.key)
			}
		}
		if eq == nil {
			q.fail("repeated event in the loop at %s", en.loop.pos)
		}
		sb = sb.then(eq)
		cur := sb.lin(linA(b.atom))
		// the variables of inner loops have their own values in this
		// iteration
		inner := &Subst{at: map[*Atom]*Lin{}}
		for i := range en.loop.paths {
			innerVars(en.loop.paths[i].evs, func(a *Atom) {
				inner.at[a] = linA(newAtom(a.key+"@"+cur.key(), a.lo, a.hi))
			})
		}
		for a, v := range inner.at {
			sb.at[a] = v
		}
		init := sb.lin(b.init)
		// executed at all: between the initial value and the value at
		// the end of the loop
		for _, inv := range en.loop.invs {
			if !q.st.assume(cGe0((&Subst{at: map[*Atom]*Lin{b.atom: exit}}).lin(inv))) {
				q.prune()
			}
		}
		if step > 0 {
			if !q.is(cLe(init, cur)) || !q.is(cLt(cur, exit)) {
				return false
			}
		} else {
			if !q.is(cLe(cur, init)) || !q.is(cLt(exit, cur)) {
				return false
			}
			step = -step
		}
		if step != 1 {
			if !q.is(cDiv(linC(step), cur.sub(init))) {
				return false
			}
		}
		// which way the iteration goes
		k := fmt.Sprintf("%d/%s", en.loop.id, cur.key())
		pi, ok := q.ways[k]
		if !ok {
			pi = q.choose(len(en.loop.paths))
			q.ways[k] = pi
			for _, c := range en.loop.paths[pi].conds {
				q.need(sb.cond(c))
			}
			for _, x := range en.loop.paths[pi].evs {
				if x.loop != nil {
					for _, inv := range x.loop.invs {
						q.need(cGe0(sb.lin(inv)))
					}
				}
			}
			q.facts(sb, &en.loop.paths[pi])
		}
		if en.path != &en.loop.paths[pi] {
			return false
		}
	}
	_, ok := advance(nil)
	return ok
}

// a witness is an element of an array
type witness struct {
	arr Val
	idx *Lin
}

// universal is a fact about all elements of an array
type universal struct {
	arr  Val
	fact func(idx *Lin)
}

// facts applies the assumptions about the elements of arrays to a way
// through an iteration: the elements that are mentioned in its conditions
// have the property all elements have, and loops over the elements reach
// the witness
func (q *Q) facts(sb *Subst, p *LoopPath) {
	for _, u := range q.univ {
		seen := map[string]bool{}
		for _, c := range p.conds {
			termsInCond(sb.cond(c), func(t *Term) {
				if t.op != "Elem" || t.args[0].K() != u.arr.K() {
					return
				}
				if i, ok := t.args[1].(VInt); ok && !seen[i.K()] {
					seen[i.K()] = true
					q.need(cGe0(i.l))
					q.need(cLt(i.l, nodeLen(u.arr)))
					u.fact(i.l)
				}
			})
		}
	}
	for _, w := range q.wit {
		for _, ev := range p.evs {
			if ev.loop != nil {
				q.reach(sb, ev.loop, w)
			}
		}
	}
}

// reach assumes what the iteration of a loop for the witness says
func (q *Q) reach(sb *Subst, lp *LoopEv, w witness) {
	b, step := lp.counter()
	if b == nil {
		return
	}
	var cur *Lin
	id := sb.then(&Subst{at: map[*Atom]*Lin{b.atom: linA(b.atom)}})
	for i := range lp.paths {
		for _, c := range lp.paths[i].conds {
			termsInCond(id.cond(c), func(t *Term) {
				if t.op != "Elem" || t.args[0].K() != w.arr.K() || cur != nil {
					return
				}
				x, ok := t.args[1].(VInt)
				if !ok {
					return
				}
				k := x.l.coef(b.atom)
				if k == 1 || k == -1 {
					cur = w.idx.sub(x.l.sub(linA(b.atom).mulC(k))).mulC(k)
				}
			})
		}
	}
	if cur == nil {
		return
	}
	exit := sb.lin(linA(b.atom))
	if q.ex != nil {
		exit = q.ex.lin(exit)
	}
	init := sb.lin(b.init)
	if step > 0 {
		if !q.is(cLe(init, cur)) || !q.is(cLt(cur, exit)) {
			return
		}
	} else {
		if !q.is(cLe(cur, init)) || !q.is(cLt(exit, cur)) {
			return
		}
		step = -step
	}
	if step != 1 && !q.is(cDiv(linC(step), cur.sub(init))) {
		return
	}
	in := sb.then(&Subst{at: map[*Atom]*Lin{b.atom: cur}})
	if len(lp.paths) == 0 {
		return
	}
	pi := q.choose(len(lp.paths))
	for _, c := range lp.paths[pi].conds {
		q.need(in.cond(c))
	}
	for _, ev := range lp.paths[pi].evs {
		if ev.loop != nil {
			q.reach(in, ev.loop, w)
		}
	}
}

func innerVars(evs []*Ev, f func(a *Atom)) {
	for _, ev := range evs {
		if ev.loop == nil {
			continue
		}
		for _, v := range ev.loop.vars {
			f(v.atom)
		}
		for i := range ev.loop.paths {
			innerVars(ev.loop.paths[i].evs, f)
		}
	}
}

// same decides if a segment is the one of a child
func (q *Q) same(s Seg, c *Child) bool {
	if q.e.isObjChild(s) != c.obj {
		return false
	}
	if !c.obj {
		x, ok := s.idx.(VInt)
		if !ok {
			q.fail("unknown index")
		}
		return q.is(cEq(x.l, c.idx))
	}
	n, ok := s.name.(VStr)
	if !ok {
		q.fail("unknown name")
	}
	n = q.e.canonKey(q.st, n)
	if n.K() == c.name.K() {
		return true
	}
	i1, ok1 := keyIndex(c.parent, n)
	i2, ok2 := keyIndex(c.parent, c.name)
	if ok1 && ok2 {
		return q.is(cEq(i1, i2))
	}
	return q.is(relCond(n, c.name, 2))
}

func (e *Eng) isObjChild(s Seg) bool {
	t, ok := s.node.(VTerm)
	return ok && t.t.op == "Key"
}

// counter returns the variable that counts the iterations, and its step
func (l *LoopEv) counter() (*IndVar, int64) {
	for i := range l.vars {
		v := &l.vars[i]
		var step int64
		ok := true
		for k, p := range l.paths {
			n := p.next[v.atom]
			if n == nil {
				ok = false
				break
			}
			d, isC := n.sub(linA(v.atom)).constInt()
			if c := p.pinned(v.atom); !isC && c != nil {
				d, isC = n.sub(c).constInt()
			}
			if !isC || d == 0 || (k > 0 && d != step) {
				ok = false
				break
			}
			step = d
		}
		if ok && len(l.paths) > 0 {
			return v, step
		}
	}
	return nil, 0
}

// pinned is the only value of a variable with which the iteration is
// made, or nil
func (p *LoopPath) pinned(a *Atom) *Lin {
	for _, c := range p.conds {
		if c.op == "==0" && !c.neg && len(c.l.t) == 1 && c.l.t[0].a == a {
			if k := c.l.t[0].c; k == 1 || k == -1 {
				return linB(c.l.c).mulC(-k)
			}
		}
	}
	return nil
}

// pinned is the only iteration of the loop, or nil
func (l *LoopEv) pinned(a *Atom) *Lin {
	var r *Lin
	for i := range l.paths {
		c := l.paths[i].pinned(a)
		if c == nil || r != nil && !r.equal(c) {
			return nil
		}
		r = c
	}
	return r
}

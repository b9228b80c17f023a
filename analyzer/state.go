package main

// Abstract states: a heap and the facts known on the current path.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"
)

type Cell struct {
	idx *Lin
	v   Val
}

// Fill: for lo <= i < hi the element i is val with v replaced by i
type Fill struct {
	v      *Atom
	val    Val
	lo, hi *Lin
}

// LSeg is a part of the contents of a list
type LSeg struct {
	el   Val     // a single element
	loop *LoopEv // the elements appended by a loop
	acc  int     // appended for array
	rec  *RecEv  // elements appended by a recursive call
	star *Star   // runes of a star
	name string  // unknown elements
	perm []LSeg  // a permutation of these elements
}

func (s LSeg) key() string {
	switch {
	case s.el != nil:
		return s.el.K()
	case s.loop != nil:
		return fmt.Sprintf("loop%d", s.loop.id)
	case s.rec != nil:
		return fmt.Sprintf("rec%d", s.rec.sum.id)
	case s.star != nil:
		return s.star.key()
	}
	return s.name
}

type Arr struct {
	elem   types.Type
	cells  []Cell
	prefix []LSeg // contents of [0, base)
	base   *Lin
	fills  []Fill
	gen    func(*Lin) Val // elements of an array of the environment
	zero   bool           // elements that are not set are zero
	lost   bool           // contents unknown
}

type Obj struct {
	id     int
	typ    types.Type
	site   string
	v      Val
	arr    *Arr
	mp     *MapObj
	tree   *Tree
	it     *IterObj
	frozen string // what it belongs to, if it must not be written any more
	esc    *Lin   // given to the callback with this length
	list   []LSeg // strings.Builder contents
	isBld  bool
	ext    bool
}

type MapObj struct {
	keys   []Val
	vals   []Val
	opaque *Term
}

type IterObj struct {
	str     VStr
	pos     int  // next element
	off     *Lin // byte offset
	inStar  bool
	mp      int
	started int
}

func (it *IterObj) key() string {
	return fmt.Sprintf("%s@%d/%s/%v/%d", it.str.K(), it.pos, it.off.key(), it.inStar, it.started)
}

type Ev struct {
	kind string // "capture", "loop", "rec", "call"
	loc  Val
	st   *State // state at the event (heap snapshot)
	loop *LoopEv
	rec  *RecEv
	text string
	prev *Ev
	n    int
}

type State struct {
	heap    map[int]*Obj
	lin     []*Lin
	ne      []*Lin
	rel     map[string]uint8
	bools   map[string]bool
	divs    []*Cond
	dynK    map[string]types.Type // known type
	dynX    map[string][]types.Type
	nilF    map[string]bool
	runes   map[*Atom]RuneSet
	stars   map[string]RuneSet
	pc      []*Cond
	tr      *Ev
	ext     map[int][]Val // listeners of external objects
	dead    bool
	imp     string // why the path is imprecise
	ferm    map[string]bool
	globals map[string]int
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, rel: map[string]uint8{}, bools: map[string]bool{}, dynK: map[string]types.Type{}, dynX: map[string][]types.Type{},
		nilF: map[string]bool{}, runes: map[*Atom]RuneSet{}, stars: map[string]RuneSet{}, ext: map[int][]Val{}, ferm: map[string]bool{}, globals: map[string]int{}}
}

func (s *State) clone() *State {
	n := *s
	n.heap = cloneMap(s.heap)
	n.rel = cloneMap(s.rel)
	n.bools = cloneMap(s.bools)
	n.dynK = cloneMap(s.dynK)
	n.dynX = cloneMap(s.dynX)
	n.nilF = cloneMap(s.nilF)
	n.runes = cloneMap(s.runes)
	n.stars = cloneMap(s.stars)
	n.ext = cloneMap(s.ext)
	n.globals = cloneMap(s.globals)
	n.ferm = s.ferm
	n.lin = s.lin[:len(s.lin):len(s.lin)]
	n.ne = s.ne[:len(s.ne):len(s.ne)]
	n.divs = s.divs
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	return &n
}

// copyFacts returns a state with the facts of s and no heap
func (s *State) event(e *Ev) {
	e.prev = s.tr
	e.n = 1
	if s.tr != nil {
		e.n = s.tr.n + 1
	}
	s.tr = e
}

func (s *State) events() []*Ev {
	var out []*Ev
	for e := s.tr; e != nil; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func eventsSince(tr, base *Ev) []*Ev {
	var out []*Ev
	for e := tr; e != nil && e != base; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------- facts

// relevant returns the linear facts connected with l
func (s *State) relevant(l *Lin) []*Lin {
	seen := map[*Atom]bool{}
	for _, t := range l.t {
		seen[t.a] = true
	}
	used := make([]bool, len(s.lin))
	var out []*Lin
	for {
		ch := false
		for i, c := range s.lin {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range c.t {
				if seen[t.a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for _, t := range c.t {
					seen[t.a] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	for a, r := range s.runes {
		if seen[a] && len(r) > 0 {
			out = append(out, linA(a).sub(linC(int64(r[0].lo))), linC(int64(r[len(r)-1].hi)).sub(linA(a)))
		}
	}
	return out
}

// proveGe tells if l >= 0 follows from the facts
func (s *State) proveGe(l *Lin) bool {
	if l.isConst() {
		return l.c.Sign() >= 0
	}
	// bounds of the atoms
	lo := new(big.Int).Set(l.c)
	ok := true
	for _, t := range l.t {
		b := t.a.lo
		if t.c < 0 {
			b = t.a.hi
		}
		if b == nil {
			ok = false
			break
		}
		lo.Add(lo, new(big.Int).Mul(b, big.NewInt(t.c)))
	}
	if ok && lo.Sign() >= 0 {
		return true
	}
	key := l.key()
	for _, f := range s.lin {
		if len(f.t) == len(l.t) && f.key() == key {
			return true
		}
	}
	return !feasible(append(s.relevant(l), l.neg().addC(-1)))
}

func (s *State) proveEq(a, b *Lin) bool {
	d := a.sub(b)
	if d.isConst() {
		return d.c.Sign() == 0
	}
	return s.proveGe(d) && s.proveGe(d.neg())
}

func (s *State) proveNe(a, b *Lin) bool {
	d := a.sub(b)
	if d.isConst() {
		return d.c.Sign() != 0
	}
	for _, n := range s.ne {
		if n.key() == d.key() || n.key() == d.neg().key() {
			return true
		}
	}
	return s.proveGe(d.addC(-1)) || s.proveGe(d.neg().addC(-1))
}

func (s *State) runeSet(a *Atom) (RuneSet, bool) {
	r, ok := s.runes[a]
	return r, ok
}

// decide: 1 true, -1 false, 0 unknown
func (s *State) decide(c *Cond) int {
	c = s.emptyRel(c)
	r := s.decide1(c)
	if c.neg {
		return -r
	}
	return r
}

// emptyRel replaces a comparison with the empty string by one of the
// length
func (s *State) emptyRel(c *Cond) *Cond {
	if c.op != "rel" {
		return c
	}
	x, ok1 := c.a.(VStr)
	y, ok2 := c.b.(VStr)
	if !ok1 || !ok2 {
		return c
	}
	m := c.m
	if len(x.el) == 0 {
		x, y = y, x
		m = m&2 | m&1<<2 | m&4>>2
	}
	if len(y.el) != 0 {
		return c
	}
	var r *Cond
	switch m & 6 {
	case 0:
		r = cFalse
	case 2:
		r = cEq0(s.strLen(x))
	case 4:
		r = cGe0(s.strLen(x).addC(-1))
	default:
		r = cTrue
	}
	if c.neg {
		r = r.not()
	}
	return r
}

func (s *State) decide1(c *Cond) int {
	switch c.op {
	case "true":
		return 1
	case ">=0":
		if a, k, ok := singleRune(s, c.l); ok {
			set := ge0Set(c.l, k)
			r := s.runes[a]
			if r.minus(set).empty() {
				return 1
			}
			if r.inter(set).empty() {
				return -1
			}
		}
		if s.proveGe(c.l) {
			return 1
		}
		if s.proveGe(c.l.neg().addC(-1)) {
			return -1
		}
	case "==0":
		if a, k, ok := singleRune(s, c.l); ok {
			v := new(big.Int).Neg(c.l.c)
			if k < 0 {
				v.Neg(v)
			}
			if k == 1 || k == -1 {
				r := s.runes[a]
				if !v.IsInt64() || v.Int64() != int64(rune(v.Int64())) || !r.has(rune(v.Int64())) {
					return -1
				}
				if r.size() == 1 {
					return 1
				}
				return 0
			}
		}
		if s.proveNe(c.l, linC(0)) {
			return -1
		}
		if s.proveEq(c.l, linC(0)) {
			return 1
		}
	case "rel":
		k := c.a.K() + "\x00" + c.b.K()
		m, ok := s.rel[k]
		if !ok {
			m = 7
		}
		if x, ok := c.a.(VStr); ok {
			if y, ok := c.b.(VStr); ok && s.strDiffer(x, y) {
				m &^= 2
			}
		}
		if m&c.m == 0 {
			return -1
		}
		if m&^c.m == 0 {
			return 1
		}
	case "bool", "div":
		if b, ok := s.bools[c.base()]; ok {
			if b {
				return 1
			}
			return -1
		}
		if c.op == "div" {
			p := *c
			p.neg = false
			if !s.divFeasible(&p) {
				return -1
			}
			p.neg = true
			if !s.divFeasible(&p) {
				return 1
			}
		}
	case "dyn":
		k := c.a.K()
		if t, ok := s.dynK[k]; ok {
			if (t == nil) == (c.typ == nil) && (t == nil || types.Identical(t, c.typ)) {
				return 1
			}
			return -1
		}
		if c.typ == nil {
			if s.nilF[k] {
				return -1
			}
		}
		for _, t := range s.dynX[k] {
			if c.typ != nil && types.Identical(t, c.typ) {
				return -1
			}
		}
	}
	return 0
}

func singleRune(s *State, l *Lin) (*Atom, int64, bool) {
	if len(l.t) == 1 {
		if _, ok := s.runes[l.t[0].a]; ok {
			return l.t[0].a, l.t[0].c, true
		}
	}
	return nil, 0, false
}

// the runes for which l>=0, l = k*a + c
func ge0Set(l *Lin, k int64) RuneSet {
	c := l.c.Int64()
	if k > 0 {
		// a >= -c/k
		lo := -c / k
		for k*lo+c < 0 {
			lo++
		}
		for k*(lo-1)+c >= 0 {
			lo--
		}
		return RuneSet{{clampRune(lo), 1<<31 - 1}}
	}
	hi := c / -k
	for k*hi+c < 0 {
		hi--
	}
	for k*(hi+1)+c >= 0 {
		hi++
	}
	return RuneSet{{-1 << 31, clampRune(hi)}}
}
func clampRune(i int64) rune {
	if i > 1<<31-1 {
		return 1<<31 - 1
	}
	if i < -1<<31 {
		return -1 << 31
	}
	return rune(i)
}

// assume adds a condition to the facts; it returns false if it
// contradicts them
func (s *State) assume(c *Cond) bool {
	c = s.emptyRel(c)
	switch s.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	s.pc = append(s.pc, c)
	switch c.op {
	case ">=0":
		l := c.l
		if c.neg {
			l = l.neg().addC(-1)
		}
		if a, k, ok := singleRune(s, l); ok {
			s.runes[a] = s.runes[a].inter(ge0Set(l, k))
			return !s.runes[a].empty()
		}
		s.addLin(l)
	case "==0":
		if a, k, ok := singleRune(s, c.l); ok && (k == 1 || k == -1) {
			v := -c.l.c.Int64() * k
			if c.neg {
				s.runes[a] = s.runes[a].minus(rs(rune(v), rune(v)))
			} else {
				s.runes[a] = s.runes[a].inter(rs(rune(v), rune(v)))
			}
			return !s.runes[a].empty()
		}
		if !c.neg {
			s.addLin(c.l)
			s.addLin(c.l.neg())
		} else {
			// a bound that is excluded becomes a strict one
			if s.proveGe(c.l) {
				s.addLin(c.l.addC(-1))
			} else if s.proveGe(c.l.neg()) {
				s.addLin(c.l.neg().addC(-1))
			} else {
				s.ne = append(s.ne, c.l)
			}
		}
	case "rel":
		k := c.a.K() + "\x00" + c.b.K()
		m, ok := s.rel[k]
		if !ok {
			m = 7
		}
		if c.neg {
			m &^= c.m
		} else {
			m &= c.m
		}
		s.rel[k] = m
	case "bool", "div":
		s.bools[c.base()] = !c.neg
		if c.op == "div" {
			s.divs = append(s.divs[:len(s.divs):len(s.divs)], c)
		}
	case "dyn":
		k := c.a.K()
		if !c.neg {
			s.dynK[k] = c.typ
		} else if c.typ == nil {
			s.nilF[k] = true
		} else {
			s.dynX[k] = append(s.dynX[k][:len(s.dynX[k]):len(s.dynX[k])], c.typ)
		}
	}
	// excluded values may become bounds
	if c.op == ">=0" || c.op == "==0" && c.neg {
		for i := 0; i < len(s.ne); i++ {
			n := s.ne[i]
			if s.proveGe(n) {
				s.addLin(n.addC(-1))
			} else if s.proveGe(n.neg()) {
				s.addLin(n.neg().addC(-1))
			} else {
				continue
			}
			s.ne = append(append([]*Lin(nil), s.ne[:i]...), s.ne[i+1:]...)
			i = -1
		}
		if !feasible(s.relevant(c.l)) {
			return false
		}
	}
	if c.op == ">=0" || c.op == "==0" {
		for _, d := range s.divs {
			if !s.divFeasible(d) {
				return false
			}
		}
	}
	return true
}

// divFeasible tells if a condition on the remainder of a division may
// hold
func (s *State) divFeasible(c *Cond) bool {
	var eqs, cs []*Lin
	add := func(c *Cond) bool {
		m, ok := c.a.(VInt).l.constInt()
		if !ok {
			return false
		}
		k := fmt.Sprintf("%d|%s", m, c.l.key())
		// c.l = m*q, or m*q + r
		q := newAtom("quotient "+k, nil, nil)
		q.last = true
		e := c.l.sub(linA(q).mulC(m))
		if c.neg {
			r := linA(newAtom("rest "+k, nil, nil))
			e = e.sub(r)
			cs = append(cs, r.addC(-1), linC(m-1).sub(r))
		}
		eqs = append(eqs, e)
		return true
	}
	if !add(c) {
		return true
	}
	all := c.l
	for _, d := range s.divs {
		if d != c && shares(d.l, c.l) && add(d) {
			for _, t := range d.l.t {
				if all.coef(t.a) == 0 {
					all = all.add(linA(t.a))
				}
			}
		}
	}
	rel := s.relevant(all)
	at := map[string]bool{}
	for _, l := range rel {
		at[l.key()] = true
	}
	for _, l := range rel {
		if n := l.neg(); at[n.key()] {
			if l.key() < n.key() {
				eqs = append(eqs, l)
			}
			continue
		}
		cs = append(cs, l)
	}
	return feasible(solveEq(cs, eqs))
}

func shares(a, b *Lin) bool {
	for _, t := range a.t {
		if b.coef(t.a) != 0 {
			return true
		}
	}
	return false
}

func (s *State) addLin(l *Lin) {
	l = l.tighten()
	k := l.key()
	for _, f := range s.lin {
		if f.key() == k {
			return
		}
	}
	s.lin = append(s.lin, l)
}

// strDiffer tells if two strings are certainly different
func (s *State) strDiffer(x, y VStr) bool {
	if x.k == y.k {
		return false
	}
	// compare from the front
	for i := 0; i < len(x.el) && i < len(y.el); i++ {
		a, b := x.el[i], y.el[i]
		if a.kind == sRune && b.kind == sRune {
			if s.decide(cEq(a.r, b.r)) < 0 {
				return true
			}
			continue
		}
		if a.key() == b.key() {
			continue
		}
		break
	}
	for i := 1; i <= len(x.el) && i <= len(y.el); i++ {
		a, b := x.el[len(x.el)-i], y.el[len(y.el)-i]
		if a.kind == sRune && b.kind == sRune {
			if s.decide(cEq(a.r, b.r)) < 0 {
				return true
			}
			continue
		}
		if a.key() == b.key() {
			continue
		}
		break
	}
	// minimal and maximal lengths in runes
	minmax := func(v VStr) (int, int) {
		lo, hi := 0, 0
		for _, e := range v.el {
			if e.kind == sRune {
				lo++
				hi++
			} else {
				hi = 1 << 30
			}
		}
		return lo, hi
	}
	xl, xh := minmax(x)
	yl, yh := minmax(y)
	if xl > yh || yl > xh {
		return true
	}
	// a constant against a string with a rune or a star class that the
	// constant does not have
	for _, p := range [][2]VStr{{x, y}, {y, x}} {
		if c, ok := p[0].constant(); ok {
			if !s.mayEqualConst(p[1], c) {
				return true
			}
		}
	}
	return false
}

// mayEqualConst matches the elements of v with the runes of c
func (s *State) mayEqualConst(v VStr, c string) bool {
	rs := []rune(c)
	memo := map[[2]int]bool{}
	var match func(i, j int) bool
	match = func(i, j int) bool {
		k := [2]int{i, j}
		if r, ok := memo[k]; ok {
			return r
		}
		memo[k] = false
		r := false
		if i == len(v.el) {
			r = j == len(rs)
		} else {
			e := v.el[i]
			switch e.kind {
			case sRune:
				r = j < len(rs) && s.decide(cEq(e.r, linC(int64(rs[j])))) >= 0 && match(i+1, j+1)
			case sChunk:
				for n := j; n <= len(rs) && !r; n++ {
					r = match(i+1, n)
				}
			case sStar:
				r = match(i+1, j)
				for ai, a := range e.star.alts {
					if r {
						break
					}
					// one unit
					if j+len(a.img) > len(rs) || len(a.img) == 0 {
						continue
					}
					cls := s.starClass(e.star, ai)
					ok := true
					for n, ie := range a.img {
						if ie.kind != sRune {
							continue
						}
						if x, single := ie.r.single(); single && x == a.v {
							ok = ok && cls.has(rs[j+n])
						} else if k, isC := ie.r.constInt(); isC {
							ok = ok && rune(k) == rs[j+n]
						}
					}
					if ok {
						r = match(i, j+len(a.img))
					}
				}
			}
		}
		memo[k] = r
		return r
	}
	return match(0, 0)
}

// starClass is the class of the runes of an alternative that occur
func (s *State) starClass(st *Star, alt int) RuneSet {
	a := st.alts[alt]
	if c, ok := s.stars[fmt.Sprintf("%s#%d", st.id, a.tag)]; ok {
		return a.cls.inter(c)
	}
	return a.cls
}

// refineStar: of the runes of the alternative only those of r occur
func (s *State) refineStar(st *Star, alt int, r RuneSet) {
	a := st.alts[alt]
	k := fmt.Sprintf("%s#%d", st.id, a.tag)
	c, ok := s.stars[k]
	if !ok {
		c = rsAll
	}
	s.stars[k] = c.minus(a.cls.minus(r))
}

// ---------------------------------------------------------------- heap

func (s *State) obj(id int) *Obj {
	o := s.heap[id]
	if o == nil {
		panic(undecided(fmt.Sprintf("no object %d", id)))
	}
	return o
}
func (s *State) set(o *Obj) { s.heap[o.id] = o }

func (a *Arr) clone() *Arr {
	n := *a
	n.cells = append([]Cell(nil), a.cells...)
	n.fills = a.fills[:len(a.fills):len(a.fills)]
	n.prefix = a.prefix[:len(a.prefix):len(a.prefix)]
	return &n
}

func (s *State) arrRead(a *Arr, idx *Lin) Val {
	for i := len(a.cells) - 1; i >= 0; i-- {
		c := a.cells[i]
		d := idx.sub(c.idx)
		if d.isConst() {
			if d.isZero() {
				return c.v
			}
			continue
		}
		if s.proveEq(idx, c.idx) {
			return c.v
		}
		if !s.proveNe(idx, c.idx) {
			// the element after the last fill, set in the same way
			if k := len(a.fills); k > 0 && i == len(a.cells)-1 && !a.lost {
				f := a.fills[k-1]
				if (&Subst{at: map[*Atom]*Lin{f.v: c.idx}}).val(f.val).K() == c.v.K() && s.proveEq(c.idx, f.hi) {
					n := a.clone()
					n.cells = n.cells[:i:i]
					f.hi = f.hi.addC(1)
					n.fills = append(append([]Fill(nil), n.fills[:k-1]...), f)
					return s.arrRead(n, idx)
				}
			}
			if a.base != nil && len(a.fills) == 0 && !a.lost && s.proveEq(c.idx, a.base) {
				if v, ok := listAt(a.prefix, c.idx); ok && v.K() == c.v.K() {
					n := a.clone()
					n.cells = append(n.cells[:i:i], n.cells[i+1:]...)
					n.base = a.base.addC(1)
					return s.arrRead(n, idx)
				}
			}
			return unknown(a.elem)
		}
	}
	if a.lost {
		return unknown(a.elem)
	}
	for i := len(a.fills) - 1; i >= 0; i-- {
		f := a.fills[i]
		if s.proveGe(idx.sub(f.lo)) && s.proveGe(f.hi.sub(idx).addC(-1)) {
			sb := &Subst{at: map[*Atom]*Lin{f.v: idx}}
			return sb.val(f.val)
		}
		if s.proveGe(f.lo.sub(idx).addC(-1)) || s.proveGe(idx.sub(f.hi)) {
			continue
		}
		return unknown(a.elem)
	}
	if a.base != nil && !s.proveGe(idx.sub(a.base)) {
		// elements of the prefix
		if k, ok := idx.constInt(); ok && k >= 0 && int(k) < len(a.prefix) {
			plain := true
			for i := 0; i <= int(k); i++ {
				if a.prefix[i].el == nil {
					plain = false
				}
			}
			if plain {
				return a.prefix[k].el
			}
		}
		if s.proveGe(idx) {
			if v, ok := listAt(a.prefix, idx); ok {
				return v
			}
		}
		if isIface(a.elem) && s.proveGe(idx) {
			if vs, ok := elements(a.prefix, nil); ok && len(vs) > 0 {
				if v, ok := oneOf(vs, "node:L"+hash(segsKey(a.prefix)), idx); ok {
					return v
				}
			}
		}
		return unknown(a.elem)
	}
	if a.gen != nil {
		return a.gen(idx)
	}
	if a.zero {
		return zeroVal(a.elem)
	}
	return unknown(a.elem)
}

// listAt is the element at an index of a list that is filled by a loop
// which appends one element in every iteration
func listAt(segs []LSeg, idx *Lin) (Val, bool) {
	if len(segs) != 1 || segs[0].loop == nil || segs[0].acc == 0 || len(segs[0].loop.paths) != 1 {
		return nil, false
	}
	l := segs[0].loop
	p := l.paths[0]
	if x := p.app[segs[0].acc]; len(x) != 1 || x[0].el == nil {
		return nil, false
	}
	at := map[*Atom]*Lin{}
	for _, v := range l.vars {
		nx := p.next[v.atom]
		if nx == nil {
			continue
		}
		if d, ok := nx.sub(linA(v.atom)).constInt(); ok && d > -1000 && d < 1000 {
			at[v.atom] = v.init.add(idx.mulC(d))
		}
	}
	el := (&Subst{at: at}).val(p.app[segs[0].acc][0].el)
	if isUnknown(el) || strings.Contains(el.K(), fmt.Sprintf("φ%d.", l.id)) {
		return nil, false
	}
	return el, true
}

// elements returns the values of a list, those that are appended in loops
// in terms of the variables of the loop
func elements(segs []LSeg, vs []Val) ([]Val, bool) {
	for _, x := range segs {
		switch {
		case x.el != nil:
			vs = append(vs, x.el)
		case x.loop != nil && x.acc != 0:
			if len(x.loop.paths) == 0 {
				return nil, false
			}
			for _, p := range x.loop.paths {
				var ok bool
				if vs, ok = elements(p.app[x.acc], vs); !ok {
					return nil, false
				}
			}
		default:
			return nil, false
		}
	}
	return vs, true
}

// oneOf is the element of a list at an unknown index: some node of the
// document, or a struct of such values
func oneOf(vs []Val, name string, idx *Lin) (Val, bool) {
	same, node := true, true
	for _, v := range vs {
		node = node && isNode(v)
		same = same && v.K() == vs[0].K()
	}
	if node {
		return VTerm{mkTerm(anyType, name, VInt{idx})}, true
	}
	if t, ok := vs[0].(VTerm); ok && same && len(t.t.args) == 0 && !strings.Contains(t.t.op, "φ") {
		return vs[0], true
	}
	if x, ok := vs[0].(VIface); ok {
		var in []Val
		for _, v := range vs {
			y, ok := v.(VIface)
			if !ok || !types.Identical(y.dyn, x.dyn) {
				return nil, false
			}
			in = append(in, y.v)
		}
		v, ok := oneOf(in, name, idx)
		return VIface{x.dyn, v}, ok
	}
	x, ok := vs[0].(VStruct)
	if !ok {
		return nil, false
	}
	out := VStruct{x.t, make([]Val, len(x.f))}
	for i := range x.f {
		var fs []Val
		for _, v := range vs {
			y, ok := v.(VStruct)
			if !ok || len(y.f) != len(x.f) || !types.Identical(y.t, x.t) {
				return nil, false
			}
			fs = append(fs, y.f[i])
		}
		f, ok := oneOf(fs, fmt.Sprintf("%s.%d", name, i), idx)
		if !ok {
			return nil, false
		}
		out.f[i] = f
	}
	return out, true
}

// segsKey is a key of the contents of a list
func segsKey(segs []LSeg) string {
	var b strings.Builder
	for _, x := range segs {
		fmt.Fprintf(&b, "%s/%d,", x.key(), x.acc)
	}
	return b.String()
}

func hash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

func (s *State) arrWrite(a *Arr, idx *Lin, v Val) *Arr {
	n := a.clone()
	out := n.cells[:0:0]
	for _, c := range n.cells {
		d := idx.sub(c.idx)
		if d.isConst() {
			if d.isZero() {
				continue
			}
		} else if s.proveEq(idx, c.idx) {
			continue
		} else if !s.proveNe(idx, c.idx) {
			c.v = unknown(a.elem)
		}
		out = append(out, c)
	}
	n.cells = append(out, Cell{idx, v})
	return n
}

func (a *Arr) key() string {
	var b strings.Builder
	cs := append([]Cell(nil), a.cells...)
	sort.Slice(cs, func(i, j int) bool { return cs[i].idx.key() < cs[j].idx.key() })
	for _, c := range cs {
		b.WriteString(c.idx.key() + "=" + c.v.K() + ";")
	}
	if a.base != nil {
		b.WriteString("base " + a.base.key() + ":")
		for _, p := range a.prefix {
			b.WriteString(p.key() + ",")
		}
	}
	for _, f := range a.fills {
		b.WriteString("fill " + f.lo.key() + ".." + f.hi.key() + f.val.K())
	}
	if a.lost {
		b.WriteString("lost")
	}
	return b.String()
}

func (o *Obj) key() string {
	switch {
	case o.arr != nil:
		return o.arr.key()
	case o.mp != nil:
		return keys(o.mp.keys) + "->" + keys(o.mp.vals)
	case o.it != nil:
		return o.it.key()
	case o.isBld:
		var b strings.Builder
		for _, s := range o.list {
			b.WriteString(s.key())
		}
		return b.String()
	case o.v != nil:
		return o.v.K()
	}
	return ""
}

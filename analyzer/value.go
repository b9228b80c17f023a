package main

// Abstract values.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Equal keys mean equal values.
type Val interface{ K() string }

type (
	VInt  struct{ l *Lin }
	VBool struct{ c *Cond }
	VTerm struct{ t *Term } // opaque value
	// constant float
	VFloat struct{ f float64 }
	VNil   struct{ t types.Type }
	VIface struct {
		dyn types.Type
		v   Val
	}
	// pointer to a heap object, or to a part of it
	VPtr struct {
		obj  int
		path []PStep
	}
	VSlice struct {
		obj           int
		off, len, cap *Lin // cap nil: unknown
	}
	VStruct struct {
		t types.Type
		f []Val
	}
	VTuple struct{ f []Val }
	VArr   struct { // array value
		t  types.Type
		el []Val
	}
	VFunc struct {
		fn    *ssa.Function
		binds []Val
		bi    *ssa.Builtin
		ext   string // a function of the environment
		recv  Val    // receiver of an interface method value
		meth  *types.Func
	}
	VMap     struct{ obj int }
	VIter    struct{ obj int }
	VUnknown struct {
		t types.Type
		n int
	}
	// object outside of the analysis (lexer, parser, token stream)
	VExt struct {
		id   int
		path string
		t    types.Type
	}
	// reflect.Type
	VRType struct{ t types.Type }
	VStr   struct {
		el []SElem
		k  string
	}
)

type PStep struct {
	field int  // >= 0: field
	idx   *Lin // array element (field -1)
}

// Term is an opaque term op(args)
type Term struct {
	op   string
	args []Val
	typ  types.Type
	key  string
}

var termTab = map[string]*Term{}

func mkTerm(typ types.Type, op string, args ...Val) *Term {
	var b strings.Builder
	b.WriteString(op)
	if len(args) > 0 {
		b.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.K())
		}
		b.WriteByte(')')
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, typ: typ, key: k}
	termTab[k] = t
	return t
}

func (v VInt) K() string  { return v.l.key() }
func (v VBool) K() string { return v.c.key() }
func (v VTerm) K() string { return v.t.key }
func (v VFloat) K() string {
	return strconv.FormatFloat(v.f, 'g', -1, 64) + "f"
}
func (v VNil) K() string { return "nil" }
func (v VIface) K() string {
	return "<" + types.TypeString(v.dyn, shortQ) + ":" + v.v.K() + ">"
}
func (p PStep) key() string {
	if p.field >= 0 {
		return "." + strconv.Itoa(p.field)
	}
	return "[" + p.idx.key() + "]"
}
func (v VPtr) K() string {
	s := "&" + strconv.Itoa(v.obj)
	for _, p := range v.path {
		s += p.key()
	}
	return s
}
func (v VSlice) K() string {
	return fmt.Sprintf("sl%d[%s:+%s]", v.obj, v.off.key(), v.len.key())
}
func keys(vs []Val) string {
	var b strings.Builder
	for i, x := range vs {
		if i > 0 {
			b.WriteByte(',')
		}
		if x == nil {
			b.WriteString("?")
		} else {
			b.WriteString(x.K())
		}
	}
	return b.String()
}
func (v VStruct) K() string { return "{" + keys(v.f) + "}" }
func (v VTuple) K() string  { return "(" + keys(v.f) + ")" }
func (v VArr) K() string    { return "[" + keys(v.el) + "]" }
func (v VFunc) K() string {
	n := v.ext
	if v.fn != nil {
		n = v.fn.String()
	}
	if v.bi != nil {
		n = v.bi.Name()
	}
	if v.meth != nil {
		n += v.meth.FullName() + "@" + v.recv.K()
	}
	return "fn:" + n + "[" + keys(v.binds) + "]"
}
func (v VMap) K() string     { return "map" + strconv.Itoa(v.obj) }
func (v VIter) K() string    { return "iter" + strconv.Itoa(v.obj) }
func (v VUnknown) K() string { return "T" + strconv.Itoa(v.n) }
func (v VExt) K() string     { return "ext" + strconv.Itoa(v.id) + v.path }
func (v VRType) K() string   { return "rtype:" + types.TypeString(v.t, shortQ) }

func shortQ(p *types.Package) string { return p.Name() }

var unknownSeq int

func unknown(t types.Type) Val {
	unknownSeq++
	return VUnknown{t, unknownSeq}
}

func isUnknown(v Val) bool { _, ok := v.(VUnknown); return ok }

func vi(i int64) VInt { return VInt{linC(i)} }

// ---------------------------------------------------------------- strings

// SElem is a part of an abstract string
type SElem struct {
	kind int
	r    *Lin  // sRune: a single rune
	star *Star // sStar: any number of units
	t    *Term // sChunk: opaque string
}

const (
	sRune = iota
	sStar
	sChunk
)

// Star is a sequence of unknown length of units; each unit is one of the
// alternatives
type Star struct {
	id   string
	t    *Term // the string whose runes these are, or nil
	alts []StarAlt
}

// StarAlt: for a rune of the class, the unit is img (in which v stands
// for the rune)
type StarAlt struct {
	tag int // alternative of the star it is derived from
	cls RuneSet
	v   *Atom
	img []SElem
}

func (e SElem) key() string {
	switch e.kind {
	case sRune:
		if c, ok := e.r.constInt(); ok {
			if c >= 32 && c < 127 && c != '<' && c != '>' {
				return string(rune(c))
			}
			return fmt.Sprintf("<%x>", c)
		}
		return "<" + e.r.key() + ">"
	case sStar:
		return "<*" + e.star.key() + ">"
	}
	return "<" + e.t.key + ">"
}

func (s *Star) key() string {
	var b strings.Builder
	b.WriteString(s.id)
	for _, a := range s.alts {
		b.WriteString("|" + strconv.Itoa(a.tag) + a.cls.String() + "->")
		for _, e := range a.img {
			if e.kind == sRune {
				if x, ok := e.r.single(); ok && x == a.v {
					b.WriteString("<.>")
					continue
				}
				if a.v != nil && e.r.coef(a.v) != 0 {
					b.WriteString("<" + e.r.sub(linA(a.v)).key() + "+.>")
					continue
				}
			}
			b.WriteString(e.key())
		}
	}
	return b.String()
}

func mkStr(el ...SElem) VStr {
	var b strings.Builder
	b.WriteByte('"')
	for _, e := range el {
		b.WriteString(e.key())
	}
	b.WriteByte('"')
	return VStr{el: el, k: b.String()}
}
func (v VStr) K() string { return v.k }

func strC(s string) VStr {
	var el []SElem
	for _, r := range s {
		el = append(el, SElem{kind: sRune, r: linC(int64(r))})
	}
	return mkStr(el...)
}
func strChunk(t *Term) VStr { return mkStr(SElem{kind: sChunk, t: t}) }
func (v VStr) constant() (string, bool) {
	var b strings.Builder
	for _, e := range v.el {
		if e.kind != sRune {
			return "", false
		}
		c, ok := e.r.constInt()
		if !ok {
			return "", false
		}
		b.WriteRune(rune(c))
	}
	return b.String(), true
}
func concat(a, b VStr) VStr {
	return mkStr(append(append([]SElem(nil), a.el...), b.el...)...)
}

// ---------------------------------------------------------------- conditions

// Cond is an atomic condition, possibly negated
type Cond struct {
	op  string // "true", ">=0", "==0", "bool", "rel", "dyn", "div", "in"
	l   *Lin
	a   Val
	b   Val
	m   uint8 // rel: set of orderings 1:<, 2:==, 4:>
	typ types.Type
	neg bool
	k   string
}

var cTrue = &Cond{op: "true"}
var cFalse = &Cond{op: "true", neg: true}

func cBool(b bool) *Cond {
	if b {
		return cTrue
	}
	return cFalse
}
func (c *Cond) not() *Cond {
	n := *c
	n.k = ""
	n.neg = !c.neg
	return &n
}
func (c *Cond) base() string {
	switch c.op {
	case "true":
		return "true"
	case ">=0":
		return c.l.key() + ">=0"
	case "==0":
		return c.l.key() + "==0"
	case "bool":
		return c.a.K()
	case "rel":
		return fmt.Sprintf("rel(%s,%s)&%d", c.a.K(), c.b.K(), c.m)
	case "dyn":
		if c.typ == nil {
			return "isnil(" + c.a.K() + ")"
		}
		return "is(" + c.a.K() + "," + types.TypeString(c.typ, shortQ) + ")"
	case "div":
		return "div(" + c.a.K() + "|" + c.l.key() + ")"
	}
	return c.op
}
func (c *Cond) key() string {
	if c.k == "" {
		c.k = c.base()
		if c.neg {
			c.k = "!" + c.k
		}
	}
	return c.k
}
func (c *Cond) isConst() (bool, bool) {
	if c.op == "true" {
		return !c.neg, true
	}
	return false, false
}

func cGe0(l *Lin) *Cond {
	if l.isConst() {
		return cBool(l.c.Sign() >= 0)
	}
	return &Cond{op: ">=0", l: l}
}
func cEq0(l *Lin) *Cond {
	if l.isConst() {
		return cBool(l.c.Sign() == 0)
	}
	if l.t[0].c < 0 {
		l = l.neg()
	}
	// rem(x, m) == 0
	if a, ok := l.single(); ok && a.term != nil && a.term.op == "rem" {
		return cDiv(a.term.args[1].(VInt).l, a.term.args[0].(VInt).l)
	}
	return &Cond{op: "==0", l: l}
}
func cLe(a, b *Lin) *Cond { return cGe0(b.sub(a)) }
func cLt(a, b *Lin) *Cond { return cGe0(b.sub(a).addC(-1)) }
func cEq(a, b *Lin) *Cond { return cEq0(a.sub(b)) }

// m divides x
func cDiv(m, x *Lin) *Cond {
	if mc, ok := m.constInt(); ok && mc != 0 {
		if mc < 0 {
			mc = -mc
		}
		if mc == 1 {
			return cTrue
		}
		r := &Lin{c: new(big.Int).Mod(x.c, big.NewInt(mc))}
		for _, t := range x.t {
			if c := t.c % mc; c != 0 {
				if c > mc/2 {
					c -= mc
				} else if c <= -(mc+1)/2 {
					c += mc
				}
				r.t = append(r.t, linTerm{t.a, c})
			}
		}
		if len(r.t) > 0 && r.t[0].c < 0 {
			for i := range r.t {
				if r.t[i].c = -r.t[i].c; mc%2 == 0 && r.t[i].c == -mc/2 {
					r.t[i].c = mc / 2
				}
			}
			r.c.Mod(r.c.Neg(r.c), big.NewInt(mc))
		}
		if r.isConst() {
			return cBool(r.c.Sign() == 0)
		}
		return &Cond{op: "div", a: VInt{linC(mc)}, l: r}
	}
	if len(m.t) == 1 && m.c.Sign() == 0 && (m.t[0].c == 1 || m.t[0].c == -1) {
		a := m.t[0].a
		x = x.sub(linA(a).mulC(x.coef(a)))
		if x.isConst() && x.c.Sign() == 0 {
			return cTrue
		}
		if len(x.t) > 0 && x.t[0].c < 0 {
			x = x.neg()
		}
		return &Cond{op: "div", a: VInt{linA(a)}, l: x}
	}
	return &Cond{op: "div", a: VInt{m}, l: x}
}

func cTermBool(t *Term) *Cond { return &Cond{op: "bool", a: VTerm{t}} }

func cDyn(v Val, t types.Type) *Cond { return &Cond{op: "dyn", a: v, typ: t} }

// orderings of two ordered values that are not integers
func cRel(a, b Val, m uint8) *Cond {
	ka, kb := a.K(), b.K()
	if ka == kb {
		return cBool(m&2 != 0)
	}
	if kb < ka {
		a, b = b, a
		m = m&2 | (m&1)<<2 | (m&4)>>2
	}
	if m == 7 {
		return cTrue
	}
	if m == 0 {
		return cFalse
	}
	// choose one form of a condition and its negation
	c := &Cond{op: "rel", a: a, b: b, m: m}
	if m&1 == 0 {
		c = (&Cond{op: "rel", a: a, b: b, m: 7 &^ m}).not()
	}
	return c
}

// ---------------------------------------------------------------- substitution

type Subst struct {
	at map[*Atom]*Lin
	tm map[string]Val // by key
	// memo
	memo map[string]Val
}

func (s *Subst) lin(l *Lin) *Lin {
	if l == nil {
		return nil
	}
	r := linB(l.c)
	ch := false
	for _, t := range l.t {
		if x, ok := s.at[t.a]; ok {
			r = r.add(x.mulC(t.c))
			ch = true
			continue
		}
		if t.a.term != nil {
			n := s.val(VTerm{t.a.term})
			if vi, ok := n.(VInt); ok {
				r = r.add(vi.l.mulC(t.c))
				ch = true
				continue
			}
			if vt, ok := n.(VTerm); ok && vt.t != t.a.term {
				r = r.add(linA(termAtom(vt.t, t.a.lo, t.a.hi)).mulC(t.c))
				ch = true
				continue
			}
		}
		r = r.add(linA(t.a).mulC(t.c))
	}
	if !ch {
		return l
	}
	return r
}

func (s *Subst) vals(vs []Val) ([]Val, bool) {
	ch := false
	out := make([]Val, len(vs))
	for i, v := range vs {
		if v == nil {
			continue
		}
		out[i] = s.val(v)
		if out[i].K() != v.K() {
			ch = true
		}
	}
	if !ch {
		return vs, false
	}
	return out, true
}

func (s *Subst) elems(el []SElem) []SElem {
	out := make([]SElem, 0, len(el))
	for _, e := range el {
		switch e.kind {
		case sRune:
			e.r = s.lin(e.r)
			out = append(out, e)
		case sChunk:
			n := s.val(VTerm{e.t})
			switch x := n.(type) {
			case VTerm:
				e.t = x.t
				out = append(out, e)
			case VStr:
				out = append(out, x.el...)
			default:
				out = append(out, e)
			}
		default:
			if e.star.t != nil {
				if n, ok := s.val(VTerm{e.star.t}).(VTerm); ok && n.t != e.star.t && n.t.key != e.star.t.key {
					e.star = &Star{id: n.t.key, t: n.t, alts: e.star.alts}
				}
			}
			out = append(out, e)
		}
	}
	return out
}

func (s *Subst) val(v Val) Val {
	if v == nil {
		return nil
	}
	k := v.K()
	if x, ok := s.tm[k]; ok {
		return x
	}
	if s.memo == nil {
		s.memo = map[string]Val{}
	}
	if x, ok := s.memo[k]; ok {
		return x
	}
	r := s.val1(v)
	s.memo[k] = r
	return r
}

func (s *Subst) val1(v Val) Val {
	switch v := v.(type) {
	case VInt:
		return VInt{s.lin(v.l)}
	case VBool:
		return VBool{s.cond(v.c)}
	case VTerm:
		if args, ch := s.vals(v.t.args); ch {
			n := VTerm{mkTerm(v.t.typ, v.t.op, args...)}
			if x, ok := s.tm[n.K()]; ok {
				return x
			}
			if str, ok := args[0].(VStr); ok && n.t.op == "bytes" {
				if c, ok := str.constant(); ok {
					return vi(int64(len(c)))
				}
			}
			return n
		}
		return v
	case VIface:
		return VIface{v.dyn, s.val(v.v)}
	case VPtr:
		p := VPtr{obj: v.obj}
		for _, x := range v.path {
			if x.field < 0 {
				x.idx = s.lin(x.idx)
			}
			p.path = append(p.path, x)
		}
		return p
	case VSlice:
		return VSlice{v.obj, s.lin(v.off), s.lin(v.len), s.lin(v.cap)}
	case VStruct:
		if f, ch := s.vals(v.f); ch {
			return VStruct{v.t, f}
		}
		return v
	case VTuple:
		if f, ch := s.vals(v.f); ch {
			return VTuple{f}
		}
		return v
	case VArr:
		if f, ch := s.vals(v.el); ch {
			return VArr{v.t, f}
		}
		return v
	case VStr:
		return mkStr(s.elems(v.el)...)
	}
	return v
}

func (s *Subst) cond(c *Cond) *Cond {
	var r *Cond
	switch c.op {
	case ">=0":
		r = cGe0(s.lin(c.l))
	case "==0":
		r = cEq0(s.lin(c.l))
	case "div":
		r = cDiv(s.val(c.a).(VInt).l, s.lin(c.l))
	case "bool":
		n := s.val(c.a)
		if b, ok := n.(VBool); ok {
			r = b.c
		} else {
			r = &Cond{op: "bool", a: n}
		}
	case "rel":
		r = relCond(s.val(c.a), s.val(c.b), c.m)
	case "dyn":
		r = dynCond(s.val(c.a), c.typ)
	default:
		return c
	}
	if c.neg {
		return r.not()
	}
	return r
}

// condition on the ordering of two values
func relCond(a, b Val, m uint8) *Cond {
	if x, ok := a.(VInt); ok {
		if y, ok := b.(VInt); ok {
			switch m {
			case 1:
				return cLt(x.l, y.l)
			case 2:
				return cEq(x.l, y.l)
			case 3:
				return cLe(x.l, y.l)
			case 4:
				return cLt(y.l, x.l)
			case 5:
				return cEq(x.l, y.l).not()
			case 6:
				return cLe(y.l, x.l)
			}
		}
	}
	if x, ok := a.(VStr); ok {
		if y, ok := b.(VStr); ok {
			return strRel(x, y, m)
		}
	}
	if x, ok := a.(VFloat); ok {
		if y, ok := b.(VFloat); ok {
			switch {
			case x.f < y.f:
				return cBool(m&1 != 0)
			case x.f > y.f:
				return cBool(m&4 != 0)
			case x.f == y.f:
				return cBool(m&2 != 0)
			}
			return cFalse
		}
	}
	return cRel(a, b, m)
}

func strRel(x, y VStr, m uint8) *Cond {
	if a, ok := x.constant(); ok {
		if b, ok := y.constant(); ok {
			return cBool(m&(1<<uint(strings.Compare(a, b)+1)) != 0)
		}
	}
	return cRel(x, y, m)
}

func dynCond(v Val, t types.Type) *Cond {
	switch x := v.(type) {
	case VNil:
		return cBool(t == nil)
	case VIface:
		if t == nil {
			return cFalse
		}
		return cBool(types.Identical(x.dyn, t))
	}
	return cDyn(v, t)
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return unknown(t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return VBool{cBool(constant.BoolVal(c.Value))}
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return vi(i)
		}
		bi, _ := new(big.Int).SetString(v.ExactString(), 10)
		return VInt{linB(bi)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return VFloat{f}
	case b.Info()&types.IsString != 0:
		return strC(constant.StringVal(c.Value))
	}
	return unknown(t)
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{cFalse}
		case u.Info()&types.IsInteger != 0:
			return vi(0)
		case u.Info()&types.IsFloat != 0:
			return VFloat{0}
		case u.Info()&types.IsString != 0:
			return strC("")
		case u.Kind() == types.UntypedNil:
			return VNil{t}
		}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return VStruct{t, f}
	case *types.Array:
		n := int(u.Len())
		if n > 256 {
			return unknown(t)
		}
		el := make([]Val, n)
		for i := range el {
			el[i] = zeroVal(u.Elem())
		}
		return VArr{t, el}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.At(i).Type())
		}
		return VTuple{f}
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return VNil{t}
	}
	return unknown(t)
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return minInt64, maxInt64
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		bits = 32
	}
	if b.Info()&types.IsUnsigned != 0 {
		h := new(big.Int).Lsh(big1, bits)
		return big0, h.Sub(h, big1)
	}
	h := new(big.Int).Lsh(big1, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big1)
}

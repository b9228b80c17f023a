package main

// Abstract strings: conversions, indexing, slicing, iteration.

import (
	"fmt"
	"go/types"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// maxStr is a bound for the length of a string: one that fits in memory
var maxStr = new(big.Int).Lsh(big1, 56)

var big4 = big.NewInt(4)
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]
var tBool = types.Typ[types.Bool]

// width is the length of a rune in bytes
func (s *State) width(r *Lin) *Lin {
	if c, ok := r.constInt(); ok {
		n := utf8.RuneLen(rune(c))
		if n < 0 {
			n = 3
		}
		return linC(int64(n))
	}
	if s.proveGe(r) && s.proveGe(linC(0x7f).sub(r)) {
		return linC(1)
	}
	return linA(newAtom("w("+r.key()+")", big1, big4))
}

func starLen(st *Star) *Lin { return bytesOf(SElem{kind: sStar, star: st}, big0) }

// bytesOf is the length of a part of a string
func bytesOf(x SElem, lo *big.Int) *Lin {
	return linA(termAtom(mkTerm(tInt, "bytes", mkStr(x)), lo, maxStr))
}

func (s *State) strLen(v VStr) *Lin {
	n := linC(0)
	for _, e := range v.el {
		switch e.kind {
		case sRune:
			n = n.add(s.width(e.r))
		case sStar:
			if s.starEmpty(e.star) {
				continue
			}
			n = n.add(starLen(e.star))
		default:
			lo := big0
			if e.t.op == "itoa" {
				lo = big1
			}
			n = n.add(bytesOf(e, lo))
		}
	}
	return n
}

func (s *State) starEmpty(st *Star) bool {
	for i := range st.alts {
		if !s.starClass(st, i).empty() {
			return false
		}
	}
	return true
}

// chunkStar is the star of the runes of an opaque string
func chunkStar(t *Term) *Star {
	iv := newAtom("ρid", nil, nil)
	return &Star{id: t.key, t: t, alts: []StarAlt{{cls: rsAll, v: iv, img: []SElem{{kind: sRune, r: linA(iv)}}}}}
}

// explode replaces opaque parts by stars
func (e *Eng) explode(v VStr) VStr {
	var out []SElem
	for _, x := range v.el {
		if x.kind == sChunk && x.t.op != "unit-end" {
			x = SElem{kind: sStar, star: chunkStar(x.t)}
		}
		out = append(out, x)
	}
	return mkStr(out...)
}

// canon is a form in which equal strings have the same key
func (e *Eng) canon(st *State, v VStr) VStr {
	var out []SElem
	for _, x := range e.explode(v).el {
		if x.kind == sStar {
			n := &Star{id: x.star.id, t: x.star.t}
			for i, a := range x.star.alts {
				a.cls = st.starClass(x.star, i)
				n.alts = append(n.alts, a)
			}
			n = normStar(n)
			if len(n.alts) == 0 {
				continue
			}
			x.star = n
		}
		if x.kind == sRune {
			if r, ok := st.runeSet1(x.r); ok && r.size() == 1 {
				x.r = linC(int64(r[0].lo))
			}
		}
		out = append(out, x)
	}
	return mkStr(out...)
}

// narrow is canon for strings with stars
func (e *Eng) narrow(st *State, v Val) Val {
	if s, ok := v.(VStr); ok {
		for _, x := range s.el {
			if x.kind == sStar {
				return e.canon(st, s)
			}
		}
	}
	return v
}

func (s *State) runeSet1(l *Lin) (RuneSet, bool) {
	if c, ok := l.constInt(); ok {
		return rs(rune(c), rune(c)), true
	}
	if a, ok := l.single(); ok {
		return s.runeSet(a)
	}
	return nil, false
}

// strByte is s[i]. If that is the first byte of a rune, the rune may be
// that byte.
func (e *Eng) strByte(st *State, s VStr, i Val, in ssa.Instruction) []Ret {
	iv, ok := i.(VInt)
	off := linC(0)
	for _, x := range s.el {
		if x.kind != sRune || !ok {
			break
		}
		w := st.width(x.r)
		if _, fixed := w.constInt(); !fixed && iv.l.sub(off).isZero() {
			if cls, ok := st.runeSet1(x.r); ok && !cls.inter(rs(0, 0x7f)).empty() {
				var out []Ret
				a, b := e.fork(st, cGe0(linC(0x7f).sub(x.r)))
				for _, y := range []*State{a, b} {
					if y != nil {
						out = append(out, Ret{st: y, val: e.strIndex(y, s, i, in)})
					}
				}
				return out
			}
			break
		}
		off = off.add(w)
	}
	return one(st, e.strIndex(st, s, i, in))
}

// strIndex is s[i]
func (e *Eng) strIndex(st *State, s VStr, i Val, in ssa.Instruction) Val {
	t := types.Typ[types.Uint8]
	if !e.inBounds(st, i, st.strLen(s), in) {
		return VInt{linA(e.freshAtom("byte", big0, big.NewInt(255)))}
	}
	idx := i.(VInt).l
	off := linC(0)
	for _, x := range s.el {
		if x.kind != sRune {
			break
		}
		if idx.sub(off).isZero() {
			w := st.width(x.r)
			if k, ok := w.constInt(); ok && k == 1 {
				return VInt{x.r}
			}
			if c, ok := x.r.constInt(); ok {
				return vi(int64(string(rune(c))[0]))
			}
			if rs1, ok := st.runeSet1(x.r); ok {
				// the first byte: the rune itself, or >= 0x80
				a := linA(newAtom("byte0("+x.r.key()+")", big0, big.NewInt(255)))
				if asc := rs1.inter(rs(0, 0x7f)); asc.empty() {
					st.addLin(a.addC(-0x80))
				}
				return VInt{a}
			}
			break
		}
		off = off.add(st.width(x.r))
	}
	// from the end
	off = st.strLen(s)
	for k := len(s.el) - 1; k >= 0; k-- {
		x := s.el[k]
		if x.kind != sRune {
			break
		}
		off = off.sub(st.width(x.r))
		if idx.sub(off).isZero() {
			if k, ok := st.width(x.r).constInt(); ok && k == 1 {
				return VInt{x.r}
			}
			break
		}
	}
	_ = t
	return VInt{linA(newAtom(fmt.Sprintf("byte(%s,%s)", s.K(), idx.key()), big0, big.NewInt(255)))}
}

func (e *Eng) freshAtom(name string, lo, hi *big.Int) *Atom {
	e.extN++
	return newAtom(fmt.Sprintf("%s!%d", name, e.extN), lo, hi)
}

// strSlice is s[lo:hi]
func (e *Eng) strSlice(st *State, s VStr, lo, hi *Lin, in ssa.Instruction) Val {
	n := st.strLen(s)
	if hi == nil {
		hi = n
	}
	ok := st.proveGe(lo) && st.proveGe(hi.sub(lo)) && st.proveGe(n.sub(hi))
	e.oblige("slice-in-bounds", in, ok, fmt.Sprintf("[%s:%s] of a string of length %s", lo.key(), hi.key(), n.key()))
	if !ok {
		if !st.assume(cGe0(lo)) || !st.assume(cGe0(hi.sub(lo))) || !st.assume(cGe0(n.sub(hi))) {
			st.dead = true
			return unknown(tString)
		}
	}
	// positions of the elements
	cut := func(p *Lin) int {
		off := linC(0)
		for i := 0; ; i++ {
			if st.proveEq(off, p) {
				return i
			}
			if i == len(s.el) {
				break
			}
			x := s.el[i]
			switch x.kind {
			case sRune:
				off = off.add(st.width(x.r))
			case sStar:
				if !st.starEmpty(x.star) {
					off = off.add(starLen(x.star))
				}
			default:
				off = off.add(bytesOf(x, big0))
			}
		}
		return -1
	}
	a, b := cut(lo), cut(hi)
	if a >= 0 && b >= a {
		return mkStr(append([]SElem(nil), s.el[a:b]...)...)
	}
	if st.proveEq(lo, hi) {
		return strC("")
	}
	return strChunk(mkTerm(tString, "substr", s, VInt{lo}, VInt{hi}))
}

// strToList is []rune(s) or []byte(s)
func (e *Eng) strToList(st *State, s VStr, elem types.Type, in ssa.Instruction) Val {
	bytes := elem.Underlying().(*types.Basic).Kind() == types.Uint8
	o := e.alloc(st, elem, e.pos(in))
	o.arr = &Arr{elem: elem, zero: true}
	x := e.explode(s)
	plain := true
	for _, el := range x.el {
		if el.kind != sRune {
			plain = false
		}
		if bytes {
			if el.kind != sRune {
				return unknown(types.NewSlice(elem))
			}
			if k, ok := st.width(el.r).constInt(); !ok || k != 1 {
				return unknown(types.NewSlice(elem))
			}
		}
	}
	if plain {
		for i, el := range x.el {
			o.arr.cells = append(o.arr.cells, Cell{linC(int64(i)), VInt{el.r}})
		}
		n := linC(int64(len(x.el)))
		return VSlice{o.id, linC(0), n, nil}
	}
	n := linC(0)
	for _, el := range x.el {
		switch el.kind {
		case sRune:
			o.arr.prefix = append(o.arr.prefix, LSeg{el: VInt{el.r}})
			n = n.addC(1)
		case sStar:
			o.arr.prefix = append(o.arr.prefix, LSeg{star: el.star})
			n = n.add(linA(newAtom("runes("+el.star.key()+")", big0, maxInt64)))
		}
	}
	o.arr.base = n
	return VSlice{o.id, linC(0), n, nil}
}

// listToStr is string(list)
func (e *Eng) listToStr(st *State, x Val, elem types.Type) Val {
	switch x := x.(type) {
	case VNil:
		return strC("")
	case VSlice:
		if x.len.isZero() {
			return strC("")
		}
		o := st.obj(x.obj)
		if o.arr == nil || o.arr.lost || !x.off.isConst() {
			return unknown(tString)
		}
		segs, ok := listContent(st, o.arr, x.off.add(x.len))
		if !ok {
			return unknown(tString)
		}
		off, _ := x.off.constInt()
		for i := int64(0); i < off; i++ {
			if len(segs) == 0 || segs[0].el == nil {
				return unknown(tString)
			}
			segs = segs[1:]
		}
		return segsToStr(segs)
	}
	return unknown(tString)
}

func segsToStr(segs []LSeg) Val {
	var el []SElem
	for _, s := range segs {
		switch {
		case s.star != nil:
			el = append(el, SElem{kind: sStar, star: s.star})
		case s.el != nil:
			switch v := s.el.(type) {
			case VInt:
				el = append(el, SElem{kind: sRune, r: v.l})
			case VStr:
				el = append(el, v.el...)
			default:
				return unknown(tString)
			}
		default:
			return unknown(tString)
		}
	}
	return mkStr(el...)
}

// nextInstr advances an iterator over a string or a map
func (e *Eng) nextInstr(st *State, fr *Frame, in *ssa.Next) []Ret {
	v, ok := e.get(st, fr, in.Iter).(VIter)
	if !ok {
		e.undecide("unknown iterator at %s", e.pos(in))
	}
	o := *st.obj(v.obj)
	n := *o.it
	o.it = &n
	done := VTuple{[]Val{VBool{cFalse}, vi(0), vi(0)}}
	tup := in.Type().(*types.Tuple)
	if in.IsString {
		for n.pos < len(n.str.el) && n.str.el[n.pos].kind == sStar && st.starEmpty(n.str.el[n.pos].star) {
			n.pos++
		}
		if n.pos >= len(n.str.el) {
			st.set(&o)
			return one(st, done)
		}
		x := n.str.el[n.pos]
		if x.kind != sRune {
			// the loop did not recognize the star, or goes past a unit
			e.undecide("iteration over a string of unknown length outside of a simple range loop at %s", e.pos(in))
		}
		off := n.off
		n.pos++
		n.off = n.off.add(st.width(x.r))
		st.set(&o)
		return one(st, VTuple{[]Val{VBool{cTrue}, VInt{off}, VInt{x.r}}})
	}
	mo := st.obj(n.mp).mp
	zero := VTuple{[]Val{VBool{cFalse}, zeroV(tup.At(1).Type()), zeroV(tup.At(2).Type())}}
	if mo.opaque != nil {
		// any number of entries
		k := n.started
		n.started++
		seen := o.v.(VInt).l
		left := linA(termAtom(mkTerm(tInt, "len", VTerm{mo.opaque}), big0, maxInt64)).sub(seen)
		done := o
		done.v = VInt{seen.add(left)}
		o.v = VInt{seen.addC(1)}
		st.set(&o)
		more := cTermBool(mkTerm(tBool, fmt.Sprintf("next%d.%d", v.obj, k), VTerm{mo.opaque}))
		s2 := st.clone()
		var out []Ret
		s2.set(&done)
		if s2.assume(more.not()) && s2.assume(cEq0(left)) {
			out = append(out, Ret{st: s2, val: zero})
		}
		if st.assume(more) && st.assume(cGe0(left.addC(-1))) {
			mt, _ := mo.opaque.typ.Underlying().(*types.Map)
			if mt == nil {
				e.undecide("iteration over an unknown map at %s", e.pos(in))
			}
			i := VInt{linC(int64(k))}
			kv := e.opaque(st, mkTerm(mt.Key(), "mapkey", VTerm{mo.opaque}, i), mt.Key())
			vv := e.opaque(st, mkTerm(mt.Elem(), "mapval", VTerm{mo.opaque}, kv), mt.Elem())
			out = append(out, Ret{st: st, val: VTuple{[]Val{VBool{cTrue}, kv, vv}}})
		}
		return out
	}
	if n.pos >= len(mo.keys) {
		st.set(&o)
		return one(st, zero)
	}
	k, val := mo.keys[n.pos], mo.vals[n.pos]
	n.pos++
	st.set(&o)
	return one(st, VTuple{[]Val{VBool{cTrue}, k, val}})
}

func zeroV(t types.Type) Val {
	if t == nil || t == types.Typ[types.Invalid] {
		return VUnknown{}
	}
	return zeroVal(t)
}

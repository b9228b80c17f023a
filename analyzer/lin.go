package main

// Affine integer expressions over atoms, and rune sets.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"unicode"
)

// Atom is an unknown integer. An atom is either the value of a term
// (the index of a literal, the length of an array...) or a variable
// introduced by widening a loop or a recursion.
type Atom struct {
	id     int
	key    string
	lo, hi *big.Int // nil: unbounded
	term   *Term
	last   bool // eliminated last
}

var (
	atomTab  = map[string]*Atom{}
	atomSeq  int
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
	maxInt64 = big.NewInt(0).SetUint64(1<<63 - 1)
	minInt64 = big.NewInt(0).Neg(big.NewInt(0).SetUint64(1 << 63))
)

func newAtom(key string, lo, hi *big.Int) *Atom {
	if a, ok := atomTab[key]; ok {
		return a
	}
	atomSeq++
	a := &Atom{id: atomSeq, key: key, lo: lo, hi: hi}
	atomTab[key] = a
	return a
}

func termAtom(t *Term, lo, hi *big.Int) *Atom {
	a := newAtom(t.key, lo, hi)
	a.term = t
	return a
}

type linTerm struct {
	a *Atom
	c int64
}

// Lin is c + sum of coefficient*atom
type Lin struct {
	c *big.Int
	t []linTerm
	k string
}

func linC(i int64) *Lin          { return &Lin{c: big.NewInt(i)} }
func linB(i *big.Int) *Lin       { return &Lin{c: i} }
func linA(a *Atom) *Lin          { return &Lin{c: big0, t: []linTerm{{a, 1}}} }
func (l *Lin) isConst() bool     { return len(l.t) == 0 }
func (l *Lin) isZero() bool      { return len(l.t) == 0 && l.c.Sign() == 0 }
func (l *Lin) addC(i int64) *Lin { return l.add(linC(i)) }
func (l *Lin) constInt() (int64, bool) {
	if l != nil && len(l.t) == 0 && l.c.IsInt64() {
		return l.c.Int64(), true
	}
	return 0, false
}

// constInt2 is constInt for the rune of a string element
func (l *Lin) constInt2(kind int) (int64, bool) {
	if kind != sRune || l == nil {
		return 0, false
	}
	return l.constInt()
}

// singleOf is single for the rune of a string element
func (l *Lin) singleOf(kind int) (*Atom, bool) {
	if kind != sRune || l == nil {
		return nil, false
	}
	return l.single()
}

func (l *Lin) single() (*Atom, bool) {
	if len(l.t) == 1 && l.t[0].c == 1 && l.c.Sign() == 0 {
		return l.t[0].a, true
	}
	return nil, false
}
func (l *Lin) coef(a *Atom) int64 {
	for _, x := range l.t {
		if x.a == a {
			return x.c
		}
	}
	return 0
}

func (l *Lin) key() string {
	if l.k != "" {
		return l.k
	}
	var b strings.Builder
	for _, x := range l.t {
		if x.c == 1 {
			b.WriteString("+")
		} else if x.c == -1 {
			b.WriteString("-")
		} else {
			fmt.Fprintf(&b, "%+d*", x.c)
		}
		b.WriteString(x.a.key)
	}
	if l.c.Sign() != 0 || len(l.t) == 0 {
		if l.c.Sign() >= 0 && len(l.t) > 0 {
			b.WriteByte('+')
		}
		b.WriteString(l.c.String())
	}
	l.k = b.String()
	return l.k
}

func (l *Lin) comb(k1 int64, m *Lin, k2 int64) *Lin {
	c := new(big.Int).Mul(l.c, big.NewInt(k1))
	c.Add(c, new(big.Int).Mul(m.c, big.NewInt(k2)))
	r := &Lin{c: c}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || (i < len(l.t) && l.t[i].a.id < m.t[j].a.id):
			if k1 != 0 {
				r.t = append(r.t, linTerm{l.t[i].a, l.t[i].c * k1})
			}
			i++
		case i >= len(l.t) || m.t[j].a.id < l.t[i].a.id:
			if k2 != 0 {
				r.t = append(r.t, linTerm{m.t[j].a, m.t[j].c * k2})
			}
			j++
		default:
			if v := l.t[i].c*k1 + m.t[j].c*k2; v != 0 {
				r.t = append(r.t, linTerm{l.t[i].a, v})
			}
			i++
			j++
		}
	}
	return r
}
func (l *Lin) add(m *Lin) *Lin   { return l.comb(1, m, 1) }
func (l *Lin) sub(m *Lin) *Lin   { return l.comb(1, m, -1) }
func (l *Lin) neg() *Lin         { return l.comb(-1, linC(0), 0) }
func (l *Lin) mulC(i int64) *Lin { return l.comb(i, linC(0), 0) }
func (l *Lin) equal(m *Lin) bool { return l == m || l.key() == m.key() }

// normalize an inequality l >= 0 by the gcd of its coefficients
func (l *Lin) tighten() *Lin {
	if len(l.t) == 0 {
		return l
	}
	g := int64(0)
	for _, x := range l.t {
		v := x.c
		if v < 0 {
			v = -v
		}
		for v != 0 {
			g, v = v, g%v
		}
	}
	if g <= 1 {
		return l
	}
	r := &Lin{c: new(big.Int)}
	m := new(big.Int)
	// floor division of the constant
	r.c.DivMod(l.c, big.NewInt(g), m)
	for _, x := range l.t {
		r.t = append(r.t, linTerm{x.a, x.c / g})
	}
	return r
}

// combOK is comb, or nil if a coefficient does not fit
func (l *Lin) combOK(k1 int64, m *Lin, k2 int64) *Lin {
	const small = 1 << 30
	big2 := false
	for _, t := range append(append([]linTerm(nil), l.t...), m.t...) {
		big2 = big2 || t.c > small || t.c < -small
	}
	if !big2 && k1 < small && k1 > -small && k2 < small && k2 > -small {
		return l.comb(k1, m, k2)
	}
	// with large coefficients
	mul := func(a, k int64) *big.Int { return new(big.Int).Mul(big.NewInt(a), big.NewInt(k)) }
	for _, t := range l.t {
		if !new(big.Int).Add(mul(t.c, k1), mul(m.coef(t.a), k2)).IsInt64() || !mul(t.c, k1).IsInt64() {
			return nil
		}
	}
	for _, t := range m.t {
		if !mul(t.c, k2).IsInt64() {
			return nil
		}
	}
	return l.comb(k1, m, k2)
}

// solveEq removes variables with the coefficient 1 or -1 in equations
func solveEq(cs, eqs []*Lin) []*Lin {
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		done := false
		for _, t := range e.t {
			if t.c != 1 && t.c != -1 {
				continue
			}
			if t.a.lo != nil {
				cs = append(cs, linA(t.a).sub(linB(t.a.lo)))
			}
			if t.a.hi != nil {
				cs = append(cs, linB(t.a.hi).sub(linA(t.a)))
			}
			sub := func(l []*Lin) []*Lin {
				var out []*Lin
				for _, c := range l {
					k := c.coef(t.a)
					if k == 0 {
						out = append(out, c)
						continue
					}
					// c - k/t.c * e
					if n := c.combOK(1, e, -k*t.c); n != nil {
						out = append(out, n)
					}
				}
				return out
			}
			cs, eqs = sub(cs), sub(eqs)
			done = true
			break
		}
		if !done && len(e.t) > 0 {
			if !e.tighten().sub(e.neg().tighten().neg()).isZero() {
				return []*Lin{linC(-1)} // the gcd does not divide the constant
			}
			cs = append(cs, e, e.neg())
		} else if len(e.t) == 0 && e.c.Sign() != 0 {
			return []*Lin{linC(-1)}
		}
	}
	return cs
}

// feasible tells whether the conjunction of l >= 0 may have an integer
// solution (Fourier-Motzkin elimination; true if unsure)
func feasible(cs []*Lin) bool {
	seen := map[*Atom]bool{}
	var work []*Lin
	for _, c := range cs {
		work = append(work, c)
		for _, t := range c.t {
			if !seen[t.a] {
				seen[t.a] = true
				if t.a.lo != nil {
					work = append(work, linA(t.a).sub(linB(t.a.lo)))
				}
				if t.a.hi != nil {
					work = append(work, linB(t.a.hi).sub(linA(t.a)))
				}
			}
		}
	}
	dedupe := func(in []*Lin) ([]*Lin, bool) {
		best := map[string]*Lin{}
		var order []string
		for _, c := range in {
			c = c.tighten()
			if c.isConst() {
				if c.c.Sign() < 0 {
					return nil, false
				}
				continue
			}
			var b strings.Builder
			for _, t := range c.t {
				fmt.Fprintf(&b, "%d:%d,", t.a.id, t.c)
			}
			k := b.String()
			if o, ok := best[k]; !ok {
				best[k] = c
				order = append(order, k)
			} else if c.c.Cmp(o.c) < 0 {
				best[k] = c
			}
		}
		out := make([]*Lin, 0, len(order))
		for _, k := range order {
			out = append(out, best[k])
		}
		return out, true
	}
	var ok bool
	if work, ok = dedupe(work); !ok {
		return false
	}
	for {
		// choose the atom with the fewest combinations
		type pn struct{ p, n int }
		cnt := map[*Atom]*pn{}
		for _, c := range work {
			for _, t := range c.t {
				x := cnt[t.a]
				if x == nil {
					x = &pn{}
					cnt[t.a] = x
				}
				if t.c > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		if len(cnt) == 0 {
			return true
		}
		var pick *Atom
		bestC := 1 << 30
		for a, x := range cnt {
			c := x.p*x.n - x.p - x.n
			if a.last {
				c += 1 << 20
			}
			if c < bestC || (c == bestC && a.id < pick.id) {
				pick, bestC = a, c
			}
		}
		var pos, neg, rest []*Lin
		for _, c := range work {
			switch k := c.coef(pick); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				if c := p.combOK(-n.coef(pick), n, p.coef(pick)); c != nil {
					rest = append(rest, c)
				}
			}
		}
		if len(rest) > 3000 {
			return true
		}
		if work, ok = dedupe(rest); !ok {
			return false
		}
	}
}

// ---------------------------------------------------------------- rune sets

type rng struct{ lo, hi rune }
type RuneSet []rng

func rs(pairs ...rune) RuneSet {
	var r RuneSet
	for i := 0; i < len(pairs); i += 2 {
		r = append(r, rng{pairs[i], pairs[i+1]})
	}
	return r.norm()
}
func rsOf(s string) RuneSet {
	var r RuneSet
	for _, c := range s {
		r = append(r, rng{c, c})
	}
	return r.norm()
}
func rsTable(ts ...*unicode.RangeTable) RuneSet {
	var r RuneSet
	for _, t := range ts {
		for _, x := range t.R16 {
			for c := rune(x.Lo); c <= rune(x.Hi); c += rune(x.Stride) {
				r = append(r, rng{c, c})
			}
		}
		for _, x := range t.R32 {
			if x.Stride == 1 {
				r = append(r, rng{rune(x.Lo), rune(x.Hi)})
				continue
			}
			for c := rune(x.Lo); c <= rune(x.Hi); c += rune(x.Stride) {
				r = append(r, rng{c, c})
			}
		}
	}
	return r.norm()
}

// all code points that can occur in a valid string
var rsAll = rs(0, 0xD7FF, 0xE000, 0x10FFFF)

func (r RuneSet) norm() RuneSet {
	x := append(RuneSet(nil), r...)
	sort.Slice(x, func(i, j int) bool { return x[i].lo < x[j].lo })
	var out RuneSet
	for _, e := range x {
		if e.hi < e.lo {
			continue
		}
		if n := len(out); n > 0 && e.lo <= out[n-1].hi+1 {
			if e.hi > out[n-1].hi {
				out[n-1].hi = e.hi
			}
			continue
		}
		out = append(out, e)
	}
	return out
}
func (r RuneSet) union(o RuneSet) RuneSet { return append(append(RuneSet(nil), r...), o...).norm() }
func (r RuneSet) inter(o RuneSet) RuneSet {
	var out RuneSet
	i, j := 0, 0
	for i < len(r) && j < len(o) {
		lo, hi := max(r[i].lo, o[j].lo), min(r[i].hi, o[j].hi)
		if lo <= hi {
			out = append(out, rng{lo, hi})
		}
		if r[i].hi < o[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}
func (r RuneSet) minus(o RuneSet) RuneSet {
	// complement of o within [-2^31, 2^31)
	var c RuneSet
	lo := rune(-1 << 31)
	for _, e := range o {
		if e.lo > lo {
			c = append(c, rng{lo, e.lo - 1})
		}
		lo = e.hi + 1
	}
	c = append(c, rng{lo, 1<<31 - 1})
	return r.inter(c)
}
func (r RuneSet) empty() bool { return len(r) == 0 }
func (r RuneSet) has(c rune) bool {
	i := sort.Search(len(r), func(i int) bool { return r[i].hi >= c })
	return i < len(r) && r[i].lo <= c
}
func (r RuneSet) size() int {
	n := 0
	for _, e := range r {
		n += int(e.hi-e.lo) + 1
	}
	return n
}
func (r RuneSet) equal(o RuneSet) bool {
	if len(r) != len(o) {
		return false
	}
	for i := range r {
		if r[i] != o[i] {
			return false
		}
	}
	return true
}
func (r RuneSet) String() string {
	var b strings.Builder
	b.WriteByte('[')
	for i, e := range r {
		if i > 8 {
			fmt.Fprintf(&b, "..#%d", len(r))
			h := uint32(0)
			for _, x := range r {
				h = h*31 + uint32(x.lo)*7 + uint32(x.hi)
			}
			fmt.Fprintf(&b, "/%x", h)
			break
		}
		if e.lo == e.hi {
			fmt.Fprintf(&b, "%x ", e.lo)
		} else {
			fmt.Fprintf(&b, "%x-%x ", e.lo, e.hi)
		}
	}
	b.WriteByte(']')
	return b.String()
}

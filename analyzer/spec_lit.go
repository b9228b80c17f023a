package main

// String and numeric literals: their text, and what they denote.

import (
	"fmt"
	"strings"
)

// unit is a piece of a string literal
type unit struct {
	name      string
	cls       RuneSet // what v may be
	text, val func(v SElem) []SElem
}

func runes(s string) []SElem { return strC(s).el }

func litUnits(q rune) []unit {
	self := func(v SElem) []SElem { return []SElem{v} }
	esc := func(v SElem) []SElem { return append(runes("\\"), v) }
	none := func(v SElem) []SElem { return nil }
	us := []unit{
		{"a character", rsAll.minus(rs(q, q)).minus(rsOf("\\\r\n")), self, self},
		{"a backslash and another character", rsAll.minus(rsOf("'\"\\bfnrtv0123456789xu\r\n\u2028\u2029")), esc, self},
		{"a quote or backslash after a backslash", rsOf("'\"\\"), esc, self},
		{"a line break after a backslash", rsOf("\r\n\u2028\u2029"), esc, none},
	}
	konst := func(text, val string) {
		us = append(us, unit{text, rs('.', '.'), func(SElem) []SElem { return runes(text) }, func(SElem) []SElem { return runes(val) }})
	}
	for _, x := range [][2]string{{"b", "\b"}, {"f", "\f"}, {"n", "\n"}, {"r", "\r"}, {"t", "\t"}, {"v", "\v"}, {"0", "\x00"},
		{"\r\n", ""}, {"\n\n", ""}, {"\n\r\n", ""},
		{"x41", "A"}, {"xe9", "é"}, {"xFf", "ÿ"}, {"x00", "\x00"}, {"x0A", "\n"}, {"x5c", "\\"}, {"x22", "\""},
		{"u0041", "A"}, {"u20AC", "€"}, {"u20ac", "€"}, {"ufffd", "\ufffd"}, {"u0027", "'"}, {"uD7FF", "\ud7ff"}, {"uE000", "\ue000"},
		{"u{41}", "A"}, {"u{1F600}", "😀"}, {"u{1f600}", "😀"}, {"u{10FFFF}", "\U0010ffff"}, {"u{000041}", "A"}, {"u{0}", "\x00"}, {"u{7}", "\a"}} {
		konst("\\"+x[0], x[1])
	}
	return us
}

// single splits the units of a few characters
func single(us []unit) []unit {
	var out []unit
	for _, u := range us {
		if n := u.cls.size(); n == 1 || n > 10 {
			out = append(out, u)
			continue
		}
		for _, r := range u.cls {
			for c := r.lo; c <= r.hi; c++ {
				x := u
				x.name += fmt.Sprintf(" (%q)", c)
				x.cls = rs(c, c)
				out = append(out, x)
			}
		}
	}
	return out
}

// oneOf is a rune of a class
func (s *S) oneOf(st *State, name string, cls RuneSet) SElem {
	if cls.size() == 1 {
		return SElem{kind: sRune, r: linC(int64(cls[0].lo))}
	}
	return s.runeVar(st, name, cls)
}

// litStar is any sequence of the units: the text, and its value
func litStar(name string, us []unit) (text, val SElem) {
	a, b := &Star{id: name}, &Star{id: name}
	for i, u := range us {
		v := newAtom("ρid", nil, nil)
		r := SElem{kind: sRune, r: linA(v)}
		a.alts = append(a.alts, StarAlt{tag: i, cls: u.cls, v: v, img: u.text(r)})
		b.alts = append(b.alts, StarAlt{tag: i, cls: u.cls, v: v, img: u.val(r)})
	}
	return SElem{kind: sStar, star: normStar(a)}, SElem{kind: sStar, star: normStar(b)}
}

// words is a literal: its tree, the text, and its value
type word struct {
	name string
	mk   func(s *S, st *State) (*State, *Node, VStr)
}

func strWords() []word {
	var out []word
	for _, q := range "'\"" {
		us := litUnits(q)
		Q := SElem{kind: sRune, r: linC(int64(q))}
		add := func(name string, mk func(s *S, st *State) (text, val []SElem)) {
			out = append(out, word{string(q) + name + string(q), func(s *S, st *State) (*State, *Node, VStr) {
				text, val := mk(s, st)
				text = append([]SElem{Q}, append(text, Q)...)
				return st, strLit(mkStr(text...)), mkStr(val...)
			}})
		}
		star := func(name string, us []unit) ([]SElem, []SElem) {
			a, b := litStar(name, us)
			return []SElem{a}, []SElem{b}
		}
		add("", func(s *S, st *State) (text, val []SElem) { return nil, nil })
		add("any characters and escape sequences", func(s *S, st *State) (text, val []SElem) { return star("lit", us) })
		for _, u := range single(us) {
			add("any characters, "+u.name+", and any characters", func(s *S, st *State) (text, val []SElem) {
				v := s.oneOf(st, "c", u.cls)
				t1, v1 := star("before", us[:1])
				t2, v2 := star("after", us[:1])
				return append(append(t1, u.text(v)...), t2...), append(append(v1, u.val(v)...), v2...)
			})
		}
		// digits of any value
		type digit struct{ lo, hi, base rune }
		dec, up, low := digit{'0', '9', '0'}, digit{'A', 'F', 'A' - 10}, digit{'a', 'f', 'a' - 10}
		hex := func(prefix, suffix string, ds ...digit) {
			n := prefix
			for _, d := range ds {
				n += string(d.hi)
			}
			add("any characters, "+n+suffix+" with any digits, and any characters", func(s *S, st *State) (text, val []SElem) {
				t1, v1 := star("before", us[:1])
				t2, v2 := star("after", us[:1])
				t := append(t1, runes(prefix)...)
				n := linC(0)
				for i, d := range ds {
					x := s.oneOf(st, fmt.Sprintf("digit%d", i), rs(d.lo, d.hi))
					t = append(t, x)
					n = n.mulC(16).add(x.r.addC(-int64(d.base)))
				}
				t = append(append(t, runes(suffix)...), t2...)
				return t, append(append(v1, SElem{kind: sRune, r: n}), v2...)
			})
		}
		all := []digit{dec, up, low}
		for _, a := range all {
			for _, b := range all {
				hex("\\x", "", a, b)
				hex("\\u{", "}", a, b)
			}
			hex("\\u{", "}", a)
		}
		for _, a := range []digit{dec, {'a', 'c', 'a' - 10}, {'E', 'F', 'A' - 10}} {
			for _, b := range []digit{dec, up} {
				hex("\\u", "", a, b, low, dec)
				hex("\\u", "", a, b, dec, up)
			}
			hex("\\u{", "}", a, low, dec, up)
			hex("\\u{", "}", dec, a, dec, up, low)
		}
		hex("\\u", "", digit{'d', 'd', 'a' - 10}, digit{'0', '7', '0'}, low, dec)
	}
	return out
}

func c16(c *Check) {
	for _, w := range strWords() {
		key := func(name string, mk func(n *Node) *Node) {
			c.run(name+" for "+w.name, func(s *S) {
				st, n, v := w.mk(s, s.base.clone())
				for _, o := range s.parse(st, mk(n)) {
					s.selects(o, []Step{stepKey(v)})
				}
			})
		}
		key("$.x", func(n *Node) *Node { return pathTree(chain(selr("$"), n)) })
		key("$[x]", func(n *Node) *Node { return pathTree(index(selr("$"), n)) })
		key("/x", func(n *Node) *Node { return simpleTree(nt("SimplePathExpr", n.kids[0])) })
		c.run("$[?(@.a==x)] for "+w.name, func(s *S) {
			st, n, v := w.mk(s, s.base.clone())
			x := exBin(pathEx("@", "a"), "==", constEx("x", n, XV{k: "str", v: v}))
			for _, o := range s.parse(st, pathTree(index(selr("$"), filter(x.tree)))) {
				s.selects(o, []Step{stepFilter(x)})
			}
		})
	}
}

// number is a numeric literal: its tree, and its value
type number struct {
	name string
	mk   func(s *S, st *State) (*State, *Node, XV)
}

// parsedAs returns the states in which a text without underscores is a
// number of 64 bits
func (s *S) parsedAs(st *State, t VStr, base int) (*State, XV) {
	rs := s.parseInt(st.clone(), t, base, 64, false, tInt)
	k := "int"
	if base == 0 {
		rs, k = s.parseFloat(st.clone(), t, 64, tFloat), "float"
	}
	for _, r := range rs {
		tu := r.val.(VTuple)
		if _, ok := tu.f[1].(VNil); ok {
			return r.st, XV{k: k, v: tu.f[0]}
		}
	}
	s.undecide("no value for %s", t.K())
	return nil, XV{}
}

func numbers() []number {
	var out []number
	digit, dot, sign := rs('0', '9'), runes("."), rsOf("+-")
	none := func(v SElem) []SElem { return nil }
	self := func(v SElem) []SElem { return []SElem{v} }
	star := func(id string, cls RuneSet) (text, val []SElem) {
		a, b := litStar(id, []unit{{"", cls, self, self}, {"", rsOf("_"), self, none}})
		return []SElem{a}, []SElem{b}
	}
	add := func(kind, name string, mk func(s *S, st *State) (*State, VStr, XV)) {
		out = append(out, number{name, func(s *S, st *State) (*State, *Node, XV) {
			st, text, v := mk(s, st)
			return st, numLit(kind, text), v
		}})
	}
	konst := func(kind, text string, v int64) {
		add(kind, text, func(s *S, st *State) (*State, VStr, XV) { return st, strC(text), XV{k: "int", v: vi(v)} })
	}
	// integers of any number of digits
	anyInt := func(kind, prefix string, cls RuneSet, base int) {
		add(kind, prefix+" and any digits and underscores", func(s *S, st *State) (*State, VStr, XV) {
			d := s.runeVar(st, "d", cls)
			t, v := star("n", cls)
			text := mkStr(append(append(runes(prefix), d), t...)...)
			st, x := s.parsedAs(st, mkStr(append([]SElem{d}, v...)...), base)
			return st, text, x
		})
	}
	// of a few digits: a class of digits, or an underscore
	few := func(kind, prefix string, base int64, ds ...RuneSet) {
		name := prefix
		for _, d := range ds {
			name += "[" + d.String() + "]"
		}
		add(kind, name, func(s *S, st *State) (*State, VStr, XV) {
			text := runes(prefix)
			n := linC(0)
			for i, d := range ds {
				x := s.oneOf(st, fmt.Sprintf("d%d", i), d)
				text = append(text, x)
				off := rune('0')
				switch c := d[0].lo; {
				case c == '_':
					continue
				case c >= 'a':
					off = 'a' - 10
				case c >= 'A':
					off = 'A' - 10
				}
				n = n.mulC(base).add(x.r.addC(-int64(off)))
			}
			return st, mkStr(text...), XV{k: "int", v: VInt{n}}
		})
	}
	low, up, us, oct, bin := rs('a', 'f'), rs('A', 'F'), rsOf("_"), rs('0', '7'), rs('0', '1')
	anyInt("DecimalLiteral", "", digit, 10)
	for _, ds := range [][]RuneSet{{digit}, {digit, digit}, {digit, digit, digit, digit}, {digit, us}, {digit, us, digit, digit, digit}, {digit, us, us, digit}, {rsOf("0"), digit, digit}, {rsOf("0"), rsOf("0"), digit, us}, {digit, us, digit, digit, digit, us, digit, digit, digit}} {
		few("DecimalLiteral", "", 10, ds...)
	}
	for _, x := range []struct {
		t string
		v int64
	}{{"0", 0}, {"00", 0}, {"0_0", 0}, {"007", 7}, {"010", 10}, {"08", 8}, {"2147483648", 1 << 31}, {"4294967296", 1 << 32}, {"9223372036854775807", 1<<63 - 1}, {"9_223_372_036_854_775_807", 1<<63 - 1}, {"1_000_000", 1000000}} {
		konst("DecimalLiteral", x.t, x.v)
	}
	for _, x := range []string{"0x", "0X"} {
		const k = "HexIntegerLiteral"
		anyInt(k, x, digit.union(low).union(up), 16)
		for _, ds := range [][]RuneSet{{digit}, {low}, {up}, {digit, low, up}, {up, us, digit, low}, {low, digit, us, us, up, us}, {rsOf("0"), rsOf("0"), up}} {
			few(k, x, 16, ds...)
		}
		konst(k, x+"7fffffffffffffff", 1<<63-1)
		konst(k, x+"7FFF_FFFF_FFFF_FFFF", 1<<63-1)
		konst(k, x+"1_0000_0000", 1<<32)
		konst(k, x+"e1", 0xe1)
		konst(k, x+"0", 0)
	}
	for _, x := range []string{"0o", "0O"} {
		const k = "OctalIntegerLiteral2"
		anyInt(k, x, oct, 8)
		for _, ds := range [][]RuneSet{{oct}, {oct, oct}, {oct, us, oct, oct}, {rsOf("0"), oct, us}} {
			few(k, x, 8, ds...)
		}
		konst(k, x+"777777777777777777777", 1<<63-1)
		konst(k, x+"400_0000_0000", 1<<32)
		konst(k, x+"0", 0)
	}
	for _, x := range []string{"0b", "0B"} {
		const k = "BinaryIntegerLiteral"
		anyInt(k, x, bin, 2)
		for _, ds := range [][]RuneSet{{bin}, {bin, bin, bin}, {bin, us, bin, bin}, {rsOf("0"), bin, us}} {
			few(k, x, 2, ds...)
		}
		konst(k, x+strings.Repeat("1", 63), 1<<63-1)
		konst(k, x+"1"+strings.Repeat("0", 32), 1<<32)
		konst(k, x+"0", 0)
	}
	// fractions and exponents
	for _, e := range []string{"", "e", "E"} {
		for _, sg := range []bool{false, true} {
			for _, frac := range []bool{true, false} {
				if e == "" && (sg || !frac) {
					continue
				}
				name := "any digits"
				if frac {
					name += ", a fraction"
				}
				if e != "" {
					name += ", " + e
				}
				if sg {
					name += ", a sign"
				}
				add("DecimalLiteral", name, func(s *S, st *State) (*State, VStr, XV) {
					var text, val []SElem
					both := func(x ...SElem) { text, val = append(text, x...), append(val, x...) }
					digits := func(id string) {
						both(s.runeVar(st, id, digit))
						t, v := star(id+"s", digit)
						text, val = append(text, t...), append(val, v...)
					}
					digits("int")
					if frac {
						both(dot...)
						digits("frac")
					}
					if e != "" {
						both(runes(e)...)
						if sg {
							both(s.runeVar(st, "sign", sign))
						}
						digits("exp")
					}
					st, x := s.parsedAs(st, mkStr(val...), 0)
					return st, mkStr(text...), x
				})
			}
		}
	}
	for _, x := range []struct {
		t string
		v float64
	}{{"0.5", .5}, {"1.0", 1}, {"1e2", 100}, {"1E2", 100}, {"1e+2", 100}, {"25e-1", 2.5}, {"1_0.2_5", 10.25}, {"1_0e1_0", 1e11}, {"0.1", .1}, {"00.5", .5}, {"1e308", 1e308}, {"1.7976931348623157e308", 1.7976931348623157e308}, {"5e-324", 5e-324}, {"9007199254740993.0", 9007199254740992}} {
		add("DecimalLiteral", x.t, func(s *S, st *State) (*State, VStr, XV) { return st, strC(x.t), XV{k: "float", v: VFloat{x.v}} })
	}
	return out
}

// onlyElements is a step that is not claimed for objects
func onlyElements(x Step) Step {
	sel := x.sel
	x.sel = func(q *Q, c *Child) int {
		if c.obj {
			return dontCare
		}
		return sel(q, c)
	}
	return x
}

func c17(c *Check) {
	at := func() Ex { return pathEx("@", "a") }
	for _, w := range numbers() {
		// a place, and what is selected there by the value
		place := func(name string, intOnly bool, mk func(st *State, n *Node, v XV) (*Node, Step)) {
			c.run(name+", n is "+w.name, func(s *S) {
				st, n, v := w.mk(s, s.base.clone())
				if intOnly && v.k != "int" {
					return
				}
				tree, step := mk(st, n, v)
				for _, o := range s.parse(st, tree) {
					s.selects(o, []Step{step})
				}
			})
		}
		lin := func(v XV) *Lin { return v.v.(VInt).l }
		text := func(n *Node) VStr { return strC("a") }
		place("$[n]", true, func(st *State, n *Node, v XV) (*Node, Step) {
			return pathTree(index(selr("$"), n)), onlyElements(stepIndex(lin(v), text(n)))
		})
		place("$[-n]", true, func(st *State, n *Node, v XV) (*Node, Step) {
			return pathTree(index(selr("$"), minus(n))), onlyElements(stepIndex(lin(v).neg(), text(n)))
		})
		place("$[n:]", true, func(st *State, n *Node, v XV) (*Node, Step) {
			return pathTree(index(selr("$"), slice(n, nil))), onlyElements(stepSlice(lin(v), nil, 1))
		})
		place("$[:n]", true, func(st *State, n *Node, v XV) (*Node, Step) {
			return pathTree(index(selr("$"), slice(nil, n))), onlyElements(stepSlice(nil, lin(v), 1))
		})
		place("/n", true, func(st *State, n *Node, v XV) (*Node, Step) {
			return simpleTree(simpleLit(n)), onlyElements(stepIndex(lin(v), text(n)))
		})
		for _, f := range []struct {
			name string
			mk   func(x Ex) Ex
		}{
			{"@.a==n", func(x Ex) Ex { return exBin(at(), "==", x) }},
			{"n==@.a", func(x Ex) Ex { return exBin(x, "==", at()) }},
			{"@.a<n", func(x Ex) Ex { return exBin(at(), "<", x) }},
			{"@.a==-n", func(x Ex) Ex { return exBin(at(), "==", exNeg(x)) }},
			{"@.a in [n]", func(x Ex) Ex { return exBin(at(), "in", exArr(x)) }},
		} {
			place("$[?("+f.name+")]", false, func(st *State, n *Node, v XV) (*Node, Step) {
				x := f.mk(constEx("n", n, v))
				return pathTree(index(selr("$"), filter(x.tree))), stepFilter(x)
			})
		}
	}
}

func init() {
	checks["C17"] = &Spec{run: c17, rule: "Numeric literals of any number of digits and underscores, of every base, with fractions and exponents, are compiled as indexes, bounds and operands, and the paths evaluated abstractly; what is selected has to be what the number they spell selects.", min: map[string]int{"scenarios": 950, "outcomes": 3000, "captures": 3500, "cases": 16000}}
	checks["C16"] = &Spec{run: c16, rule: strings.TrimSpace("String literals are built from units of which the grammar says what they are; a literal of any number of any units, and literals with hexadecimal escapes of any digits, are compiled as keys and operands, and the paths evaluated abstractly; they have to select the key, or the values, that the units spell."), min: map[string]int{"scenarios": 600, "outcomes": 3000, "captures": 1200, "cases": 7000}}
}

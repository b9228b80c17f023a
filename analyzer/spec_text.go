package main

// Keys written as text: MakeKeyString and Join, and what Parse makes of
// their results.

import (
	"fmt"
	"strings"
)

// lexState reads a literal or a name, rune by rune
type lexState struct {
	st    *State
	quote rune
}

// hexDigits are the digits of an escape
var hexDigits = rs('0', '9', 'a', 'f', 'A', 'F')

// chars reads the characters of a string literal. It returns what is
// left after the closing quote, or an error.
func (x *lexState) chars(el []SElem, closed bool) ([]SElem, string) {
	class := func(i int) RuneSet {
		if i >= len(el) || el[i].kind != sRune {
			return nil
		}
		c, _ := x.st.runeSet1(el[i].r)
		return c
	}
	one := func(c RuneSet) rune {
		if c.size() == 1 {
			return c[0].lo
		}
		return -1
	}
	hex := func(i, n int) bool {
		for j := i; j < i+n; j++ {
			c := class(j)
			if c.empty() || !c.minus(hexDigits).empty() {
				return false
			}
		}
		return true
	}
	for i := 0; i < len(el); i++ {
		switch el[i].kind {
		case sChunk:
			return nil, "it has a part that is not known: " + mkStr(el[i]).K()
		case sStar:
			for j, a := range el[i].star.alts {
				cls := x.st.starClass(el[i].star, j)
				if cls.empty() {
					continue
				}
				sub := x.st.clone()
				if a.v != nil {
					sub.runes[a.v] = cls
				}
				y := &lexState{sub, x.quote}
				if _, why := y.chars(a.img, false); why != "" {
					return nil, why
				}
			}
			continue
		}
		c := class(i)
		switch {
		case c.empty():
			return nil, "it has a character that is not known"
		case one(c) == x.quote && closed:
			return el[i+1:], ""
		case one(c) == '\\':
			i++
			d := class(i)
			switch {
			case d.empty():
				return nil, "a backslash is not part of an escape sequence"
			case one(d) == 'x' && hex(i+1, 2):
				i += 2
			case one(d) == 'u' && hex(i+1, 4):
				i += 4
			case one(d) == 'u' && one(class(i+1)) == '{' && hex(i+2, 1):
				i += 2
				for hex(i, 1) {
					i++
				}
				if one(class(i)) != '}' {
					return nil, "an escape sequence has no end"
				}
			case one(d) == '0':
			case !d.inter(rs('0', '9', 'u', 'u', 'x', 'x', '\n', '\n', '\r', '\r')).empty():
				return nil, "a backslash is not part of an escape sequence"
			}
		case !c.inter(rs(x.quote, x.quote)).empty():
			return nil, fmt.Sprintf("a %c is not escaped", x.quote)
		case !c.inter(rsOf("\\")).empty():
			return nil, "a backslash is not escaped"
		case !c.inter(rsOf("\r\n")).empty():
			return nil, "a line break is not escaped"
		}
	}
	if closed {
		return nil, "it has no closing quote"
	}
	return nil, ""
}

var nameStart = rs('A', 'Z', 'a', 'z', '_', '_')
var namePart = rs('A', 'Z', 'a', 'z', '_', '_', '0', '9', '-', '-', '$', '$')

// name tells if the text is an identifier for the lexer
func (x *lexState) name(el []SElem) string {
	if len(el) == 0 {
		return "it is empty"
	}
	for i, y := range el {
		if y.kind == sStar && i > 0 {
			for j, a := range y.star.alts {
				if cls := x.st.starClass(y.star, j); !cls.empty() {
					sub := x.st.clone()
					if a.v != nil {
						sub.runes[a.v] = cls
					}
					if why := (&lexState{sub, 0}).name(append([]SElem{{kind: sRune, r: linC('a')}}, a.img...)); why != "" {
						return why
					}
				}
			}
			continue
		}
		ok := namePart
		if i == 0 {
			ok = nameStart
		}
		if y.kind != sRune {
			return "it is not quoted, and may not be an identifier"
		}
		if c, _ := x.st.runeSet1(y.r); c.empty() || !c.minus(ok).empty() {
			return "it is not quoted, and has characters that an identifier does not have"
		}
	}
	return ""
}

// component reads a quoted or plain component from the start of a text:
// its tree, and what is left. A component may have the form of a key of
// the caller, about which more is known.
func component(st *State, el []SElem, keys, raw []VStr) (n *Node, rest []SElem, why string) {
	if len(el) > 0 && el[0].kind == sRune {
		if q, ok := el[0].r.constInt(); ok && (q == '"' || q == '\'') {
			rest, why := (&lexState{st, rune(q)}).chars(el[1:], true)
			if why != "" {
				return nil, nil, why
			}
			return strLit(mkStr(el[:len(el)-len(rest)]...)), rest, ""
		}
	}
	n1 := len(el)
	for i, y := range el {
		if y.kind == sRune {
			if c, ok := y.r.constInt(); ok && c == '/' {
				n1 = i
				break
			}
		}
	}
	el, rest = el[:n1], el[n1:]
	if why := (&lexState{st, 0}).name(el); why != "" {
		return nil, nil, why
	}
	v := mkStr(el...)
	forms := []VStr{v}
	for i, k := range keys {
		if k.K() == v.K() {
			forms = append(forms, raw[i])
		}
	}
	for _, w := range []string{"null", "true", "false", "in"} {
		free := false
		for _, f := range forms {
			free = free || st.decide(cRel(f, strC(w), 2)) == -1
		}
		if !free {
			return nil, nil, "it is not quoted, and may be the word " + w
		}
	}
	return ident(v), rest, ""
}

// classes are the classes of the runes of a text
func classes(st *State, v VStr) string {
	var b strings.Builder
	for _, x := range v.el {
		if x.kind == sRune {
			c, _ := st.runeSet1(x.r)
			fmt.Fprintf(&b, "%v", c)
		}
	}
	return b.String()
}

// general is a state in which all that is known is what the runes of
// the texts are
func (s *S) general(st *State, vs ...VStr) *State {
	out := s.base.clone()
	for _, v := range vs {
		for _, x := range v.el {
			if x.kind == sRune {
				if a, ok := x.r.single(); ok {
					if c, ok := st.runes[a]; ok {
						out.runes[a] = c
					}
				}
			}
		}
	}
	return out
}

// quoted checks the results of a function for the keys: parts reads the
// components of a result, and tree makes the trees of them
func (s *S) quoted(fn string, outs []Outcome, keys []VStr, simple bool) {
	seen := map[string]bool{}
	for _, o := range outs {
		s.c.outcomes++
		if o.pan {
			s.violate("panic", s.failedAt(o.st), fn, "%s panics: %s", fn, s.why())
			continue
		}
		if o.st.imp != "" {
			s.violate("undecided", "", fn, "%s: %s", fn, o.st.imp)
			continue
		}
		v, ok := o.v.(VStr)
		if !ok {
			s.violate("undecided", "", fn, "the result of %s is not known: %s", fn, showVal(o.st, o.v))
			continue
		}
		res := s.canon(o.st, v)
		sig := res.K() + classes(o.st, res)
		var ks []VStr
		for _, k := range keys {
			k = s.canon(o.st, k)
			ks = append(ks, k)
			sig += k.K() + classes(o.st, k)
		}
		// the text
		var nodes []*Node
		el, bad := res.el, ""
		if simple {
			if len(keys) == 0 {
				if c, ok := res.constant(); !ok || c != "/" {
					bad = "it is not /"
				}
				el = nil
			}
			for bad == "" && len(el) > 0 {
				if c, ok := el[0].r.constInt(); el[0].kind != sRune || !ok || c != '/' {
					bad = "a component does not start with /"
					break
				}
				var n *Node
				n, el, bad = component(o.st, el[1:], ks, keys)
				nodes = append(nodes, n)
			}
		} else {
			var n *Node
			n, el, bad = component(o.st, el, ks, keys)
			if bad == "" && len(el) > 0 {
				bad = "it is more than a literal"
			}
			nodes = append(nodes, n)
		}
		if bad == "" && len(nodes) != len(keys) {
			bad = fmt.Sprintf("it has %d components", len(nodes))
		}
		if bad != "" {
			s.violate("not-a-key", "", fn, "%s gives %s for %s: %s", fn, res.K(), showKeys(ks), bad)
			continue
		}
		if seen[sig] {
			continue
		}
		seen[sig] = true
		s.c.cases++
		// what it denotes
		var steps []Step
		for _, k := range ks {
			steps = append(steps, stepKey(k))
		}
		st := s.general(o.st, append(ks, res)...)
		if simple {
			var xs []*Node
			for _, n := range nodes {
				xs = append(xs, nt("SimplePathExpr", n.kids[0]))
			}
			for _, p := range s.parse(st, simpleTree(xs...)) {
				s.selects(p, steps)
			}
			continue
		}
		for _, p := range s.parse(st.clone(), pathTree(chain(selr("$"), nodes[0]))) {
			s.selects(p, steps)
		}
		for _, p := range s.parse(st, simpleTree(nt("SimplePathExpr", nodes[0].kids[0]))) {
			s.selects(p, steps)
		}
	}
}

func showKeys(ks []VStr) string {
	var out []string
	for _, k := range ks {
		out = append(out, k.K())
	}
	return strings.Join(out, ", ")
}

type keyKind struct {
	name string
	mk   func(s *S, st *State, i int) VStr
}

func c18(c *Check) {
	konst := func(t string) keyKind {
		return keyKind{fmt.Sprintf("%q", t), func(*S, *State, int) VStr { return strC(t) }}
	}
	sym := func(name string, first, rest RuneSet) keyKind {
		return keyKind{name, func(s *S, st *State, i int) VStr {
			id := fmt.Sprintf("key%d", i)
			return mkStr(s.runeVar(st, id, first), s.symChars(id, rest))
		}}
	}
	sp := rsOf("\"'\\\r\n/")
	symbols := rsAll.minus(rs('A', 'Z', 'a', 'z', '_', '_', '0', '9')).minus(sp)
	name := sym("a name", nameStart, namePart.minus(rsOf("-$")))
	plain := sym("a key with spaces and the like", symbols, symbols)
	special := sym("a key of quotes, backslashes, slashes and line breaks", sp, sp)
	all := sym("any key", rsAll, rsAll)
	words := []string{"", "null", "true", "false", "in", "nul", "a", "0", "12", "-1", "a b", "a\"b", "a'b", "a\"b'c", "\\", "\"", "'", "\"'", "\\\"", "/", "a/b", "*", "..", "é", "\u2028", "\x00", "\t", "\u0300", "日本", "𝒳", "\U0010ffff", "\\n", "\\u0041", "\r\n", " ", "$", "@", "_", "$a"}
	one := func(k keyKind) {
		c.run("MakeKeyString("+k.name+")", func(s *S) {
			st := s.base.clone()
			v := k.mk(s, st, 0)
			s.quoted("MakeKeyString", s.callTop(st, s.P.fn("MakeKeyString"), v), []VStr{v}, false)
		})
	}
	join := func(ks ...keyKind) {
		var names []string
		for _, k := range ks {
			names = append(names, k.name)
		}
		c.run("Join("+strings.Join(names, ", ")+")", func(s *S) {
			st := s.base.clone()
			var vs []VStr
			var list []Val
			for i, k := range ks {
				vs = append(vs, k.mk(s, st, i))
				list = append(list, vs[i])
			}
			var arg Val = VNil{}
			if len(list) > 0 {
				arg = s.newSlice(st, tString, list, "arguments")
			}
			s.quoted("Join", s.callTop(st, s.P.fn("Join"), arg), vs, true)
		})
	}
	one(all)
	for _, k := range []keyKind{name, plain, special} {
		one(k)
	}
	for _, w := range words {
		one(konst(w))
	}
	join()
	join(all)
	few := []keyKind{name, plain, special, konst(""), konst("null"), konst("/"), konst("0")}
	for _, a := range few {
		join(a)
		for _, b := range few {
			join(a, b)
		}
	}
	join(plain, name, special)
	join(special, plain, name)
	join(name, special, plain)
	join(konst("a"), name, konst("b"))
	join(konst(""), konst(""), konst(""))
}

func init() {
	checks["C18"] = &Spec{run: c18, rule: "MakeKeyString and Join are analysed for arbitrary keys; every possible result has to be, rune by rune, one literal or identifier of the grammar per key; the path of these tokens is compiled and evaluated abstractly, and has to select what the keys denote.", min: map[string]int{"scenarios": 90, "outcomes": 1000, "captures": 100, "cases": 500}}
}

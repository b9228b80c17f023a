package main

// The document model for maps and slices.

import (
	"go/types"
	"strings"
)

var mapDocType = types.NewMap(tString, anyType)
var sliceDocType = types.NewSlice(anyType)

// nodeCase is a kind of node of a map document
type nodeCase struct {
	name string
	dyn  types.Type // nil for a value
	null bool
}

var nodeCases = []nodeCase{{"an object", mapDocType, false}, {"an array", sliceDocType, false}, {"a value", nil, false}, {"null", nil, true},
	{"a nil map", mapDocType, true}, {"a nil slice", sliceDocType, true}}

// mapModel calls a method of MapModel with every kind of node
func (c *Check) mapModel(name string, f func(s *S, k nodeCase, in Val, args []Val, r Outcome)) {
	for _, k := range nodeCases {
		if name == "Elem" && k.null && k.dyn == sliceDocType {
			continue // it has no elements
		}
		c.run("MapModel."+name+" of "+k.name, func(s *S) {
			fn := s.P.method("MapModel", name)
			st := s.base.clone()
			var in Val = VTerm{mkTerm(anyType, "node")}
			if k.null && k.dyn != nil {
				in = VIface{k.dyn, VNil{k.dyn}}
			} else if k.null {
				in = VNil{anyType}
			} else {
				st.assume(cDyn(in, nil).not())
				for _, t := range []types.Type{mapDocType, sliceDocType} {
					if k.dyn == nil {
						st.assume(cDyn(in, t).not())
					} else if types.Identical(t, k.dyn) {
						st.assume(cDyn(in, t))
					}
				}
			}
			recv := VStruct{s.P.typ("MapModel"), []Val{VTerm{mkTerm(anyType, "Doc")}}}
			args := []Val{recv}
			sig := fn.Signature.Params()
			for i := 0; i < sig.Len(); i++ {
				switch {
				case isIface(sig.At(i).Type()):
					args = append(args, in)
				case isString(sig.At(i).Type()):
					args = append(args, strChunk(mkTerm(tString, "key")))
				default:
					a := newAtom("i", minInt64, maxInt64)
					if k.dyn == sliceDocType && !k.null { // an element that exists
						st.addLin(linA(a))
						st.addLin(s.sliceOf(st, in).len.sub(linA(a)).addC(-1))
					}
					args = append(args, VInt{linA(a)})
				}
			}
			for _, r := range s.callTop(st, fn, args...) {
				s.c.cases++
				switch {
				case r.pan:
					s.violate("panic", s.failedAt(r.st), fn.String(), "MapModel.%s panics for %s: %s", name, k.name, s.why())
				case r.st.imp != "":
					s.violate("undecided", "", fn.String(), "MapModel.%s: %s", name, r.st.imp)
				default:
					f(s, k, in, args[1:], r)
				}
			}
		})
	}
}

// sliceOf and mapOf are the value of a node
func (e *Eng) sliceOf(st *State, in Val) VSlice { return e.as(st, in.(VTerm), sliceDocType).(VSlice) }
func (e *Eng) mapOf(st *State, in Val) VTerm    { return e.as(st, in.(VTerm), mapDocType).(VTerm) }

// c23 compares the methods of MapModel with the document
func c23(c *Check) {
	c.mapModel("Root", func(s *S, k nodeCase, in Val, args []Val, r Outcome) {
		if r.v.K() != "Doc" {
			s.violate("root", "", "Root", "Root returns %s, not the document", showVal(r.st, r.v))
		}
	})
	c.mapModel("Value", func(s *S, k nodeCase, in Val, args []Val, r Outcome) {
		if r.v.K() != in.K() {
			s.violate("value", "", "Value", "Value returns %s for %s", showVal(r.st, r.v), k.name)
		}
	})
	c.mapModel("Type", func(s *S, k nodeCase, in Val, args []Val, r Outcome) {
		want := s.P.intConst("ValueNode")
		if k.dyn == mapDocType {
			want = s.P.intConst("ObjectNode")
		} else if k.dyn != nil {
			want = s.P.intConst("ArrayNode")
		}
		v, ok := r.v.(VInt)
		if !ok || !r.st.proveEq(v.l, linC(want)) {
			s.violate("type", "", "Type", "Type returns %s for %s", r.v.K(), k.name)
		}
	})
	c.mapModel("Len", func(s *S, k nodeCase, in Val, args []Val, r Outcome) {
		v, ok := r.v.(VInt)
		if ok && k.null && k.dyn == sliceDocType {
			ok = v.l.isZero()
		} else if ok && k.dyn == sliceDocType {
			ok = r.st.proveEq(v.l, s.sliceOf(r.st, in).len)
		}
		if !ok {
			s.violate("len", "", "Len", "Len returns %s for %s", r.v.K(), k.name)
		}
	})
	c.mapModel("Elem", func(s *S, k nodeCase, in Val, args []Val, r Outcome) {
		if k.dyn != sliceDocType || k.null {
			return
		}
		sl := s.sliceOf(r.st, in)
		want := r.st.arrRead(r.st.obj(sl.obj).arr, args[1].(VInt).l)
		if r.v.K() != want.K() {
			s.violate("elem", "", "Elem", "Elem returns %s, not the element of the array", showVal(r.st, r.v))
		}
	})
	c.mapModel("Key", func(s *S, k nodeCase, in Val, args []Val, r Outcome) {
		ok := -1
		if b, isB := r.err.(VBool); isB {
			ok = r.st.decide(b.c)
		} else {
			ok = 0
		}
		if k.dyn != mapDocType || k.null {
			if ok != -1 {
				s.violate("key", "", "Key", "Key finds a member of %s", k.name)
			}
			return
		}
		m := s.mapOf(r.st, in)
		switch r.st.decide(cTermBool(mkTerm(types.Typ[types.Bool], "maphas", m, args[1]))) {
		case 1:
			if ok != 1 {
				s.violate("key", "", "Key", "Key does not find a member of the object")
			} else if want := mkTerm(anyType, "mapval", m, args[1]); r.v.K() != want.key {
				s.violate("key", "", "Key", "Key returns %s, not the member of the object", showVal(r.st, r.v))
			}
		case -1:
			if ok != -1 {
				s.violate("key", "", "Key", "Key finds a member that does not exist")
			}
		default:
			s.violate("key", "", "Key", "Key does not check if the member exists")
		}
	})
	c.mapModel("Keys", func(s *S, k nodeCase, in Val, args []Val, r Outcome) {
		if k.dyn != mapDocType {
			return
		}
		if k.null {
			n, ok := s.lenOf(r.st, r.v, "len").(VInt)
			if !ok || !r.st.proveEq(n.l, linC(0)) {
				s.violate("keys", "", "Keys", "Keys returns %s for a nil map", showVal(r.st, r.v))
			}
			return
		}
		m := s.mapOf(r.st, in)
		sl, ok := r.v.(VSlice)
		if _, null := r.v.(VNil); null && r.st.decide(cEq0(nodeMapLen(m))) == 1 {
			return
		}
		if !ok {
			s.violate("keys", "", "Keys", "Keys returns %s", showVal(r.st, r.v))
			return
		}
		if a := r.st.obj(sl.obj).arr; len(a.fills) == 1 && len(a.cells) == 0 && a.base == nil && !a.lost {
			f := a.fills[0]
			if r.st.proveEq(f.lo, linC(0)) && r.st.proveEq(f.hi, sl.len) && r.st.proveEq(sl.len, nodeMapLen(m)) && f.val.K() == mapKeyOf(m).K() && !leftEarly(r.st, m) {
				return
			}
		}
		segs, ok := listContent(r.st, r.st.obj(sl.obj).arr, sl.len)
		if ok && len(segs) == 1 && segs[0].perm != nil {
			segs = segs[0].perm
		}
		if !ok || len(segs) != 1 || segs[0].loop == nil || segs[0].loop.mapOf == nil || segs[0].loop.mapOf.key != m.t.key {
			s.violate("keys", "", "Keys", "Keys returns %s, which is not one entry for every key: %s", showVal(r.st, r.v), segsKey(segs))
			return
		}
		lp := segs[0].loop
		for _, p := range lp.paths {
			app := p.app[segs[0].acc]
			if len(app) != 1 || app[0].el == nil || app[0].el.K() != mapKeyOf(m).K() {
				s.violate("keys", "", "Keys", "Keys returns %s for a key of the object", segsKey(app))
			}
			s.c.cases++
		}
		if leftEarly(r.st, m) {
			s.violate("keys", "", "Keys", "Keys does not go through all keys")
		}
	})
}

// leftEarly tells if a loop over the map ended before all entries were seen
func leftEarly(st *State, m VTerm) bool {
	for _, c := range st.pc {
		if t, ok := c.a.(VTerm); ok && c.op == "bool" && !c.neg && strings.HasPrefix(t.t.op, "next") && t.t.args[0].K() == m.K() {
			return true
		}
	}
	return false
}

// everyMethod analyses all methods of MapModel
func (c *Check) everyMethod() {
	for _, m := range []string{"Root", "Value", "Type", "Len", "Elem", "Key", "Keys"} {
		c.mapModel(m, func(*S, nodeCase, Val, []Val, Outcome) {})
	}
}

func nodeMapLen(m Val) *Lin { return linA(termAtom(mkTerm(tInt, "len", m), big0, maxInt64)) }
func mapKeyOf(m Val) Val    { return strChunk(mkTerm(tString, "mapkey", m, VInt{linC(0)})) }

func init() {
	checks["C23"] = &Spec{run: c23, rule: "Every method of MapModel is analysed for an object, an array, another value and null; the result is compared with the Go value.", min: map[string]int{"scenarios": 41, "cases": 41}}
}

package main

// Loops with their test at the end (range over an integer, and rotated
// by hand) are brought into the form with the test at the start, which
// the loop analysis summarizes with fewer cases:
//
//	E: if c(init) goto H else D      E: jump H
//	H: p = phi[E: init, L: v] ...    H: p = phi[E: init, L: v]; if c(p) goto B else D
//	L: ...; if c(v) goto H else D    B: ...    L: ...; jump H

import (
	"go/token"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

func (p *Prog) unrotate(fn *ssa.Function) {
	if p.rotated[fn] {
		return
	}
	p.rotated[fn] = true
	for _, h := range slices.Clone(fn.Blocks) {
		p.unrotateLoop(fn, h)
	}
	for _, h := range fn.Blocks {
		p.runeLoop(fn, h)
	}
}

// template returns an instruction of a range loop over a string
func (p *Prog) template(fn *ssa.Function, ok func(ssa.Instruction) bool) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ok(in) {
				return in
			}
		}
	}
	return nil
}

// runeLoop brings a loop over the runes of a string, by their index in
// []rune(s), into the form of a range loop over the string
func (p *Prog) runeLoop(fn *ssa.Function, h *ssa.BasicBlock) {
	if len(h.Succs) != 2 || len(h.Instrs) == 0 {
		return
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || p.blockOf(cond) != h {
		return
	}
	ln, ok := cond.Y.(*ssa.Call)
	if !ok || len(ln.Call.Args) != 1 {
		return
	}
	if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return
	}
	conv, ok := ln.Call.Args[0].(*ssa.Convert)
	if !ok || !types.Identical(conv.X.Type().Underlying(), types.Typ[types.String]) || !types.Identical(conv.Type().Underlying(), types.NewSlice(types.Typ[types.Int32])) {
		return
	}
	// the counter
	isConst := func(v ssa.Value, k int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == k
	}
	plus1 := func(v ssa.Value, x ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == x && isConst(b.Y, 1)
	}
	idx := cond.X
	phi, _ := idx.(*ssa.Phi)
	init := int64(0)
	if b, ok := idx.(*ssa.BinOp); ok && p.blockOf(b) == h {
		if phi, ok = b.X.(*ssa.Phi); !ok || !plus1(b, phi) {
			return
		}
		init = -1
	}
	if phi == nil || p.blockOf(phi) != h {
		return
	}
	entry := -1
	for i, e := range phi.Edges {
		if p.dominates(h, h.Preds[i]) {
			if init == 0 && !plus1(e, phi) || init == -1 && e != idx {
				return
			}
			continue
		}
		if entry >= 0 || !isConst(e, init) {
			return
		}
		entry = i
	}
	if entry < 0 {
		return
	}
	pre, body := h.Preds[entry], h.Succs[0]
	if len(pre.Succs) != 1 || !p.dominates(p.blockOf(conv), pre) || len(body.Preds) != 1 {
		return
	}
	// the uses
	loads := map[ssa.Value]bool{}
	dead := map[ssa.Instruction]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if *o != ssa.Value(conv) {
					continue
				}
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
						return
					}
				case *ssa.IndexAddr:
					if x.Index != idx || !p.dominates(body, b) {
						return
					}
					dead[x] = true
					for _, r := range *x.Referrers() {
						l, ok := r.(*ssa.UnOp)
						if !ok || l.Op != token.MUL {
							return
						}
						dead[l], loads[l] = true, true
					}
				case *ssa.DebugRef:
				default:
					return
				}
			}
		}
	}
	// rewrite
	stub := p.fn("vtStubRunes")
	extract := func(n int) *ssa.Extract {
		x := *p.template(stub, func(in ssa.Instruction) bool {
			x, ok := in.(*ssa.Extract)
			return ok && x.Index == n
		}).(*ssa.Extract)
		return &x
	}
	rg := *p.template(stub, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Range); return ok }).(*ssa.Range)
	nx := *p.template(stub, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Next); return ok }).(*ssa.Next)
	more, char := extract(0), extract(2)
	rg.X, nx.Iter, more.Tuple, char.Tuple = conv.X, &rg, &nx, &nx
	n := len(pre.Instrs) - 1
	pre.Instrs = append(slices.Clone(pre.Instrs[:n]), &rg, pre.Instrs[n])
	n = len(h.Instrs) - 1
	h.Instrs = append(slices.Clone(h.Instrs[:n]), &nx, more, br)
	br.Cond = more
	body.Instrs = append([]ssa.Instruction{char}, body.Instrs...)
	p.moved[&rg], p.moved[&nx], p.moved[more], p.moved[char] = pre, h, h, body
	for _, b := range fn.Blocks {
		b.Instrs = slices.DeleteFunc(slices.Clone(b.Instrs), func(in ssa.Instruction) bool { return dead[in] })
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if loads[*o] {
					*o = char
				}
			}
		}
	}
}

func blockIndex(bs []*ssa.BasicBlock, b *ssa.BasicBlock) int {
	n, r := 0, -1
	for i, x := range bs {
		if x == b {
			n, r = n+1, i
		}
	}
	if n != 1 {
		return -1
	}
	return r
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && types.Identical(x.Type(), y.Type()) && x.String() == y.String()
}

func (p *Prog) unrotateLoop(fn *ssa.Function, h *ssa.BasicBlock) {
	if len(h.Preds) != 2 {
		return
	}
	l, e := h.Preds[1], h.Preds[0]
	li, ei := 1, 0
	if !p.dominates(h, l) {
		l, e = e, l
		li, ei = 0, 1
	}
	if !p.dominates(h, l) || p.dominates(h, e) {
		return
	}
	le, ok := l.Instrs[len(l.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	ee, ok := e.Instrs[len(e.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	k := blockIndex(l.Succs, h)
	if k < 0 || k != blockIndex(e.Succs, h) || l.Succs[1-k] != e.Succs[1-k] {
		return
	}
	d := l.Succs[1-k]
	dl, de := blockIndex(d.Preds, l), blockIndex(d.Preds, e)
	if d == h || dl < 0 || de < 0 {
		return
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, x)
	}
	// the value at the test
	at := func(init, v ssa.Value) ssa.Value {
		for _, x := range phis {
			if sameValue(x.Edges[ei], init) && sameValue(x.Edges[li], v) {
				return x
			}
		}
		if !sameValue(init, v) {
			return nil
		}
		return init
	}
	c0, ok := ee.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	c1, ok := le.Cond.(*ssa.BinOp)
	if !ok || c0.Op != c1.Op {
		return
	}
	x, y := at(c0.X, c1.X), at(c0.Y, c1.Y)
	if x == nil || y == nil {
		return
	}
	var dphis []*ssa.Phi
	var dvals []ssa.Value
	for _, in := range d.Instrs {
		f, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := at(f.Edges[de], f.Edges[dl])
		if v == nil {
			return
		}
		dphis, dvals = append(dphis, f), append(dvals, v)
	}
	// rewrite
	c := *c0
	c.X, c.Y = x, y
	b := &ssa.BasicBlock{Index: len(fn.Blocks), Comment: h.Comment, Instrs: slices.Clone(h.Instrs[len(phis):]), Succs: slices.Clone(h.Succs), Preds: []*ssa.BasicBlock{h}}
	fn.Blocks = append(fn.Blocks, b)
	p.split[b] = h
	for _, in := range b.Instrs {
		p.moved[in] = b
	}
	for _, s := range b.Succs {
		for i, x := range s.Preds {
			if x == h {
				s.Preds[i] = b
			}
		}
	}
	if l == h {
		l = b
	}
	jl, je := &ssa.Jump{}, &ssa.Jump{}
	p.moved[jl], p.moved[je] = l, e
	l.Instrs[len(l.Instrs)-1] = jl
	l.Succs = []*ssa.BasicBlock{h}
	e.Instrs = append(slices.Clone(e.Instrs[:len(e.Instrs)-1]), je)
	e.Succs = []*ssa.BasicBlock{h}
	le.Cond = &c
	h.Instrs = append(slices.Clone(h.Instrs[:len(phis)]), &c, le)
	p.moved[&c], p.moved[le] = h, h
	h.Succs = make([]*ssa.BasicBlock, 2)
	h.Succs[k], h.Succs[1-k] = b, d
	d.Preds[de] = h
	d.Preds = slices.Delete(slices.Clone(d.Preds), dl, dl+1)
	for i, f := range dphis {
		f.Edges[de] = dvals[i]
		f.Edges = slices.Delete(slices.Clone(f.Edges), dl, dl+1)
	}
}

// blockOf returns the block of an instruction
func (p *Prog) blockOf(in ssa.Instruction) *ssa.BasicBlock {
	if b := p.moved[in]; b != nil {
		return b
	}
	return in.Block()
}

// dominates tells if block a is on every way to b
func (p *Prog) dominates(a, b *ssa.BasicBlock) bool {
	for b != a && p.split[b] != nil {
		b = p.split[b]
	}
	return a.Dominates(b)
}

package main

import (
	"go/constant"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int // >=0 register; -1 constant; -2 global
	k    Value
	g    *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	ops []opnd
	dst int
	t   types.Type // cached type
	w   uint8
	sg  bool
	aux interface{}
}

type cblock struct {
	b      *ssa.BasicBlock
	ins    []cinstr
	nphi   int
	mergeJ *ssa.BasicBlock
	mjDone bool
}

type code struct {
	fn       *ssa.Function
	nslots   int
	blocks   []*cblock
	intr     func(in *Interp, args []Value) Value
	name     string
	hasDefer bool
	scan     bool // a small pure function with one basic result: loops may be merged as a whole
	nparams  int
	nfree    int
	slots    map[ssa.Value]int
	mu       sync.Mutex
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(pathAbort{"const of type param"})
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if w, _, ok := intWidth(b); ok {
			if w == 0 {
				return KB(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if x, ok := constant.Int64Val(v); ok {
				return K(w, uint64(x))
			}
			x, _ := constant.Uint64Val(v)
			return K(w, x)
		}
		switch {
		case b.Info()&types.IsString != 0:
			return Str{s: constant.StringVal(c.Value)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		}
	}
	return Poison{"const " + c.String()}
}

func (P *Program) codeOf(fn *ssa.Function) *code {
	if c, ok := P.codes.Load(fn); ok {
		return c.(*code)
	}
	c := P.compile(fn)
	a, _ := P.codes.LoadOrStore(fn, c)
	return a.(*code)
}

func (P *Program) compile(fn *ssa.Function) *code {
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	c := &code{fn: fn, name: name, slots: map[ssa.Value]int{}}
	if f, ok := intrinsics[name]; ok {
		c.intr = f
		return c
	}
	if f := intrinsicByPattern(fn, name); f != nil {
		c.intr = f
		return c
	}
	if r, ok := P.redirects[name]; ok && r != fn {
		return P.codeOf(r)
	}
	if fn.Blocks == nil {
		return c
	}
	c.scan = isScan(fn)
	n := 0
	for _, p := range fn.Params {
		c.slots[p] = n
		n++
	}
	c.nparams = n
	for _, p := range fn.FreeVars {
		c.slots[p] = n
		n++
	}
	c.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.slots[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nslots = n
	mk := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			return opnd{slot: -1, k: constValue(v)}
		case *ssa.Global:
			return opnd{slot: -2, g: v}
		case *ssa.Function:
			return opnd{slot: -1, k: v}
		case *ssa.Builtin:
			return opnd{slot: -1, k: v}
		}
		return opnd{slot: c.slots[v]}
	}
	c.blocks = make([]*cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cblock{b: b, ins: make([]cinstr, 0, len(b.Instrs))}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = c.slots[v]
				ci.t = v.Type()
				ci.w, ci.sg, _ = typeWidth2(v.Type())
			}
			var rands [12]*ssa.Value
			for _, o := range i.Operands(rands[:0]) {
				if *o == nil {
					ci.ops = append(ci.ops, opnd{slot: -1})
					continue
				}
				ci.ops = append(ci.ops, mk(*o))
			}
			if _, ok := i.(*ssa.Phi); ok {
				cb.nphi++
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks[bi] = cb
	}
	return c
}

func typeWidth2(t types.Type) (uint8, bool, bool) {
	if _, ok := t.(*types.Tuple); ok {
		return 0, false, false
	}
	return typeWidth(t)
}

// joinOf finds the block where both sides of the branch at the end of b meet, staying inside the loop iteration.
func (c *code) joinOf(cb *cblock) *ssa.BasicBlock {
	c.mu.Lock()
	defer c.mu.Unlock()
	if cb.mjDone {
		return cb.mergeJ
	}
	cb.mjDone = true
	b := cb.b
	reach := func(s *ssa.BasicBlock) map[*ssa.BasicBlock]int {
		m := map[*ssa.BasicBlock]int{s: 0}
		q := []*ssa.BasicBlock{s}
		for len(q) > 0 && len(m) < 64 {
			x := q[0]
			q = q[1:]
			if x.Dominates(b) { // loop header or b itself: do not go around
				continue
			}
			for _, y := range x.Succs {
				if _, ok := m[y]; !ok {
					m[y] = m[x] + 1
					q = append(q, y)
				}
			}
		}
		return m
	}
	m1, m2 := reach(b.Succs[0]), reach(b.Succs[1])
	best := 1 << 30
	for x, d1 := range m1 {
		if d2, ok := m2[x]; ok && x != b {
			d := d1
			if d2 > d {
				d = d2
			}
			d = d*1000 + d1 + d2
			if d < best || (d == best && x.Index < cb.mergeJ.Index) {
				best = d
				cb.mergeJ = x
			}
		}
	}
	return cb.mergeJ
}

func isScan(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	b, ok := r.At(0).Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if _, _, ok := intWidth(b); !ok {
		return false
	}
	for _, bl := range fn.Blocks {
		for _, i := range bl.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || (bi.Name() != "len" && bi.Name() != "cap") {
					return false
				}
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Range, *ssa.MakeInterface:
				return false
			}
		}
	}
	return true
}

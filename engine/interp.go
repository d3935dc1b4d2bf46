package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	c       *code
	env     []Value
	block   *cblock
	prev    *ssa.BasicBlock
	skipPhi bool
	defers  []deferred
	panick  bool
	pval    targetPanic
	result  Value
	caller  *frame
	recov   bool
}

type deferred struct {
	fn   Value
	args []Value
	ins  *ssa.Defer
}

func (in *Interp) get(fr *frame, o *opnd) Value {
	if o.slot >= 0 {
		v := fr.env[o.slot]
		if p, ok := v.(Poison); ok {
			panic(pathAbort{"poison: " + p.why})
		}
		return v
	}
	if o.slot == -1 {
		return o.k
	}
	return in.globalAddr(o.g)
}

func (in *Interp) term(fr *frame, o *opnd) *Term {
	v := in.get(fr, o)
	t, ok := v.(*Term)
	if !ok {
		panic(pathAbort{fmt.Sprintf("scalar expected, got %T in %s", v, fr.c.name)})
	}
	return t
}

func (in *Interp) globalAddr(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = p
	in.initPackage(g.Pkg)
	return in.globals[g]
}

// initPackage runs the variable initialisers of a package the first time one of its variables is used.
func (in *Interp) initPackage(pkg *ssa.Package) {
	if pkg == nil || in.inits[pkg] != 0 {
		return
	}
	in.inits[pkg] = 1
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	if skipInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "go.dedis.ch/") {
		return
	}
	nf, st := in.noFork, in.stack
	in.noFork = 0
	c := in.P.codeOf(fn)
	fr := &frame{c: c, env: make([]Value, c.nslots)}
	// tolerant: what cannot be executed yields poisoned values
	for _, cb := range c.blocks {
		for i := range cb.ins {
			ci := &cb.ins[i]
			switch x := ci.ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				continue
			case *ssa.Call:
				if f, ok := x.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Signature.Recv() == nil && f.Pkg != pkg {
					continue
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
					continue
				}
			}
			in.tolerant(fr, ci)
		}
	}
	in.noFork, in.stack = nf, st
}

func (in *Interp) tolerant(fr *frame, ci *cinstr) {
	d := in.depth
	s := in.steps
	defer func() {
		if r := recover(); r != nil {
			in.depth = d
			why := ""
			switch r := r.(type) {
			case pathAbort:
				why = r.why
			case targetPanic:
				why = "panic in initialiser: " + in.panicText(r)
			case solverDied:
				panic(r)
			default:
				why = fmt.Sprint(r)
			}
			if ci.dst >= 0 {
				fr.env[ci.dst] = Poison{why}
			}
			if st, ok := ci.ins.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					*in.globals[g] = Poison{why}
				}
			}
		}
		in.steps = s
	}()
	// a store of a poisoned value poisons the variable
	if st, ok := ci.ins.(*ssa.Store); ok {
		if _, isG := st.Addr.(*ssa.Global); isG && ci.ops[1].slot >= 0 {
			if p, ok := fr.env[ci.ops[1].slot].(Poison); ok {
				*in.globalAddr(st.Addr.(*ssa.Global)) = p
				return
			}
		}
	}
	in.exec(fr, ci)
}

// ---- panics of the target program ----

func (in *Interp) rtPanic(msg string) {
	panic(targetPanic{v: Iface{t: in.P.rtErrType, v: Str{s: msg}}, site: in.where()})
}

func (in *Interp) where() string {
	n := len(in.stack)
	s := ""
	for i := n - 1; i >= 0 && i >= n-4; i-- {
		if s != "" {
			s += " < "
		}
		s += in.stack[i].String()
	}
	return s
}

func (in *Interp) panicText(p targetPanic) string {
	switch v := p.v.v.(type) {
	case Str:
		if v.isConcrete() {
			return v.s
		}
		return "<symbolic string>"
	default:
		if p.v.t == nil {
			return "nil"
		}
		return typeStr(p.v.t)
	}
}

// ---- calls ----

const maxDepth = 3000

func (in *Interp) call(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(f, args, nil)
	case *Closure:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(f.fn, args, f.env)
	case *NativeFn:
		return f.f(in, args)
	}
	panic(pathAbort{fmt.Sprintf("call of %T", fn)})
}

func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	c := in.P.codeOf(fn)
	if c.intr != nil {
		return c.intr(in, args)
	}
	if c.blocks == nil {
		panic(pathAbort{"no code for " + fn.String()})
	}
	in.w.ex.noteFunc(c)
	if c.hasDefer && in.noFork > 0 {
		panic(mergeAbort{"defer"})
	}
	in.depth++
	if in.depth > maxDepth {
		panic(pathAbort{"recursion limit"})
	}
	in.stack = append(in.stack, fn)
	fr := &frame{c: c, env: make([]Value, c.nslots)}
	copy(fr.env, args)
	copy(fr.env[c.nparams:], env)
	fr.block = c.blocks[0]
	if c.hasDefer {
		in.runDefer(fr)
	} else {
		in.run(fr)
	}
	in.depth--
	in.stack = in.stack[:len(in.stack)-1]
	return fr.result
}

func (in *Interp) runDefer(fr *frame) {
	depth := in.depth
	nst := len(in.stack)
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				in.depth = depth
				in.stack = in.stack[:nst]
				fr.panick = true
				fr.pval = tp
			}
		}()
		in.run(fr)
	}()
	if !fr.panick {
		return
	}
	in.runDefers(fr)
	if fr.panick {
		panic(fr.pval)
	}
	// recovered: the named results
	if fr.c.fn.Recover != nil {
		fr.block = fr.c.blocks[fr.c.fn.Recover.Index]
		fr.prev = nil
		in.run(fr)
	} else {
		res := fr.c.fn.Signature.Results()
		switch res.Len() {
		case 0:
			fr.result = nil
		case 1:
			fr.result = zero(res.At(0).Type())
		default:
			fr.result = zero(res)
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, nst := in.depth, len(in.stack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					in.depth, in.stack = depth, in.stack[:nst]
					fr.panick = true
					fr.pval = tp
				}
			}()
			saved := in.curPanic
			in.curPanic = fr
			defer func() { in.curPanic = saved }()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				in.builtin(fr, b, d.args, d.ins.Call.Args, nil)
			} else {
				in.call(d.fn, d.args)
			}
		}()
	}
}

// run executes the frame until it returns.
func (in *Interp) run(fr *frame) {
	for {
		nxt := in.runBlock(fr)
		if nxt == nil {
			return
		}
	}
}

func (in *Interp) phis(fr *frame, cb *cblock, prev *ssa.BasicBlock) {
	pi := -1
	for i, p := range cb.b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		panic("phi: predecessor not found")
	}
	if cb.nphi == 1 {
		ci := &cb.ins[0]
		fr.env[ci.dst] = in.getRaw(fr, &ci.ops[pi])
		return
	}
	var tmp [16]Value
	vals := tmp[:0]
	for i := 0; i < cb.nphi; i++ {
		vals = append(vals, in.getRaw(fr, &cb.ins[i].ops[pi]))
	}
	for i := 0; i < cb.nphi; i++ {
		fr.env[cb.ins[i].dst] = vals[i]
	}
}

func (in *Interp) getRaw(fr *frame, o *opnd) Value {
	if o.slot >= 0 {
		return fr.env[o.slot]
	}
	return in.get(fr, o)
}

const maxSteps = 40_000_000

// runBlock executes the current block and moves to the next one; nil when the function returned.
func (in *Interp) runBlock(fr *frame) *cblock {
	cb := fr.block
	if cb.nphi > 0 {
		if fr.skipPhi {
			fr.skipPhi = false
		} else {
			in.phis(fr, cb, fr.prev)
		}
	}
	fr.skipPhi = false
	n := len(cb.ins)
	in.steps += n
	if in.steps > in.w.ex.maxSteps {
		panic(pathAbort{"step limit in " + fr.c.name})
	}
	for i := cb.nphi; i < n; i++ {
		ci := &cb.ins[i]
		switch x := ci.ins.(type) {
		case *ssa.Jump:
			fr.prev = cb.b
			fr.block = fr.c.blocks[cb.b.Succs[0].Index]
			return fr.block
		case *ssa.If:
			c := in.term(fr, &ci.ops[0])
			if c.op != OConst {
				if v, ok := in.ctx.known(c); ok {
					c = KB(v)
				} else if in.tryMerge(fr, cb, c) {
					return fr.block
				} else {
					c = KB(in.decide(c))
				}
			}
			fr.prev = cb.b
			if c.k == 1 {
				fr.block = fr.c.blocks[cb.b.Succs[0].Index]
			} else {
				fr.block = fr.c.blocks[cb.b.Succs[1].Index]
			}
			return fr.block
		case *ssa.Return:
			fr.result = in.retVal(fr, ci)
			fr.block = nil
			return nil
		case *ssa.Panic:
			v := in.get(fr, &ci.ops[0]).(Iface)
			if in.noFork > 0 {
				panic(mergeAbort{"panic"})
			}
			panic(targetPanic{v: v, site: in.where()})
		case *ssa.RunDefers:
			in.runDefers(fr)
			if fr.panick {
				fr.panick = false
				panic(fr.pval)
			}
		default:
			_ = x
			in.exec(fr, ci)
		}
	}
	panic("block without terminator")
}

func (in *Interp) retVal(fr *frame, ci *cinstr) Value {
	switch len(ci.ops) {
	case 0:
		return nil
	case 1:
		return in.get(fr, &ci.ops[0])
	}
	r := make(Tuple, len(ci.ops))
	for i := range ci.ops {
		r[i] = in.get(fr, &ci.ops[i])
	}
	return r
}

// ---- merging of small diamonds ----

type armResult struct {
	ret    bool
	val    Value
	phis   []Value
	writes map[*Value]Value
	order  []*Value
	allocs map[*Value]bool
}

const armLimit = 220

func (in *Interp) tryMerge(fr *frame, cb *cblock, cond *Term) bool {
	if in.w.ex.noMerge || in.noFork > 8 || fr.c.hasDefer || in.frzOn {
		return false
	}
	J := fr.c.joinOf(cb)
	a1, ok := in.runArm(fr, cb, cb.b.Succs[0], J, cond, true)
	if !ok {
		in.stats.failedMerges++
		return false
	}
	a2, ok := in.runArm(fr, cb, cb.b.Succs[1], J, cond, false)
	if !ok || a1.ret != a2.ret {
		in.stats.failedMerges++
		return false
	}
	// merge
	type wr struct {
		p *Value
		v Value
	}
	var ws []wr
	mg := &merger{in: in, c: cond, a1: a1, a2: a2}
	for _, p := range a1.order {
		v1 := a1.writes[p]
		v2, ok := a2.writes[p]
		if !ok {
			if a1.allocs[p] {
				ws = append(ws, wr{p, v1})
				continue
			}
			v2 = *p
		}
		v, ok := mg.merge(v1, v2)
		if !ok {
			in.stats.failedMerges++
			return false
		}
		ws = append(ws, wr{p, v})
	}
	for _, p := range a2.order {
		v2 := a2.writes[p]
		if _, ok := a1.writes[p]; ok {
			continue
		}
		if a2.allocs[p] {
			ws = append(ws, wr{p, v2})
			continue
		}
		v, ok := mg.merge(*p, v2)
		if !ok {
			in.stats.failedMerges++
			return false
		}
		ws = append(ws, wr{p, v})
	}
	var res Value
	phis := make([]Value, len(a1.phis))
	if a1.ret {
		v, ok := mg.mergeRet(a1.val, a2.val)
		if !ok {
			in.stats.failedMerges++
			return false
		}
		res = v
	} else {
		for i := range phis {
			_, p1 := a1.phis[i].(Poison)
			_, p2 := a2.phis[i].(Poison)
			if p1 || p2 {
				in.stats.failedMerges++
				return false
			}
			v, ok := mg.merge(a1.phis[i], a2.phis[i])
			if !ok {
				in.stats.failedMerges++
				return false
			}
			phis[i] = v
		}
	}
	for _, w := range ws {
		in.write(w.p, w.v)
	}
	in.stats.merges++
	if a1.ret {
		fr.result = res
		fr.block = nil
		return true
	}
	jb := fr.c.blocks[J.Index]
	for i := range phis {
		fr.env[jb.ins[i].dst] = phis[i]
	}
	fr.block = jb
	fr.prev = nil
	fr.skipPhi = true
	return true
}

// runArm executes one side of a branch up to J (or a return) under the assumption, then undoes its effects.
func (in *Interp) runArm(fr *frame, cb *cblock, start, J *ssa.BasicBlock, cond *Term, side bool) (res *armResult, ok bool) {
	m := in.ctx.mark()
	wl := len(in.wlog)
	depth, nst := in.depth, len(in.stack)
	stepLim, steps0 := in.armSteps, in.steps
	in.noFork++
	if in.noFork == 1 {
		in.armSteps = in.steps + armLimit
		in.arm = map[*Value]bool{}
	}
	sub := &frame{c: fr.c, env: fr.env, prev: cb.b, block: fr.c.blocks[start.Index]}
	if fr.c.scan && J == nil {
		sub.env = append([]Value{}, fr.env...)
	}
	res = &armResult{writes: map[*Value]Value{}, allocs: map[*Value]bool{}}
	savedArm := in.arm
	in.arm = map[*Value]bool{}
	defer func() {
		// collect and undo writes
		for i := len(in.wlog) - 1; i >= wl; i-- {
			w := in.wlog[i]
			if _, seen := res.writes[w.p]; !seen {
				res.writes[w.p] = *w.p
				res.order = append(res.order, w.p)
			}
			*w.p = w.old
		}
		in.wlog = in.wlog[:wl]
		for p := range in.arm {
			res.allocs[p] = true
			if savedArm != nil {
				savedArm[p] = true
			}
		}
		in.arm = savedArm
		in.ctx.rollback(m)
		in.noFork--
		in.armSteps = stepLim
		if in.noFork == 0 {
			in.arm = nil
		}
		_ = steps0
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, targetPanic:
				in.depth, in.stack = depth, in.stack[:nst]
				ok = false
				return
			}
			panic(r)
		}
	}()
	in.ctx.addFact(cond, side)
	for {
		if J != nil && sub.block.b == J && !sub.skipPhi {
			jb := sub.block
			for i := 0; i < jb.nphi; i++ {
				pi := -1
				for k, p := range jb.b.Preds {
					if p == sub.prev {
						pi = k
						break
					}
				}
				res.phis = append(res.phis, in.getRaw(sub, &jb.ins[i].ops[pi]))
			}
			return res, true
		}
		if J != nil && sub.block.b == J { // nested merge ended exactly at J: its phis are in the registers
			jb := sub.block
			for i := 0; i < jb.nphi; i++ {
				res.phis = append(res.phis, sub.env[jb.ins[i].dst])
			}
			return res, true
		}
		if sub.block.b.Dominates(cb.b) && !(fr.c.scan && J == nil) {
			panic(mergeAbort{"loop"})
		}
		if in.steps > in.armSteps {
			panic(mergeAbort{"long"})
		}
		if in.runBlock(sub) == nil {
			res.ret = true
			res.val = sub.result
			return res, true
		}
	}
}

type merger struct {
	in     *Interp
	c      *Term
	a1, a2 *armResult
}

func (m *merger) mergeRet(a, b Value) (Value, bool) {
	ta, ok1 := a.(Tuple)
	tb, ok2 := b.(Tuple)
	if ok1 && ok2 && len(ta) == len(tb) {
		r := make(Tuple, len(ta))
		for i := range ta {
			v, ok := m.merge(ta[i], tb[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	if a == nil && b == nil {
		return nil, true
	}
	return m.merge(a, b)
}

func (m *merger) merge(a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return m.in.ctx.Ite(m.c, x, y), true
	case Str:
		y, ok := b.(Str)
		if !ok || x.length() != y.length() {
			return nil, false
		}
		if x.isConcrete() && y.isConcrete() && x.s == y.s {
			return x, true
		}
		if x.length() > 256 {
			return nil, false
		}
		r := make([]*Term, x.length())
		for i := range r {
			r[i] = m.in.ctx.Ite(m.c, x.at(i), y.at(i))
		}
		return mkStr(r), true
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return nil, false
		}
		if (x == nil) != (y == nil) || len(x) != len(y) || cap(x) != cap(y) {
			return nil, false
		}
		if cap(x) == 0 || &x[:1][0] == &y[:1][0] {
			return x, true
		}
		// freshly allocated on both sides
		if len(x) > 0 && m.a1.allocs[&x[0]] && m.a2.allocs[&y[0]] && len(x) <= 512 {
			r := make(Slice, len(x), cap(x))
			for i := range x {
				v1, v2 := x[i], y[i]
				if w, ok := m.a1.writes[&x[i]]; ok {
					v1 = w
				}
				if w, ok := m.a2.writes[&y[i]]; ok {
					v2 = w
				}
				v, ok := m.merge(v1, v2)
				if !ok {
					return nil, false
				}
				r[i] = v
			}
			if cap(x) > len(x) {
				full := r[:cap(x)]
				for i := len(x); i < cap(x); i++ {
					full[i] = x[:cap(x)][i]
				}
			}
			return r, true
		}
		return nil, false
	case *Value:
		y, ok := b.(*Value)
		return x, ok && x == y
	case Structure:
		y, ok := b.(Structure)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Structure, len(x))
		for i := range x {
			v, ok := m.merge(x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) || len(x) > 512 {
			return nil, false
		}
		r := make(Array, len(x))
		for i := range x {
			v, ok := m.merge(x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.merge(x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case *MapObj:
		y, ok := b.(*MapObj)
		return x, ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return x, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return x, ok && x == y
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		return m.mergeRet(x, y)
	}
	return nil, false
}

// ---- memory ----

func (in *Interp) write(p *Value, v Value) {
	if in.noFork > 0 {
		in.wlog = append(in.wlog, wrec{p, *p})
	}
	if in.frzOn && in.frozen[p] {
		in.frozenWrite()
	}
	*p = v
}

func (in *Interp) store(p *Value, v Value) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch nv := v.(type) {
	case Structure:
		if old, ok := (*p).(Structure); ok && len(old) == len(nv) {
			for i := range nv {
				in.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				in.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	}
	in.write(p, v)
}

func (in *Interp) load(p *Value) Value {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	v := *p
	switch x := v.(type) {
	case Structure, Array:
		return copyVal(v)
	case Poison:
		panic(pathAbort{"poison: " + x.why})
	}
	return v
}

func (in *Interp) loadSym(p *SymPtr) Value {
	if _, ok := p.elems[0].(*Term); ok && len(p.elems) <= 512 {
		if ps := in.inRange(in.ctx.possible(p.idx), len(p.elems)); len(ps) > 0 {
			r := p.elems[ps[0]].(*Term)
			for _, i := range ps[1:] {
				r = in.ctx.Ite(in.ctx.Bin(OEq, p.idx, K(p.idx.w, i)), p.elems[i].(*Term), r)
			}
			return r
		}
		r := p.elems[len(p.elems)-1].(*Term)
		for i := len(p.elems) - 2; i >= 0; i-- {
			r = in.ctx.Ite(in.ctx.Bin(OEq, p.idx, K(p.idx.w, uint64(i))), p.elems[i].(*Term), r)
		}
		return r
	}
	i := in.concretize(p.idx, 0, "index")
	return in.load(&p.elems[i])
}

func (in *Interp) storeSym(p *SymPtr, v Value) {
	if nt, ok := v.(*Term); ok && len(p.elems) <= 512 {
		if ps := in.ctx.possible(p.idx); ps != nil {
			for _, i := range ps {
				if i < uint64(len(p.elems)) {
					o := p.elems[i].(*Term)
					in.write(&p.elems[i], in.ctx.Ite(in.ctx.Bin(OEq, p.idx, K(p.idx.w, i)), nt, o))
				}
			}
			return
		}
		for i := range p.elems {
			o := p.elems[i].(*Term)
			in.write(&p.elems[i], in.ctx.Ite(in.ctx.Bin(OEq, p.idx, K(p.idx.w, uint64(i))), nt, o))
		}
		return
	}
	i := in.concretize(p.idx, 0, "index")
	in.store(&p.elems[i], v)
}

func (in *Interp) noteAlloc(p *Value) {
	if in.noFork > 0 && in.arm != nil {
		in.arm[p] = true
	}
}

// boundsCheck: true index in [0,n)
func (in *Interp) boundsCheck(idx *Term, n int) {
	if idx.op == OConst {
		i := sext(idx.k, idx.w)
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return
	}
	if ps := in.ctx.possible(idx); ps != nil {
		ok := true
		for _, v := range ps {
			if v >= uint64(n) {
				ok = false
			}
		}
		if ok {
			return
		}
	}
	i64 := in.ctx.Conv(idx, 64, false)
	if !in.decide(in.ctx.Bin(OUlt, i64, KInt(n))) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (in *Interp) exec(fr *frame, ci *cinstr) {
	switch x := ci.ins.(type) {
	case *ssa.BinOp:
		fr.env[ci.dst] = in.binop(fr, ci, x)
	case *ssa.UnOp:
		in.unop(fr, ci, x)
	case *ssa.Call:
		fr.env[ci.dst] = in.doCall(fr, ci, &x.Call)
	case *ssa.FieldAddr:
		p := in.ptr(fr, &ci.ops[0])
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*p).(Structure)
		if !ok {
			if po, isP := (*p).(Poison); isP {
				panic(pathAbort{"poison: " + po.why})
			}
			panic(pathAbort{fmt.Sprintf("field of %T in %s", *p, fr.c.name)})
		}
		fr.env[ci.dst] = &st[x.Field]
	case *ssa.Field:
		st, ok := in.get(fr, &ci.ops[0]).(Structure)
		if !ok {
			panic(pathAbort{"field of opaque value in " + fr.c.name})
		}
		fr.env[ci.dst] = st[x.Field]
	case *ssa.IndexAddr:
		v := in.get(fr, &ci.ops[0])
		idx := in.term(fr, &ci.ops[1])
		idx = in.idx64(idx, x.Index.Type())
		var elems []Value
		switch c := v.(type) {
		case Slice:
			elems = c
		case *Value:
			if c == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			a, ok := (*c).(Array)
			if !ok {
				panic(pathAbort{fmt.Sprintf("index of %T", *c)})
			}
			elems = a
		default:
			panic(pathAbort{fmt.Sprintf("indexaddr of %T", v)})
		}
		in.boundsCheck(idx, len(elems))
		if idx.op == OConst {
			fr.env[ci.dst] = &elems[idx.k]
		} else if c := in.ctx.find(idx); c.op == OConst {
			fr.env[ci.dst] = &elems[c.k]
		} else if ps := in.ctx.possible(idx); len(ps) == 1 {
			fr.env[ci.dst] = &elems[ps[0]]
		} else {
			fr.env[ci.dst] = &SymPtr{elems, idx}
		}
	case *ssa.Index:
		v := in.get(fr, &ci.ops[0])
		idx := in.idx64(in.term(fr, &ci.ops[1]), x.Index.Type())
		switch c := v.(type) {
		case Array:
			in.boundsCheck(idx, len(c))
			if idx.op == OConst {
				fr.env[ci.dst] = c[idx.k]
			} else {
				fr.env[ci.dst] = in.loadSym(&SymPtr{c, idx})
			}
		case Str:
			fr.env[ci.dst] = in.strIndex(c, idx)
		default:
			panic(pathAbort{fmt.Sprintf("index of %T", v)})
		}
	case *ssa.Store:
		v := in.get(fr, &ci.ops[1])
		switch p := in.get(fr, &ci.ops[0]).(type) {
		case *Value:
			in.store(p, v)
		case *SymPtr:
			in.storeSym(p, v)
		default:
			panic(pathAbort{fmt.Sprintf("store to %T", p)})
		}
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(x.Type().(*types.Pointer).Elem())
		in.noteAlloc(p)
		fr.env[ci.dst] = p
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: x.X.Type(), v: in.get(fr, &ci.ops[0])}
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.ChangeType:
		fr.env[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.Convert:
		fr.env[ci.dst] = in.convert(in.get(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[ci.dst] = in.convert(in.get(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case *ssa.Extract:
		t, ok := in.get(fr, &ci.ops[0]).(Tuple)
		if !ok {
			panic(pathAbort{"extract"})
		}
		fr.env[ci.dst] = t[x.Index]
	case *ssa.Slice:
		fr.env[ci.dst] = in.slice(fr, ci, x)
	case *ssa.MakeSlice:
		fr.env[ci.dst] = in.makeSlice(fr, ci, x)
	case *ssa.MakeMap:
		fr.env[ci.dst] = newMap(x.Type().Underlying().(*types.Map).Key())
	case *ssa.MapUpdate:
		m := in.get(fr, &ci.ops[0]).(*MapObj)
		in.mapSet(m, in.get(fr, &ci.ops[1]), in.get(fr, &ci.ops[2]))
	case *ssa.Lookup:
		switch c := in.get(fr, &ci.ops[0]).(type) {
		case Str:
			fr.env[ci.dst] = in.strIndex(c, in.idx64(in.term(fr, &ci.ops[1]), x.Index.Type()))
		case *MapObj:
			v, ok := in.mapGet(c, in.get(fr, &ci.ops[1]))
			if !ok {
				v = zero(x.X.Type().Underlying().(*types.Map).Elem())
			} else {
				v = copyVal(v)
			}
			if x.CommaOk {
				fr.env[ci.dst] = Tuple{v, KB(ok)}
			} else {
				fr.env[ci.dst] = v
			}
		default:
			panic(pathAbort{fmt.Sprintf("lookup in %T", c)})
		}
	case *ssa.Range:
		switch c := in.get(fr, &ci.ops[0]).(type) {
		case *MapObj:
			fr.env[ci.dst] = in.mapRange(c)
		case Str:
			fr.env[ci.dst] = &strIter{s: c}
		default:
			panic(pathAbort{"range"})
		}
	case *ssa.Next:
		switch it := in.get(fr, &ci.ops[0]).(type) {
		case *mapIter:
			fr.env[ci.dst] = it.next(in, x.Type().(*types.Tuple))
		case *strIter:
			fr.env[ci.dst] = it.next(in)
		}
	case *ssa.TypeAssert:
		fr.env[ci.dst] = in.typeAssert(in.get(fr, &ci.ops[0]).(Iface), x)
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i := range env {
			env[i] = in.get(fr, &ci.ops[i+1])
		}
		fr.env[ci.dst] = &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.Defer:
		fn, args := in.callee(fr, ci, &x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, x})
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &ci.ops[0]).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.rtPanic("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.env[ci.dst] = p
	case *ssa.Go:
		// goroutines run to completion at once: one of their schedules
		in.noMergeHere("go statement")
		in.doCall(fr, ci, &x.Call)
	case *ssa.MakeChan:
		fr.env[ci.dst] = &ChanObj{zero: zero(x.Type().Underlying().(*types.Chan).Elem())}
	case *ssa.Send:
		in.noMergeHere("channel")
		c := in.get(fr, &ci.ops[0]).(*ChanObj)
		if c == nil {
			panic(pathAbort{"blocked on a channel"})
		}
		if c.closed {
			in.rtPanicPlain("send on closed channel")
		}
		c.buf = append(c.buf, copyVal(in.get(fr, &ci.ops[1])))
	case *ssa.Select:
		panic(pathAbort{fmt.Sprintf("unsupported instruction %T in %s", x, fr.c.name)})
	default:
		panic(pathAbort{fmt.Sprintf("unsupported instruction %T in %s", x, fr.c.name)})
	}
}

func (in *Interp) ptr(fr *frame, o *opnd) *Value {
	switch p := in.get(fr, o).(type) {
	case *Value:
		return p
	case *SymPtr:
		i := in.concretize(p.idx, 0, "element address")
		return &p.elems[i]
	default:
		panic(pathAbort{fmt.Sprintf("pointer expected, got %T in %s", p, fr.c.name)})
	}
}

func (in *Interp) idx64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, sg, _ := typeWidth(ty)
	return in.ctx.Conv(t, 64, sg)
}

func (in *Interp) strIndex(s Str, idx *Term) *Term {
	in.boundsCheck(idx, s.length())
	if idx.op != OConst {
		idx = in.ctx.find(idx)
	}
	if idx.op == OConst {
		return s.at(int(idx.k))
	}
	n := s.length()
	r := s.at(n - 1)
	for i := n - 2; i >= 0; i-- {
		r = in.ctx.Ite(in.ctx.Bin(OEq, idx, KInt(i)), s.at(i), r)
	}
	return r
}

func (in *Interp) callee(fr *frame, ci *cinstr, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		v, ok := in.get(fr, &ci.ops[0]).(Iface)
		if !ok {
			panic(pathAbort{"invoke on non-interface"})
		}
		if v.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, len(ci.ops))
		args[0] = v.v
		for i := 1; i < len(ci.ops); i++ {
			args[i] = in.get(fr, &ci.ops[i])
		}
		return in.P.method(v.t, c.Method), args
	}
	fn := in.get(fr, &ci.ops[0])
	args := make([]Value, len(ci.ops)-1)
	for i := range args {
		args[i] = in.get(fr, &ci.ops[i+1])
	}
	return fn, args
}

func (in *Interp) doCall(fr *frame, ci *cinstr, c *ssa.CallCommon) Value {
	fn, args := in.callee(fr, ci, c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return in.builtin(fr, b, args, c.Args, ci.t)
	}
	return in.call(fn, args)
}

// ChanObj is a channel; sends do not block.
type ChanObj struct {
	buf    []Value
	closed bool
	zero   Value
}

func (in *Interp) unop(fr *frame, ci *cinstr, x *ssa.UnOp) {
	switch x.Op {
	case token.ARROW:
		in.noMergeHere("channel")
		c := in.get(fr, &ci.ops[0]).(*ChanObj)
		if c == nil || len(c.buf) == 0 && !c.closed {
			panic(pathAbort{"blocked on a channel"})
		}
		v, ok := copyVal(c.zero), TFalse
		if len(c.buf) > 0 {
			v, ok = c.buf[0], TTrue
			c.buf = c.buf[1:]
		}
		if x.CommaOk {
			fr.env[ci.dst] = Tuple{v, ok}
		} else {
			fr.env[ci.dst] = v
		}
		return
	case token.MUL:
		switch p := in.get(fr, &ci.ops[0]).(type) {
		case *Value:
			fr.env[ci.dst] = in.load(p)
		case *SymPtr:
			fr.env[ci.dst] = in.loadSym(p)
		default:
			panic(pathAbort{fmt.Sprintf("load from %T in %s", p, fr.c.name)})
		}
	case token.NOT:
		fr.env[ci.dst] = in.ctx.Not(in.term(fr, &ci.ops[0]))
	case token.SUB:
		v := in.get(fr, &ci.ops[0])
		if f, ok := v.(float64); ok {
			fr.env[ci.dst] = -f
			return
		}
		fr.env[ci.dst] = in.ctx.Un(ONeg, v.(*Term))
	case token.XOR:
		fr.env[ci.dst] = in.ctx.Un(ONotB, in.term(fr, &ci.ops[0]))
	default:
		panic(pathAbort{"unop " + x.Op.String()})
	}
}

func (in *Interp) binop(fr *frame, ci *cinstr, x *ssa.BinOp) Value {
	a, b := in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1])
	switch x.Op {
	case token.EQL:
		return in.equals(a, b)
	case token.NEQ:
		return in.ctx.Not(in.equals(a, b))
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			panic(pathAbort{"binop operands"})
		}
		_, sg, _ := typeWidth(x.X.Type())
		return in.arith(x.Op, p, q, sg, x.Y.Type())
	case Str:
		q := b.(Str)
		switch x.Op {
		case token.ADD:
			if p.isConcrete() && q.isConcrete() {
				return Str{s: p.s + q.s}
			}
			return mkStr(append(append([]*Term{}, p.terms()...), q.terms()...))
		case token.LSS:
			return in.ctx.Bin(OSlt, in.compareBytes(p.terms(), q.terms()), KInt(0))
		case token.LEQ:
			return in.ctx.Bin(OSle, in.compareBytes(p.terms(), q.terms()), KInt(0))
		case token.GTR:
			return in.ctx.Bin(OSlt, KInt(0), in.compareBytes(p.terms(), q.terms()))
		case token.GEQ:
			return in.ctx.Bin(OSle, KInt(0), in.compareBytes(p.terms(), q.terms()))
		}
	case float64:
		q := b.(float64)
		switch x.Op {
		case token.ADD:
			return p + q
		case token.SUB:
			return p - q
		case token.MUL:
			return p * q
		case token.QUO:
			return p / q
		case token.LSS:
			return KB(p < q)
		case token.LEQ:
			return KB(p <= q)
		case token.GTR:
			return KB(p > q)
		case token.GEQ:
			return KB(p >= q)
		}
	}
	panic(pathAbort{fmt.Sprintf("binop %s on %T in %s", x.Op, a, fr.c.name)})
}

// compareBytes is -1, 0 or 1, deciding byte after byte.
func (in *Interp) compareBytes(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] == b[i] {
			continue
		}
		if in.decide(in.ctx.Bin(OEq, a[i], b[i])) {
			continue
		}
		if in.decide(in.ctx.Bin(OUlt, a[i], b[i])) {
			return KInt(-1)
		}
		return KInt(1)
	}
	switch {
	case len(a) < len(b):
		return KInt(-1)
	case len(a) > len(b):
		return KInt(1)
	}
	return KInt(0)
}

func (in *Interp) arith(op token.Token, a, b *Term, sg bool, bt types.Type) *Term {
	c := in.ctx
	switch op {
	case token.ADD:
		return c.Bin(OAdd, a, b)
	case token.SUB:
		return c.Bin(OSub, a, b)
	case token.MUL:
		return c.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if in.decide(c.Bin(OEq, b, K(b.w, 0))) {
			in.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && sg:
			o = OSDiv
		case op == token.REM && sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return c.Bin(o, a, b)
	case token.AND:
		if a.w == 0 {
			return c.And(a, b)
		}
		return c.Bin(OAnd, a, b)
	case token.OR:
		if a.w == 0 {
			return c.Or(a, b)
		}
		return c.Bin(OOr, a, b)
	case token.XOR:
		return c.Bin(OXor, a, b)
	case token.AND_NOT:
		return c.Bin(OAnd, a, c.Un(ONotB, b))
	case token.SHL, token.SHR:
		_, bs, _ := typeWidth(bt)
		if bs {
			if in.decide(c.Bin(OSlt, b, K(b.w, 0))) {
				in.rtPanic("negative shift amount")
			}
		}
		// the shift amount at the width of a, saturated
		var s *Term
		switch {
		case b.w == a.w:
			s = b
		case b.w < a.w:
			s = c.Conv(b, a.w, false)
		default:
			s = c.Ite(c.Bin(OUlt, b, K(b.w, uint64(a.w))), c.Conv(b, a.w, false), K(a.w, uint64(a.w)))
		}
		if op == token.SHL {
			return c.Bin(OShl, a, s)
		}
		if sg {
			return c.Bin(OAShr, a, s)
		}
		return c.Bin(OLShr, a, s)
	case token.LSS:
		if sg {
			return c.Bin(OSlt, a, b)
		}
		return c.Bin(OUlt, a, b)
	case token.LEQ:
		if sg {
			return c.Bin(OSle, a, b)
		}
		return c.Bin(OUle, a, b)
	case token.GTR:
		if sg {
			return c.Bin(OSlt, b, a)
		}
		return c.Bin(OUlt, b, a)
	case token.GEQ:
		if sg {
			return c.Bin(OSle, b, a)
		}
		return c.Bin(OUle, b, a)
	}
	panic(pathAbort{"arith " + op.String()})
}

// equals is Go's == as a term.
func (in *Interp) equals(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		return in.ctx.Bin(OEq, x, y)
	case Str:
		y := b.(Str)
		if x.length() != y.length() {
			return TFalse
		}
		if x.isConcrete() && y.isConcrete() {
			return KB(x.s == y.s)
		}
		return in.vecEq(x.terms(), y.terms())
	case *Value:
		if y, ok := b.(*Value); ok {
			return KB(x == y)
		}
		return TFalse
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return KB(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return TFalse
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + typeStr(x.t))
		}
		return in.equals(x.v, y.v)
	case Structure:
		y := b.(Structure)
		r := TTrue
		for i := range x {
			r = in.ctx.And(r, in.equals(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		if len(x) > 0 {
			if _, ok := x[0].(*Term); ok && len(x) > 1 && x[0].(*Term).w == 8 {
				return in.vecEq(sliceTerms(Slice(x)), sliceTerms(Slice(y)))
			}
		}
		r := TTrue
		for i := range x {
			r = in.ctx.And(r, in.equals(x[i], y[i]))
		}
		return r
	case Slice:
		y := b.(Slice)
		if x == nil || y == nil {
			return KB(x == nil && y == nil)
		}
		return KB(len(x) == len(y) && cap(x) > 0 && cap(y) > 0 && &x[:1][0] == &y[:1][0])
	case *MapObj:
		return KB(x == b.(*MapObj))
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return KB(x == y)
		}
		return KB(x == nil && isNilFn(b))
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok {
			return KB(x == y)
		}
		return KB(isNilFn(b) && x == nil)
	case float64:
		return KB(x == b.(float64))
	case Opaque:
		y, ok := b.(Opaque)
		return KB(ok && x.x == y.x)
	}
	panic(pathAbort{fmt.Sprintf("== on %T %T", a, b)})
}

func isNilFn(v Value) bool {
	switch f := v.(type) {
	case *Closure:
		return f == nil
	case *ssa.Function:
		return f == nil
	}
	return false
}

func (in *Interp) inRange(ps []uint64, n int) []uint64 {
	var r []uint64
	for _, p := range ps {
		if p < uint64(n) {
			r = append(r, p)
		}
	}
	return r
}

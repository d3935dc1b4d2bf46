package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- maps ----

// keyStr is a canonical text of a concrete key.
func keyStr(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OConst {
			return fmt.Sprintf("i%d", x.k), true
		}
	case Str:
		if x.isConcrete() {
			return fmt.Sprintf("s%d:%s", len(x.s), x.s), true
		}
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		if s, ok := keyStr(x.v); ok {
			return "t" + typeStr(x.t) + ":" + s, true
		}
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case Array:
		r := "a"
		for _, e := range x {
			s, ok := keyStr(e)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r, true
	case Structure:
		r := "{"
		for _, e := range x {
			s, ok := keyStr(e)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r, true
	}
	return "", false
}

// find locates the entry with the key, deciding equalities as needed; -1 if absent.
func (in *Interp) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	ks, conc := keyStr(k)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	// certain hit first
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if c := in.equals(k, e.k); c.isTrue() {
			return i
		} else if v, ok := in.ctx.known(c); ok && v {
			return i
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := keyStr(e.k); c2 {
				continue
			}
		}
		if in.decide(in.equals(k, e.k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapGet(m *MapObj, k Value) (Value, bool) {
	i := in.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.ents[i].v, true
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		in.rtPanicPlain("assignment to entry in nil map")
	}
	if in.noFork > 0 {
		panic(mergeAbort{"map update"})
	}
	if m.frozen {
		in.frozenWrite()
	}
	if i := in.mapFind(m, k); i >= 0 {
		m.ents[i].v = copyVal(v)
		return
	}
	if ks, ok := keyStr(k); ok {
		m.idx[ks] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, mapEntry{k: k, v: copyVal(v)})
	m.live++
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	if in.noFork > 0 {
		panic(mergeAbort{"map delete"})
	}
	if m.frozen {
		in.frozenWrite()
	}
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	e := &m.ents[i]
	e.dead = true
	e.v = nil
	m.live--
	if ks, ok := keyStr(e.k); ok {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
}

type mapIter struct {
	m     *MapObj
	order []int
	pos   int
}

func (in *Interp) mapRange(m *MapObj) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	for i := range m.ents {
		if !m.ents[i].dead {
			it.order = append(it.order, i)
		}
	}
	if in.mapOrd != 0 && len(it.order) >= 2 {
		n := len(it.order)
		sel := 0
		if in.mapOrd > 0 { // one order for the whole path, chosen at the first range that can tell
			if in.mapSel == 0 {
				in.mapSel = 1 + in.choose(in.mapOrd+1)
			}
			sel = in.mapSel - 1
		} else { // an independent choice at every range
			sel = in.choose(1 - in.mapOrd)
		}
		switch sel {
		case 1: // reverse
			for i := 0; i < n/2; i++ {
				it.order[i], it.order[n-1-i] = it.order[n-1-i], it.order[i]
			}
		case 2: // rotation
			it.order = append(append([]int{}, it.order[1:]...), it.order[0])
		}
	}
	return it
}

func (it *mapIter) next(in *Interp, t *types.Tuple) Value {
	for it.pos < len(it.order) {
		e := &it.m.ents[it.order[it.pos]]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{TTrue, e.k, copyVal(e.v)}
	}
	var zk, zv Value = TFalse, TFalse
	if b, ok := t.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = zero(t.At(1).Type())
	}
	if b, ok := t.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = zero(t.At(2).Type())
	}
	return Tuple{TFalse, zk, zv}
}

type strIter struct {
	s   Str
	pos int
}

func (it *strIter) next(in *Interp) Value {
	if it.pos >= it.s.length() {
		return Tuple{TFalse, KInt(0), K(32, 0)}
	}
	if !it.s.isConcrete() {
		t := it.s.at(it.pos)
		if t.op != OConst {
			if !in.decide(in.ctx.Bin(OUlt, t, K(8, 0x80))) {
				panic(pathAbort{"range over symbolic non-ASCII string"})
			}
			p := it.pos
			it.pos++
			return Tuple{TTrue, KInt(p), in.ctx.Conv(t, 32, false)}
		}
		if t.k < 0x80 {
			p := it.pos
			it.pos++
			return Tuple{TTrue, KInt(p), K(32, t.k)}
		}
		panic(pathAbort{"range over symbolic non-ASCII string"})
	}
	r, n := utf8.DecodeRuneInString(it.s.s[it.pos:])
	p := it.pos
	it.pos += n
	return Tuple{TTrue, KInt(p), K(32, uint64(uint32(r)))}
}

func (in *Interp) rtPanicPlain(msg string) {
	panic(targetPanic{v: Iface{t: in.P.rtErrType, v: Str{s: msg}}, site: in.where()})
}

// ---- slices ----

func (in *Interp) intOf(t *Term, why string) int {
	if t.op == OConst {
		return int(sext(t.k, t.w))
	}
	return int(sext(in.concretize(t, 0, why), t.w))
}

func (in *Interp) slice(fr *frame, ci *cinstr, x *ssa.Slice) Value {
	v := in.get(fr, &ci.ops[0])
	oi := 1
	var lo, hi, mx *Term
	get := func(e ssa.Value) *Term {
		if e == nil {
			// Operands() includes nil entries
			oi++
			return nil
		}
		t := in.idx64(in.term(fr, &ci.ops[oi]), e.Type())
		oi++
		return t
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	var base []Value
	isStr := false
	var s Str
	switch c := v.(type) {
	case Slice:
		base = c
	case *Value:
		if c == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*c).(Array)
		if !ok {
			panic(pathAbort{"slice of non-array"})
		}
		base = Slice(a)
	case Str:
		isStr = true
		s = c
	default:
		panic(pathAbort{fmt.Sprintf("slice of %T", v)})
	}
	var ln, cp int
	if isStr {
		ln = s.length()
		cp = ln
	} else {
		ln = len(base)
		cp = cap(base)
	}
	l, h, m := KInt(0), KInt(ln), KInt(cp)
	if lo != nil {
		l = lo
	}
	if hi != nil {
		h = hi
	}
	if mx != nil {
		m = mx
	}
	c := in.ctx
	// unsigned comparisons catch negative values
	if mx != nil && !in.decide(c.Bin(OUle, m, KInt(cp))) {
		in.rtPanic("slice bounds out of range")
	}
	if !in.decide(c.Bin(OUle, h, m)) {
		in.rtPanic("slice bounds out of range")
	}
	if !in.decide(c.Bin(OUle, l, h)) {
		in.rtPanic("slice bounds out of range")
	}
	li, hi2, mi := in.intOf(l, "slice bound"), in.intOf(h, "slice bound"), in.intOf(m, "slice bound")
	if isStr {
		return s.sub(li, hi2)
	}
	if base == nil {
		return Slice(nil)
	}
	return Slice(base[li:hi2:mi])
}

func (in *Interp) makeSlice(fr *frame, ci *cinstr, x *ssa.MakeSlice) Value {
	ln := in.idx64(in.term(fr, &ci.ops[0]), x.Len.Type())
	cp := in.idx64(in.term(fr, &ci.ops[1]), x.Cap.Type())
	mx := in.maxSize
	c := in.ctx
	if in.decide(c.Bin(OUlt, KInt(1<<40), ln)) {
		in.rtPanicPlain("makeslice: len out of range")
	}
	n := int(in.concretize(ln, mx, "make length"))
	k := n
	if cp != ln {
		if in.decide(c.Bin(OUlt, KInt(1<<40), cp)) || in.decide(c.Bin(OUlt, cp, KInt(n))) {
			in.rtPanicPlain("makeslice: cap out of range")
		}
		k = int(in.concretize(cp, mx, "make capacity"))
	}
	if k > 1<<24 {
		panic(pathAbort{"allocation too big"})
	}
	r := make(Slice, k)
	z := zero(x.Type().Underlying().(*types.Slice).Elem())
	switch z.(type) {
	case Structure, Array:
		for i := range r {
			r[i] = copyVal(z)
		}
	default:
		for i := range r {
			r[i] = z
		}
	}
	in.noteSliceAlloc(r)
	return r[:n]
}

func (in *Interp) noteSliceAlloc(r Slice) {
	if in.noFork > 0 && in.arm != nil {
		for i := range r {
			in.arm[&r[i]] = true
		}
	}
}

func (in *Interp) appendVals(dst Slice, add []Value, et types.Type) Slice {
	if len(add) == 0 {
		return dst
	}
	n := len(dst) + len(add)
	if n <= cap(dst) {
		r := dst[:n]
		for i, v := range add {
			p := &r[len(dst)+i]
			in.write(p, copyVal(v))
		}
		return r
	}
	nc := growCap(cap(dst), n, int(stdSizes.Sizeof(et)))
	if nc < n {
		nc = n
	}
	r := make(Slice, n, nc)
	copy(r, dst)
	for i := range dst {
		r[i] = copyVal(dst[i])
	}
	for i, v := range add {
		r[len(dst)+i] = copyVal(v)
	}
	if nc > n {
		full := r[:nc]
		z := zero(et)
		for i := n; i < nc; i++ {
			full[i] = copyVal(z)
		}
	}
	in.noteSliceAlloc(r[:nc])
	return r
}

func asValues(v Value) []Value {
	switch x := v.(type) {
	case Slice:
		return x
	case Str:
		return termsSlice(x.terms())
	}
	panic(pathAbort{fmt.Sprintf("slice expected, got %T", v)})
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, exprs []ssa.Value, rt types.Type) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return KInt(len(x))
		case Str:
			return KInt(x.length())
		case *MapObj:
			if x == nil {
				return KInt(0)
			}
			return KInt(x.live)
		case *ChanObj:
			if x == nil {
				return KInt(0)
			}
			return KInt(len(x.buf))
		case Array:
			return KInt(len(x))
		case *Value:
			return KInt(int(exprs[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return KInt(cap(x))
		case Array:
			return KInt(len(x))
		}
	case "close":
		in.noMergeHere("channel")
		args[0].(*ChanObj).closed = true
		return nil
	case "Sizeof":
		return KInt(int(types.SizesFor("gc", "amd64").Sizeof(exprs[0].Type())))
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst := args[0].(Slice)
		et := exprs[0].Type().Underlying().(*types.Slice).Elem()
		if st, ok := args[1].(Str); ok {
			return in.appendVals(dst, termsSlice(st.terms()), et)
		}
		src := args[1].(Slice)
		if len(src) == 0 {
			return dst
		}
		return in.appendVals(dst, append([]Value{}, src...), et)
	case "copy":
		dst := args[0].(Slice)
		src := asValues(args[1])
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			tmp := append([]Value{}, src[:n]...)
			if in.noFork == 0 && !in.frzOn {
				for i, v := range tmp {
					dst[i] = copyVal(v)
				}
			} else {
				for i, v := range tmp {
					in.write(&dst[i], copyVal(v))
				}
			}
		}
		return KInt(n)
	case "delete":
		in.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "panic":
		panic(targetPanic{v: args[0].(Iface), site: in.where()})
	case "recover":
		if f := in.curPanic; f != nil && f.panick {
			f.panick = false
			return f.pval.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Term), a.(*Term)
			_, sg, _ := typeWidth(exprs[0].Type())
			o := OUlt
			if sg {
				o = OSlt
			}
			c := in.ctx.Bin(o, x, y)
			if b.Name() == "min" {
				r = in.ctx.Ite(c, x, y)
			} else {
				r = in.ctx.Ite(c, y, x)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for i := range x.ents {
					if !x.ents[i].dead {
						in.mapDelete(x, x.ents[i].k)
					}
				}
			}
		case Slice:
			z := zero(exprs[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				in.write(&x[i], copyVal(z))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := in.intOf(args[1].(*Term), "unsafe.String")
		sp, ok := args[0].(*slicePtr)
		if !ok {
			if n == 0 {
				return Str{}
			}
			panic(pathAbort{"unsafe.String"})
		}
		return mkStr(sliceTerms(sp.s[:n]))
	case "SliceData":
		s := args[0].(Slice)
		return &slicePtr{s[:cap(s)]}
	case "StringData":
		return &slicePtr{termsSlice(args[0].(Str).terms())}
	case "Slice":
		n := in.intOf(args[1].(*Term), "unsafe.Slice")
		if sp, ok := args[0].(*slicePtr); ok {
			return Slice(sp.s[:n])
		}
		if n == 0 {
			return Slice{}
		}
	}
	panic(pathAbort{fmt.Sprintf("builtin %s on %T", b.Name(), args[0])})
}

// slicePtr is the result of unsafe.SliceData.
type slicePtr struct{ s Slice }

// ---- conversions ----

func (in *Interp) convert(v Value, from, to types.Type) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if tb, ok := ut.(*types.Basic); ok {
		if w, _, isInt := intWidth(tb); isInt && w > 0 {
			switch x := v.(type) {
			case *Term:
				_, sg, _ := typeWidth(from)
				return in.ctx.Conv(x, w, sg)
			case float64:
				return K(w, uint64(int64(x)))
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Term:
				if x.op == OConst {
					_, sg, _ := typeWidth(from)
					if sg {
						return float64(sext(x.k, x.w))
					}
					return float64(x.k)
				}
				panic(pathAbort{"symbolic float"})
			}
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if et, ok := uf.(*types.Slice).Elem().Underlying().(*types.Basic); ok && et.Kind() == types.Uint8 {
					return mkStr(sliceTerms(x))
				}
				// []rune
				rs := make([]rune, len(x))
				for i, e := range x {
					t := e.(*Term)
					if t.op != OConst {
						panic(pathAbort{"symbolic rune"})
					}
					rs[i] = rune(int32(t.k))
				}
				return Str{s: string(rs)}
			case *Term:
				if x.op == OConst {
					return Str{s: string(rune(sext(x.k, x.w)))}
				}
				if in.decide(in.ctx.Bin(OUlt, x, K(x.w, 0x80))) {
					return mkStr([]*Term{in.ctx.Conv(x, 8, false)})
				}
				panic(pathAbort{"symbolic rune"})
			}
		}
		if tb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			if eb, ok := st.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				r := termsSlice(s.terms())
				// a fresh allocation rounded up to the size class, as the runtime does
				if n := len(r); n > 0 {
					c := roundupsize(n)
					if n <= 32 {
						c = roundupsize(n)
					}
					full := make(Slice, c)
					copy(full, r)
					for i := n; i < c; i++ {
						full[i] = byteConst[0]
					}
					in.noteSliceAlloc(full)
					return full[:n]
				}
				return Slice{}
			}
			if s.isConcrete() {
				var r Slice
				for _, c := range s.s {
					r = append(r, K(32, uint64(uint32(c))))
				}
				return r
			}
		}
		if x, ok := v.(Slice); ok {
			return x
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	panic(pathAbort{fmt.Sprintf("conversion %s -> %s of %T", from, to, v)})
}

// ---- type assertions, methods ----

func (in *Interp) typeAssert(v Iface, x *ssa.TypeAssert) Value {
	at := x.AssertedType
	ok := false
	var r Value
	if it, isI := at.Underlying().(*types.Interface); isI {
		if v.t != nil && in.P.implements(v.t, it) {
			ok = true
			r = v
		} else {
			r = Iface{}
		}
	} else {
		if v.t != nil && types.Identical(v.t, at) {
			ok = true
			r = copyVal(v.v)
		} else if x.CommaOk {
			r = zero(at)
		}
	}
	if x.CommaOk {
		return Tuple{r, KB(ok)}
	}
	if !ok {
		in.rtPanicPlain(fmt.Sprintf("interface conversion: interface is %s, not %s", typeStr(v.t), typeStr(at)))
	}
	return r
}

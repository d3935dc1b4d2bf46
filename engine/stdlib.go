package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stand-ins for more of the standard library: what a rewritten library could use.

func (in *Interp) noMergeHere(what string) {
	if in.noFork > 0 {
		panic(mergeAbort{what})
	}
}

func init() {
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	// what happens under a lock or in a Once is synchronized: not judged by the purity check
	lock := func(in *Interp, a []Value) Value {
		in.noMergeHere("lock")
		in.locks++
		return nil
	}
	unlock := func(in *Interp, a []Value) Value {
		in.noMergeHere("unlock")
		in.locks--
		return nil
	}
	reg(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(in *Interp, a []Value) Value {
		in.noMergeHere("lock")
		in.locks++
		return TTrue
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")

	reg(func(in *Interp, a []Value) Value {
		p := a[0].(*Value)
		in.noMergeHere("once")
		if in.natOnce == nil {
			in.natOnce = map[*Value]bool{}
		}
		if !in.natOnce[p] {
			in.natOnce[p] = true
			in.locks++
			defer func() { in.locks-- }()
			in.call(a[1], nil)
		}
		return nil
	}, "(*sync.Once).Do")

	// a pool gives back what was last put into it; none of it while the purity check runs, where it would be the object of
	// the other goroutine
	isNil := func(f Value) bool {
		switch x := f.(type) {
		case nil:
			return true
		case *Closure:
			return x == nil
		case *ssa.Function:
			return x == nil
		}
		return false
	}
	reg(func(in *Interp, a []Value) Value {
		p := a[0].(*Value)
		in.noMergeHere("pool")
		if s := in.natPool[p]; len(s) > 0 && !in.frzOn {
			v := s[len(s)-1]
			in.natPool[p] = s[:len(s)-1]
			return v
		}
		st := (*p).(Structure)
		f := in.load1(st[len(st)-1])
		if isNil(f) {
			return Iface{}
		}
		return in.call(f, nil)
	}, "(*sync.Pool).Get")
	reg(func(in *Interp, a []Value) Value {
		p := a[0].(*Value)
		in.noMergeHere("pool")
		if i, ok := a[1].(Iface); ok && i.t == nil || in.frzOn {
			return nil
		}
		if in.natPool == nil {
			in.natPool = map[*Value][]Value{}
		}
		in.natPool[p] = append(in.natPool[p], a[1])
		return nil
	}, "(*sync.Pool).Put")

	// sync.Map
	smap := func(in *Interp, p Value) *MapObj {
		in.noMergeHere("sync.Map")
		k := p.(*Value)
		if in.natMap == nil {
			in.natMap = map[*Value]*MapObj{}
		}
		m := in.natMap[k]
		if m == nil {
			m = newMap(types.NewInterfaceType(nil, nil))
			in.natMap[k] = m
		}
		return m
	}
	reg(func(in *Interp, a []Value) Value {
		v, ok := in.mapGet(smap(in, a[0]), a[1])
		if !ok {
			return Tuple{Iface{}, TFalse}
		}
		return Tuple{v, TTrue}
	}, "(*sync.Map).Load")
	reg(func(in *Interp, a []Value) Value { in.mapSet(smap(in, a[0]), a[1], a[2]); return nil }, "(*sync.Map).Store")
	reg(func(in *Interp, a []Value) Value { in.mapDelete(smap(in, a[0]), a[1]); return nil }, "(*sync.Map).Delete")
	reg(func(in *Interp, a []Value) Value {
		m := smap(in, a[0])
		if v, ok := in.mapGet(m, a[1]); ok {
			return Tuple{v, TTrue}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], TFalse}
	}, "(*sync.Map).LoadOrStore")
	reg(func(in *Interp, a []Value) Value {
		m := smap(in, a[0])
		if v, ok := in.mapGet(m, a[1]); ok {
			in.mapDelete(m, a[1])
			return Tuple{v, TTrue}
		}
		return Tuple{Iface{}, TFalse}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(in *Interp, a []Value) Value {
		m := smap(in, a[0])
		for i := 0; i < len(m.ents); i++ {
			e := m.ents[i]
			if e.dead {
				continue
			}
			if !in.decide(in.call(a[1], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")

	// byte search
	index := func(in *Interp, a []Value) Value {
		s, t := Slice(asValues(a[0])), Slice(asValues(a[1]))
		x, y := sliceTerms(s), sliceTerms(t)
		for i := 0; i+len(y) <= len(x); i++ {
			if in.decide(in.vecEq(x[i:i+len(y)], y)) {
				return KInt(i)
			}
		}
		return KInt(-1)
	}
	reg(index, "internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index")

	reg(func(in *Interp, a []Value) Value {
		m, ok := a[0].(Iface)
		if !ok {
			return a[0]
		}
		x, _ := m.v.(*MapObj)
		if x == nil {
			return m
		}
		in.noMergeHere("maps.Clone")
		y := newMap(x.kt)
		for _, e := range x.ents {
			if !e.dead {
				in.mapAppend(y, e.k, e.v)
			}
		}
		return Iface{m.t, y}
	}, "maps.clone")

	// assignTo stores the error in the target if its type allows: the core of errors.As
	reg(func(in *Interp, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		p, ok := t.t.Underlying().(*types.Pointer)
		if !ok || e.t == nil {
			return TFalse
		}
		if it, isI := p.Elem().Underlying().(*types.Interface); isI {
			if !in.P.implements(e.t, it) {
				return TFalse
			}
			in.store(t.v.(*Value), e)
			return TTrue
		}
		if !types.Identical(e.t, p.Elem()) {
			return TFalse
		}
		in.store(t.v.(*Value), copyVal(e.v))
		return TTrue
	}, modPath+"/verifh/shim.assignTo")

	reg(func(in *Interp, a []Value) Value {
		return in.ctx.Ite(in.vecEq(sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice))), KInt(1), KInt(0))
	}, "crypto/subtle.ConstantTimeCompare")
	for n, f := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Log2": math.Log2, "Trunc": math.Trunc, "Round": math.Round, "Log": math.Log} {
		f := f
		reg(func(in *Interp, a []Value) Value { return f(a[0].(float64)) }, "math."+n)
	}
	reg(func(in *Interp, a []Value) Value { return Opaque{reflVal{a[0].(Iface)}} }, "reflect.TypeOf", "internal/reflectlite.TypeOf")
}

func (in *Interp) load1(v Value) Value { return v }

// mapAppend adds an entry whose key is known to be new.
func (in *Interp) mapAppend(m *MapObj, k, v Value) {
	if ks, ok := keyStr(k); ok {
		m.idx[ks] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, mapEntry{k: k, v: copyVal(v)})
	m.live++
}

// symFormat formats with symbolic strings and byte slices in plain %s, %x and %v (strings only) verbs.
func (in *Interp) symFormat(f string, args []Value) (Str, bool) {
	var out []*Term
	n := 0
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, byteConst[s[i]])
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		if i >= len(f) {
			return Str{}, false
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		if n >= len(args) {
			return Str{}, false
		}
		a, ok := args[n].(Iface)
		n++
		if !ok || a.t == nil {
			return Str{}, false
		}
		if _, named := a.t.(*types.Named); named {
			return Str{}, false
		}
		var ts []*Term
		str := false
		switch v := a.v.(type) {
		case Str:
			ts, str = v.terms(), true
		case Slice:
			for _, x := range v {
				t, ok := x.(*Term)
				if !ok || t.w != 8 {
					return Str{}, false
				}
				ts = append(ts, t)
			}
		case *Term:
			if v.op != OConst || f[i] != 'd' && f[i] != 'v' {
				return Str{}, false
			}
			w, sg, _ := typeWidth(a.t)
			if w == 0 {
				return Str{}, false
			}
			if sg {
				lit(fmt.Sprint(sext(v.k, w)))
			} else {
				lit(fmt.Sprint(v.k))
			}
			continue
		default:
			return Str{}, false
		}
		switch {
		case f[i] == 's' || f[i] == 'v' && str:
			out = append(out, ts...)
		case f[i] == 'x':
			nib := func(t *Term) *Term {
				return in.ctx.Bin(OAdd, t, in.ctx.Ite(in.ctx.Bin(OUlt, t, K(8, 10)), K(8, '0'), K(8, 'a'-10)))
			}
			for _, t := range ts {
				out = append(out, nib(in.ctx.Bin(OLShr, t, K(8, 4))), nib(in.ctx.Bin(OAnd, t, K(8, 15))))
			}
		default:
			return Str{}, false
		}
	}
	if n != len(args) || strings.Contains(f, "%!") {
		return Str{}, false
	}
	return mkStr(out), true
}

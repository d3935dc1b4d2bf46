package main

import (
	"fmt"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Str, Slice ([]Value), *Value (pointer), *SymPtr, Structure, Array, *MapObj,
// Iface, *ssa.Function, *Closure, *ssa.Builtin, *NativeFn, Tuple, *mapIter, *strIter, float64, Opaque.
type Value interface{}

type Structure []Value
type Array []Value
type Tuple []Value
type Slice = []Value

// Str is a string: concrete (b == nil) or a sequence of byte terms (b != nil), or computed on demand (gen != nil).
type Str struct {
	s   string
	b   []*Term
	gen *lazyStr
}
type lazyStr struct {
	n   int
	f   func() []*Term
	val []*Term
}

// SymPtr is the address of an element chosen by a symbolic index.
type SymPtr struct {
	elems []Value
	idx   *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn struct {
	name string
	f    func(in *Interp, args []Value) Value
}

type Poison struct{ why string }

// Opaque carries engine-native objects (reflect values, digests, ...).
type Opaque struct{ x interface{} }

type mapEntry struct {
	k    Value
	v    Value
	dead bool
}

// MapObj is a Go map: entries in insertion order, with pairwise different keys on the current path.
type MapObj struct {
	kt     types.Type
	ents   []mapEntry
	idx    map[string]int // concrete keys
	nsym   int            // live or dead entries with symbolic keys
	live   int
	frozen bool
}

func newMap(kt types.Type) *MapObj {
	return &MapObj{kt: kt, idx: map[string]int{}}
}

func (s Str) length() int {
	if s.gen != nil {
		return s.gen.n
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func (s Str) isConcrete() bool { return s.b == nil && s.gen == nil }
func (s Str) at(i int) *Term {
	if s.gen != nil {
		return s.terms()[i]
	}
	if s.b != nil {
		return s.b[i]
	}
	return byteConst[s.s[i]]
}
func (s Str) terms() []*Term {
	if s.gen != nil {
		if s.gen.val == nil {
			s.gen.val = s.gen.f()
		}
		return s.gen.val
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = byteConst[s.s[i]]
	}
	return r
}
func (s Str) sub(lo, hi int) Str {
	if s.gen == nil && s.b == nil {
		return Str{s: s.s[lo:hi]}
	}
	return mkStr(s.terms()[lo:hi])
}

func mkStr(t []*Term) Str {
	for _, x := range t {
		if x.op != OConst {
			return Str{b: append([]*Term{}, t...)}
		}
	}
	b := make([]byte, len(t))
	for i, x := range t {
		b[i] = byte(x.k)
	}
	return Str{s: string(b)}
}

func bytesToSlice(b []byte) Slice {
	r := make(Slice, len(b))
	for i, x := range b {
		r[i] = byteConst[x]
	}
	return r
}

func sliceTerms(s Slice) []*Term {
	r := make([]*Term, len(s))
	for i, x := range s {
		r[i] = x.(*Term)
	}
	return r
}

func termsSlice(t []*Term) Slice {
	r := make(Slice, len(t))
	for i, x := range t {
		r[i] = x
	}
	return r
}

func concBytes(s Slice) ([]byte, bool) {
	r := make([]byte, len(s))
	for i, x := range s {
		t := x.(*Term)
		if t.op != OConst {
			return nil, false
		}
		r[i] = byte(t.k)
	}
	return r, true
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Structure:
		r := make(Structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case Structure, Array:
				for i, x := range v {
					r[i] = copyVal(x)
				}
			default:
				copy(r, v)
			}
		}
		return r
	}
	return v
}

func intWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeWidth(t types.Type) (w uint8, signed bool, ok bool) {
	if b, isB := t.Underlying().(*types.Basic); isB {
		return intWidth(b)
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return K(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return Iface{}
		case types.Complex128, types.Complex64:
			return complex(0, 0)
		}
		panic(pathAbort{"zero: basic " + u.String()})
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Struct:
		r := make(Structure, u.NumFields())
		for i := range r {
			r[i] = zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		r := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Structure, Array:
				r[0] = z
				for i := 1; i < n; i++ {
					r[i] = copyVal(z)
				}
			default:
				for i := range r {
					r[i] = z
				}
			}
		}
		return r
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(pathAbort{fmt.Sprintf("zero: %T %s", t.Underlying(), t)})
}

// ---- append growth, as the Go runtime does it ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		lo, hi := 0, len(sizeClasses)-1
		for lo < hi {
			m := (lo + hi) / 2
			if sizeClasses[m] >= n {
				hi = m
			} else {
				lo = m + 1
			}
		}
		return sizeClasses[lo]
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	if nc == 0 {
		return 0
	}
	if hi, lo := bits.Mul64(uint64(nc), uint64(esz)); hi != 0 || lo > 1<<40 {
		panic(pathAbort{"growslice: too big"})
	}
	return roundupsize(nc*esz) / esz
}

var stdSizes = types.SizesFor("gc", "amd64")

func typeStr(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return types.TypeString(t, nil)
}

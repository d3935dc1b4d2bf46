package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// redirectTable maps functions outside the repository to stand-ins written in Go (package shim).
var redirectTable = map[string]string{
	"fmt.Errorf":                         "Errorf",
	"golang.org/x/xerrors.Errorf":        "Errorf",
	"golang.org/x/xerrors.New":           "NewError",
	"errors.Is":                          "Is",
	"golang.org/x/xerrors.Is":            "Is",
	"errors.As":                          "As",
	"golang.org/x/xerrors.As":            "As",
	"github.com/pkg/errors.As":           "As",
	"errors.Join":                        "Join",
	"github.com/pkg/errors.Is":           "Is",
	"github.com/pkg/errors.New":          "NewError",
	"github.com/pkg/errors.Errorf":       "Errorf",
	"github.com/pkg/errors.Wrap":         "Wrap",
	"github.com/pkg/errors.Wrapf":        "Wrapf",
	"github.com/pkg/errors.WithMessage":  "Wrap",
	"golang.org/x/crypto/blake2b.Sum256": "Sum256",
	"golang.org/x/crypto/blake2b.New":    "NewHash",
	"golang.org/x/crypto/blake2b.New256": "New256",
	"os.Create":                          "Create",
	"os.Open":                            "Open",
	"os.ReadFile":                        "ReadFile",
	"os.WriteFile":                       "WriteFile",
	"os.Remove":                          "Remove",
	"os.Symlink":                         "Symlink",
	"os.Mkdir":                           "Mkdir",
	"(*os.File).Write":                   "FileWrite",
	"(*os.File).Read":                    "FileRead",
	"(*os.File).Close":                   "FileClose",
	"(*os.File).Sync":                    "FileSync",
	"os.OpenFile":                        "OpenFile",
	"(*os.File).WriteString":             "FileWriteString",
}

// redirectK maps functions of kyber and math/big to the stand-ins of package shimk (ideal pairing groups).
var redirectK = map[string]string{
	"go.dedis.ch/kyber/v3/pairing/bn256.NewSuite":         "NewSuite",
	"(*go.dedis.ch/kyber/v3/pairing/bn256.Suite).G1":      "G1",
	"(*go.dedis.ch/kyber/v3/pairing/bn256.Suite).G2":      "G2",
	"(*go.dedis.ch/kyber/v3/pairing/bn256.Suite).GT":      "GT",
	"(*go.dedis.ch/kyber/v3/pairing/bn256.Suite).Pair":    "Pair",
	modPath + "/models/trie_kzg_bn256.GetTrustedSetupBin": "SetupBin",
	"math/big.NewInt":          "BigNew",
	"(*math/big.Int).Set":      "BigSet",
	"(*math/big.Int).SetInt64": "BigSetInt64",
	"(*math/big.Int).Add":      "BigAdd",
	"(*math/big.Int).Sub":      "BigSub",
	"(*math/big.Int).Mul":      "BigMul",
	"(*math/big.Int).Div":      "BigDiv",
	"(*math/big.Int).Cmp":      "BigCmp",
	"(*math/big.Int).Sign":     "BigSign",
	"(*math/big.Int).Bit":      "BigBit",
	"(*math/big.Int).BitLen":   "BigBitLen",
}

// fieldOps: arithmetic of a prime field, for package shimk (elements are below p).
func init() {
	const k = modPath + "/verifh/shimk."
	wid := func(in *Interp, p uint64, t *Term) *Term {
		if p < 16 {
			return in.ctx.Conv(t, 8, false)
		}
		return t
	}
	back := func(in *Interp, p uint64, t *Term) Value {
		t = in.ctx.Bin(OURem, t, K(t.w, p))
		return in.ctx.Conv(t, 64, false)
	}
	intrinsics[k+"fieldMul"] = func(in *Interp, a []Value) Value {
		p, x, y := a[0].(*Term).k, a[1].(*Term), a[2].(*Term)
		if x.op == OConst && y.op == OConst {
			return K(64, x.k*y.k%p)
		}
		return back(in, p, in.ctx.Bin(OMul, wid(in, p, x), wid(in, p, y)))
	}
	intrinsics[k+"fieldAdd"] = func(in *Interp, a []Value) Value {
		p, x, y := a[0].(*Term).k, a[1].(*Term), a[2].(*Term)
		if x.op == OConst && y.op == OConst {
			return K(64, (x.k+y.k)%p)
		}
		return back(in, p, in.ctx.Bin(OAdd, wid(in, p, x), wid(in, p, y)))
	}
	intrinsics[k+"fieldNeg"] = func(in *Interp, a []Value) Value {
		p, x := a[0].(*Term).k, a[1].(*Term)
		if x.op == OConst {
			return K(64, (p-x.k)%p)
		}
		x = wid(in, p, x)
		return back(in, p, in.ctx.Bin(OSub, K(x.w, p), x))
	}
	intrinsics[k+"fieldInv"] = func(in *Interp, a []Value) Value {
		p, x := a[0].(*Term).k, a[1].(*Term)
		inv := func(v uint64) uint64 {
			r, e := uint64(1), p-2
			for v %= p; e > 0; e >>= 1 {
				if e&1 == 1 {
					r = r * v % p
				}
				v = v * v % p
			}
			return r
		}
		if x.op == OConst {
			return K(64, inv(x.k))
		}
		if p >= 16 {
			panic(pathAbort{"inverse of a symbolic element of a big field"})
		}
		r := K(64, 0)
		for v := uint64(1); v < p; v++ {
			if p == 2 {
				return x
			}
			r = in.ctx.Ite(in.ctx.Bin(OEq, x, K(64, v)), K(64, inv(v)), r)
		}
		return r
	}
}

var skipInit = map[string]bool{
	"runtime": true, "unsafe": true, "syscall": true, "internal/poll": true, "internal/cpu": true, "reflect": true,
	"time": true, "net": true,
}

type intrinsic = func(in *Interp, args []Value) Value

var intrinsics = map[string]intrinsic{}

func nop(in *Interp, args []Value) Value { return nil }

func strArg(v Value) string {
	s, ok := v.(Str)
	if !ok || !s.isConcrete() {
		panic(pathAbort{"concrete string expected"})
	}
	return s.s
}

func (in *Interp) input(name string, w uint8) *Term {
	n := in.uniqueName(name)
	t := in.ctx.Var(n, w)
	in.inputs = append(in.inputs, inputVar{name: n, w: w, t: t})
	return t
}

const symP = modPath + "/verifh/sym."

func init() {
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	// ---- harness interface ----
	mkIn := func(w uint8) intrinsic {
		return func(in *Interp, a []Value) Value { return in.input(strArg(a[0]), w) }
	}
	reg(mkIn(8), symP+"Byte")
	reg(mkIn(0), symP+"Bool")
	reg(mkIn(16), symP+"Uint16")
	reg(mkIn(32), symP+"Uint32")
	reg(mkIn(64), symP+"Uint64")
	reg(func(in *Interp, a []Value) Value {
		n := in.uniqueName(strArg(a[0]))
		k := in.choose(in.intOf(a[1].(*Term), "choice"))
		in.inputs = append(in.inputs, inputVar{name: n, v: uint64(k)})
		return KInt(k)
	}, symP+"Choice")
	reg(func(in *Interp, a []Value) Value {
		n := in.intOf(a[1].(*Term), "bytes length")
		name := strArg(a[0])
		r := make(Slice, n)
		for i := range r {
			r[i] = in.input(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		return r
	}, symP+"Bytes")
	reg(func(in *Interp, a []Value) Value { in.assume(a[0].(*Term)); return nil }, symP+"Assume")
	reg(func(in *Interp, a []Value) Value { in.assert(a[0].(*Term), strArg(a[1])); return nil }, symP+"Assert")
	reg(func(in *Interp, a []Value) Value { in.finding(strArg(a[0]), a[1].(*Term)); return nil }, symP+"Finding")
	reg(func(in *Interp, a []Value) Value { in.w.ex.noteCover(in.h, strArg(a[0])); return nil }, symP+"Cover")
	reg(func(in *Interp, a []Value) Value {
		return KB(in.tryCall(a[0]))
	}, symP+"Panics")
	reg(func(in *Interp, a []Value) Value { return KB(in.w.ex.tier == "thorough") }, symP+"Thorough")
	reg(func(in *Interp, a []Value) Value {
		if in.w.ex.tier == "thorough" {
			return a[1]
		}
		return a[0]
	}, symP+"Bound")
	reg(func(in *Interp, a []Value) Value { in.mapOrd = in.intOf(a[0].(*Term), ""); in.mapSel = 0; return nil }, symP+"MapOrder")
	reg(func(in *Interp, a []Value) Value { in.maxSize = uint64(in.intOf(a[0].(*Term), "")); return nil }, symP+"MaxAlloc")
	reg(func(in *Interp, a []Value) Value {
		in.obs = append(in.obs, obsRec{name: strArg(a[0]), vals: sliceTerms(a[1].(Slice)), kind: 'b'})
		return nil
	}, symP+"Observe")
	reg(func(in *Interp, a []Value) Value {
		in.obs = append(in.obs, obsRec{name: strArg(a[0]), vals: []*Term{a[1].(*Term)}, kind: 'i'})
		return nil
	}, symP+"ObserveInt")
	reg(func(in *Interp, a []Value) Value {
		in.obs = append(in.obs, obsRec{name: strArg(a[0]), vals: []*Term{a[1].(*Term)}, kind: 't'})
		return nil
	}, symP+"ObserveBool")
	reg(func(in *Interp, a []Value) Value {
		n := in.intOf(a[1].(*Term), "hash size")
		return termsSlice(in.idealHash(sliceTerms(a[0].(Slice)), n))
	}, symP+"Hash")
	reg(func(in *Interp, a []Value) Value { return TTrue }, symP+"Symbolic")
	reg(func(in *Interp, a []Value) Value {
		in.pure(strArg(a[0]), a[1], a[2])
		return nil
	}, symP+"Pure")

	// ---- formatting: opaque unless everything is concrete and simple ----
	reg(func(in *Interp, a []Value) Value {
		s, ok := in.sprintf(a)
		if !ok {
			if f, ok := a[0].(Str); ok && f.isConcrete() && len(a) > 1 {
				if v, ok := a[1].(Slice); ok {
					if r, ok := in.symFormat(f.s, v); ok {
						return r
					}
				}
			}
			s = "<" + strArgOr(a[0]) + ">"
		}
		return Str{s: s}
	}, "fmt.Sprintf")
	reg(func(in *Interp, a []Value) Value {
		if s, ok := a[0].(Slice); ok && len(s) == 1 {
			if i, ok := s[0].(Iface); ok {
				if st, ok := i.v.(Str); ok {
					if _, named := i.t.(*types.Named); !named {
						return st
					}
				}
			}
		}
		return Str{s: "<sprint>"}
	}, "fmt.Sprint")
	reg(func(in *Interp, a []Value) Value { return Str{s: "<sprint>"} }, "fmt.Sprintln")
	reg(func(in *Interp, a []Value) Value { return Tuple{KInt(0), Iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln")
	reg(func(in *Interp, a []Value) Value {
		src := sliceTerms(a[0].(Slice))
		l := &lazyStr{n: 2 * len(src)}
		l.f = func() []*Term {
			r := make([]*Term, 0, 2*len(src))
			nib := func(t *Term) *Term {
				return in.ctx.Bin(OAdd, t, in.ctx.Ite(in.ctx.Bin(OUlt, t, K(8, 10)), K(8, '0'), K(8, 'a'-10)))
			}
			for _, t := range src {
				r = append(r, nib(in.ctx.Bin(OLShr, t, K(8, 4))), nib(in.ctx.Bin(OAnd, t, K(8, 15))))
			}
			return r
		}
		return Str{gen: l}
	}, "encoding/hex.EncodeToString")

	// ---- bytealg ----
	reg(func(in *Interp, a []Value) Value {
		return in.vecEq(sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice)))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(in *Interp, a []Value) Value {
		return in.compareBytes(sliceTerms(Slice(asValues(a[0]))), sliceTerms(Slice(asValues(a[1]))))
	}, "internal/bytealg.Compare", "bytes.Compare", "internal/bytealg.CompareString", "strings.Compare")
	reg(func(in *Interp, a []Value) Value {
		s := asValues(a[0])
		c := a[1].(*Term)
		for i, x := range s {
			if in.decide(in.ctx.Bin(OEq, x.(*Term), c)) {
				return KInt(i)
			}
		}
		return KInt(-1)
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte")
	reg(func(in *Interp, a []Value) Value {
		s := asValues(a[0])
		c := a[1].(*Term)
		for i := len(s) - 1; i >= 0; i-- {
			if in.decide(in.ctx.Bin(OEq, s[i].(*Term), c)) {
				return KInt(i)
			}
		}
		return KInt(-1)
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(func(in *Interp, a []Value) Value {
		s := asValues(a[0])
		c := a[1].(*Term)
		n := KInt(0)
		for _, x := range s {
			n = in.ctx.Bin(OAdd, n, in.ctx.Ite(in.ctx.Bin(OEq, x.(*Term), c), KInt(1), KInt(0)))
		}
		return n
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(in *Interp, a []Value) Value {
		n := in.intOf(a[0].(*Term), "MakeNoZero")
		r := make(Slice, roundupsize(n))
		for i := range r {
			r[i] = byteConst[0]
		}
		return r[:n]
	}, "internal/bytealg.MakeNoZero")
	reg(nop, "(*strings.Builder).copyCheck")

	// ---- runtime, sync ----
	reg(nop, "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer",
		"runtime.Gosched", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.WaitGroup).Add")
	atomicLoad := func(in *Interp, a []Value) Value { return in.load(a[0].(*Value)) }
	astore := func(in *Interp, p *Value, v Value) {
		in.locks++
		in.store(p, v)
		in.locks--
	}
	atomicStore := func(in *Interp, a []Value) Value { astore(in, a[0].(*Value), a[1]); return nil }
	atomicAdd := func(in *Interp, a []Value) Value {
		p := a[0].(*Value)
		v := in.ctx.Bin(OAdd, in.load(p).(*Term), a[1].(*Term))
		astore(in, p, v)
		return v
	}
	atomicCas := func(in *Interp, a []Value) Value {
		p := a[0].(*Value)
		if in.decide(in.equals(in.load(p), a[1])) {
			astore(in, p, a[2])
			return TTrue
		}
		return TFalse
	}
	atomicSwap := func(in *Interp, a []Value) Value {
		p := a[0].(*Value)
		v := in.load(p)
		astore(in, p, a[1])
		return v
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(atomicLoad, "sync/atomic.Load"+ty, "internal/runtime/atomic.Load"+ty)
		reg(atomicStore, "sync/atomic.Store"+ty)
		reg(atomicAdd, "sync/atomic.Add"+ty)
		reg(atomicCas, "sync/atomic.CompareAndSwap"+ty)
		reg(atomicSwap, "sync/atomic.Swap"+ty)
	}

	// ---- reflect, as far as needed ----
	reg(func(in *Interp, a []Value) Value { return Opaque{reflVal{a[0].(Iface)}} }, "reflect.ValueOf")
	reg(func(in *Interp, a []Value) Value {
		return K(64, uint64(kindOf(a[0].(Opaque).x.(reflVal).v.t)))
	}, "(reflect.Value).Kind")
	reg(func(in *Interp, a []Value) Value {
		rv := a[0].(Opaque).x.(reflVal)
		switch x := rv.v.v.(type) {
		case *Value:
			return KB(x == nil)
		case Slice:
			return KB(x == nil)
		case *MapObj:
			return KB(x == nil)
		case *Closure:
			return KB(x == nil)
		case *ssa.Function:
			return KB(x == nil)
		case Iface:
			return KB(x.t == nil)
		}
		in.rtPanicPlain("reflect: call of reflect.Value.IsNil")
		return nil
	}, "(reflect.Value).IsNil")
	reg(func(in *Interp, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		return &NativeFn{"swapper", func(in *Interp, b []Value) Value {
			i, j := in.intOf(b[0].(*Term), "swap"), in.intOf(b[1].(*Term), "swap")
			x, y := s[i], s[j]
			in.write(&s[i], y)
			in.write(&s[j], x)
			return nil
		}}
	}, "internal/reflectlite.Swapper", "reflect.Swapper")
	reg(func(in *Interp, a []Value) Value {
		return Opaque{reflVal{a[0].(Iface)}}
	}, "internal/reflectlite.ValueOf")
	reg(func(in *Interp, a []Value) Value {
		return KInt(len(a[0].(Opaque).x.(reflVal).v.v.(Slice)))
	}, "(internal/reflectlite.Value).Len", "(reflect.Value).Len")
	reg(func(in *Interp, a []Value) Value {
		return in.deepEqual(a[0], a[1])
	}, "reflect.DeepEqual")
	// ---- math/bits on concrete values ----
	reg(func(in *Interp, a []Value) Value {
		t := a[0].(*Term)
		if t.op == OConst {
			return KInt(bits.Len64(t.k))
		}
		r := KInt(0)
		for i := 0; i < int(t.w); i++ {
			r = in.ctx.Ite(in.ctx.Bin(OUle, K(t.w, 1<<uint(i)), t), KInt(i+1), r)
		}
		return r
	}, "math/bits.Len64", "math/bits.Len", "math/bits.Len32", "math/bits.Len16", "math/bits.Len8")
	reg(func(in *Interp, a []Value) Value { // a fixed time in UTC (wall, ext, loc)
		return Structure{K(64, 0), K(64, 63900000000), (*Value)(nil)}
	}, "time.Now")
}

type reflVal struct{ v Iface }

func kindOf(t types.Type) int {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func strArgOr(v Value) string {
	if s, ok := v.(Str); ok && s.isConcrete() {
		return s.s
	}
	return "?"
}

func intrinsicByPattern(fn *ssa.Function, name string) intrinsic {
	switch {
	case strings.HasPrefix(name, "internal/race."), strings.HasPrefix(name, "internal/asan."), strings.HasPrefix(name, "internal/msan."):
		return nop
	case name == "slices.overlaps":
		return func(in *Interp, a []Value) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			for i := range x {
				for j := range y {
					if &x[i] == &y[j] {
						return TTrue
					}
				}
			}
			return TFalse
		}
	}
	return nil
}

// sprintf formats natively when all arguments are concrete scalars, strings or byte slices.
func (in *Interp) sprintf(a []Value) (string, bool) {
	f, ok := a[0].(Str)
	if !ok || !f.isConcrete() {
		return "", false
	}
	var args []interface{}
	if len(a) > 1 {
		s, ok := a[1].(Slice)
		if !ok {
			return "", false
		}
		for _, x := range s {
			i, ok := x.(Iface)
			if !ok {
				return "", false
			}
			if i.t == nil {
				args = append(args, nil)
				continue
			}
			if _, named := i.t.(*types.Named); named {
				return "", false
			}
			switch v := i.v.(type) {
			case *Term:
				if v.op != OConst {
					return "", false
				}
				w, sg, _ := typeWidth(i.t)
				switch {
				case w == 0:
					args = append(args, v.k == 1)
				case sg:
					args = append(args, sext(v.k, w))
				default:
					args = append(args, v.k)
				}
			case Str:
				if !v.isConcrete() {
					return "", false
				}
				args = append(args, v.s)
			case Slice:
				if len(v) > 0 {
					if _, ok := v[0].(*Term); !ok {
						return "", false
					}
				}
				b, ok := concBytes(v)
				if !ok {
					return "", false
				}
				args = append(args, b)
			default:
				return "", false
			}
		}
	}
	return fmt.Sprintf(f.s, args...), true
}

// tryCall runs f and reports whether it panicked.
func (in *Interp) tryCall(f Value) (panicked bool) {
	depth, nst := in.depth, len(in.stack)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(targetPanic); !ok {
				panic(r)
			}
			in.depth, in.stack = depth, in.stack[:nst]
			panicked = true
		}
	}()
	in.call(f, nil)
	return false
}

func (in *Interp) deepEqual(a, b Value) *Term {
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return KB(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return TFalse
		}
		return in.deepEqual(x.v, y.v)
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return TFalse
		}
		r := TTrue
		for i := range x {
			r = in.ctx.And(r, in.deepEqual(x[i], y[i]))
		}
		return r
	case Structure:
		y := b.(Structure)
		r := TTrue
		for i := range x {
			r = in.ctx.And(r, in.deepEqual(x[i], y[i]))
		}
		return r
	case Array:
		return in.deepEqual(Slice(x), Slice(b.(Array)))
	case *Value:
		y := b.(*Value)
		if x == y {
			return TTrue
		}
		if x == nil || y == nil {
			return TFalse
		}
		return in.deepEqual(*x, *y)
	case *MapObj:
		y := b.(*MapObj)
		if (x == nil) != (y == nil) {
			return TFalse
		}
		if x == nil || x == y {
			return TTrue
		}
		if x.live != y.live {
			return TFalse
		}
		r := TTrue
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			v, ok := in.mapGet(y, e.k)
			if !ok {
				return TFalse
			}
			r = in.ctx.And(r, in.deepEqual(e.v, v))
		}
		return r
	}
	return in.equals(a, b)
}

// ---- purity: writes to memory that existed before ----

func (in *Interp) frozenWrite() {
	if !in.frzOn || in.locks > 0 {
		return
	}
	in.frzHit = in.where()
}

func (in *Interp) pure(label string, f Value, roots Value) {
	frozen := map[*Value]bool{}
	maps := []*MapObj{}
	seenM := map[*MapObj]bool{}
	var walk func(v Value, d int)
	cell := func(p *Value, d int) {
		if p == nil || frozen[p] {
			return
		}
		frozen[p] = true
		walk(*p, d+1)
	}
	seenC := map[*Closure]bool{}
	walk = func(v Value, d int) {
		switch x := v.(type) {
		case *Value:
			cell(x, d)
		case Slice:
			full := x[:cap(x)]
			for i := range full {
				cell(&full[i], d)
			}
		case Structure:
			for i := range x {
				cell(&x[i], d)
			}
		case Array:
			for i := range x {
				cell(&x[i], d)
			}
		case Iface:
			walk(x.v, d+1)
		case *Closure:
			if x != nil && !seenC[x] {
				seenC[x] = true
				for _, e := range x.env {
					walk(e, d+1)
				}
			}
		case *MapObj:
			if x == nil || seenM[x] {
				return
			}
			seenM[x] = true
			maps = append(maps, x)
			for i := range x.ents {
				if !x.ents[i].dead {
					walk(x.ents[i].k, d+1)
					walk(x.ents[i].v, d+1)
				}
			}
		}
	}
	walk(f, 0)
	walk(roots, 0)
	for g, p := range in.globals {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && !strings.Contains(g.Pkg.Pkg.Path(), "/verifh/") {
			cell(p, 0)
		}
	}
	for _, m := range maps {
		m.frozen = true
	}
	in.frozen, in.frzOn, in.frzHit = frozen, true, ""
	defer func() {
		in.frzOn = false
		for _, m := range maps {
			m.frozen = false
		}
	}()
	in.call(f, nil)
	in.frzOn = false
	if in.frzHit != "" {
		in.w.ex.noteAssert(in.h, label)
		in.violation(label+" (write at "+in.frzHit+")", in.model, nil)
	} else {
		in.w.ex.noteAssert(in.h, label)
	}
}

func sortedKeys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// finding: a case which is a listed known finding is reported and excluded.
func (in *Interp) finding(id string, c *Term) {
	if !in.w.ex.knownFinding(id) {
		in.assert(in.ctx.Not(c), "finding "+id)
		return
	}
	if c.isFalse() {
		return
	}
	if in.noFork > 0 {
		panic(mergeAbort{"finding"})
	}
	if in.live() {
		if !in.w.ex.findingSeen(id) {
			r, m := rSat, in.model
			if in.eval(c) != 1 {
				r, m = in.check(c)
			}
			if r == rSat {
				in.w.ex.candidateFinding(in, id, m, c)
			}
		}
	}
	in.assume(in.ctx.Not(c))
}

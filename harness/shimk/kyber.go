// Package shimk holds the stand-ins for kyber's bn256 suite: ideal pairing groups of prime order. A group element is its
// discrete logarithm, a pairing is a product. A scalar is a constant of the field plus a linear combination of atoms;
// an atom is what a digest becomes in the field. Atoms are algebraically independent and equal exactly if their digests
// are equal, serialization of elements is injective: the random-oracle and generic-group abstraction.
package shimk

import (
	"bytes"
	"crypto/cipher"
	"errors"
	"fmt"
	"io"
	"math/big"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

// bigP is 1 modulo 5743, as is the order of the real groups.
const bigP = 2147479991

var prime uint64 = bigP

// Small selects a field of a small prime order (below 16); 0 selects the big one.
func Small(p uint64) {
	if p == 0 {
		p = bigP
	}
	prime = p
}

// FieldOrder is the order of the current field (meaningful under the executor only).
func FieldOrder() uint64 { return prime }

// intercepted by the executor
func fieldMul(p, a, b uint64) uint64 { return a * b % p }
func fieldAdd(p, a, b uint64) uint64 { return (a + b) % p }
func fieldNeg(p, a uint64) uint64    { return (p - a) % p }
func fieldInv(p, a uint64) uint64    { panic("not reached") } // the inverse of zero is zero

func addP(a, b uint64) uint64 { return fieldAdd(prime, a, b) }
func negP(a uint64) uint64    { return fieldNeg(prime, a) }
func mulP(a, b uint64) uint64 { return fieldMul(prime, a, b) }
func invP(a uint64) uint64    { return fieldInv(prime, a) }

// ---- linear forms ----

type mono struct {
	atom int
	k    uint64
}

type form struct {
	c uint64
	a []mono
}

func fAdd(x, y form) form {
	c := addP(x.c, y.c)
	if len(y.a) == 0 {
		return form{c, x.a}
	}
	if len(x.a) == 0 {
		return form{c, y.a}
	}
	var r []mono
	i, j := 0, 0
	for i < len(x.a) || j < len(y.a) {
		switch {
		case j >= len(y.a) || i < len(x.a) && x.a[i].atom < y.a[j].atom:
			r = append(r, x.a[i])
			i++
		case i >= len(x.a) || y.a[j].atom < x.a[i].atom:
			r = append(r, y.a[j])
			j++
		default:
			if k := addP(x.a[i].k, y.a[j].k); k != 0 {
				r = append(r, mono{x.a[i].atom, k})
			}
			i++
			j++
		}
	}
	return form{c, r}
}

func fScale(x form, k uint64) form {
	if len(x.a) == 0 {
		return form{mulP(x.c, k), nil}
	}
	if k == 0 {
		return form{}
	}
	if k == 1 {
		return x
	}
	r := make([]mono, len(x.a))
	for i := range r {
		r[i] = mono{x.a[i].atom, mulP(x.a[i].k, k)}
	}
	return form{mulP(x.c, k), r}
}

func fNeg(x form) form {
	if len(x.a) == 0 {
		return form{negP(x.c), nil}
	}
	return fScale(x, prime-1)
}

func fMul(x, y form) form {
	if len(y.a) == 0 {
		return fScale(x, y.c)
	}
	if len(x.a) == 0 {
		return fScale(y, x.c)
	}
	panic("product of two digests: not modelled")
}

// fEq: digests are independent, so their coefficients must vanish; what is left is an equation over the variables.
func fEq(x, y form) bool {
	if len(x.a) == 0 && len(y.a) == 0 {
		return x.c == y.c
	}
	d := fAdd(x, fNeg(y))
	for _, m := range d.a {
		if m.atom >= 0 {
			return false
		}
	}
	val := func(i int) uint64 { return vars[-1-d.a[i].atom] }
	switch {
	case len(d.a) == 0:
		return d.c == 0
	case len(d.a) == 1: // k*x + c = 0
		return val(0) == mulP(negP(d.c), invP(d.a[0].k))
	case len(d.a) == 2 && d.c == 0 && addP(d.a[0].k, d.a[1].k) == 0: // k*x - k*y = 0
		return val(0) == val(1)
	case prime < 16:
		s := uint16(d.c)
		for _, m := range d.a {
			s += uint16(m.k) * uint16(vars[-1-m.atom])
		}
		return s%uint16(prime) == 0
	}
	s := d.c
	for _, m := range d.a {
		s = (s + m.k*vars[-1-m.atom]) % prime
	}
	return s == 0
}

// ---- registries ----

var (
	vars    []uint64 // atom -1-i
	digests [][]byte // atom i
	forms   []form
)

// AsVar makes a scalar with a symbolic value a variable of its own, so that what is computed from it stays a linear form.
// It leaves the scalars of the real groups alone.
func AsVar(s kyber.Scalar) kyber.Scalar {
	x, ok := s.(*scalar)
	if !ok {
		return s
	}
	vars = append(vars, x.v.c)
	return &scalar{form{0, []mono{{-len(vars), 1}}}}
}

func atomOf(b []byte) form {
	for i := range digests {
		if bytes.Equal(digests[i], b) {
			return form{0, []mono{{i, 1}}}
		}
	}
	digests = append(digests, append([]byte{}, b...))
	return form{0, []mono{{len(digests) - 1, 1}}}
}

func formID(f form) int {
	for i := range forms {
		if fEq(forms[i], f) {
			return i
		}
	}
	forms = append(forms, f)
	return len(forms) - 1
}

func encode(f form, size int) []byte {
	b := make([]byte, size)
	c := f.c
	if len(f.a) > 0 {
		b[0] = 0xA0
		c = uint64(formID(f))
	}
	b[size-1], b[size-2], b[size-3], b[size-4] = byte(c), byte(c>>8), byte(c>>16), byte(c>>24)
	return b
}

var errDecode = errors.New("not an element of the group")

func decode(b []byte) (form, error) {
	n := len(b)
	z := byte(0)
	for _, x := range b[1 : n-4] {
		z |= x
	}
	c := uint64(b[n-1]) | uint64(b[n-2])<<8 | uint64(b[n-3])<<16 | uint64(b[n-4])<<24
	if z != 0 {
		return form{}, errDecode
	}
	switch b[0] {
	case 0:
		if c >= prime {
			return form{}, errDecode
		}
		return form{c, nil}, nil
	case 0xA0:
		for i := range forms {
			if c == uint64(i) {
				return forms[i], nil
			}
		}
	}
	return form{}, errDecode
}

// ---- kyber.Scalar ----

type scalar struct{ v form }

const scalarSize = 32

func (s *scalar) Equal(o kyber.Scalar) bool       { return fEq(s.v, o.(*scalar).v) }
func (s *scalar) Set(a kyber.Scalar) kyber.Scalar { s.v = a.(*scalar).v; return s }
func (s *scalar) Clone() kyber.Scalar             { return &scalar{s.v} }
func (s *scalar) Zero() kyber.Scalar              { s.v = form{}; return s }
func (s *scalar) One() kyber.Scalar               { s.v = form{c: 1}; return s }
func (s *scalar) Add(a, b kyber.Scalar) kyber.Scalar {
	s.v = fAdd(a.(*scalar).v, b.(*scalar).v)
	return s
}
func (s *scalar) Neg(a kyber.Scalar) kyber.Scalar { s.v = fNeg(a.(*scalar).v); return s }
func (s *scalar) Pick(cipher.Stream) kyber.Scalar { panic("random scalar: not modelled") }
func (s *scalar) String() string {
	return "00000000000000000000000000000000000000000000000000000000000000"
}
func (s *scalar) MarshalSize() int                   { return scalarSize }
func (s *scalar) MarshalBinary() ([]byte, error)     { return encode(s.v, scalarSize), nil }
func (s *scalar) MarshalTo(w io.Writer) (int, error) { return w.Write(encode(s.v, scalarSize)) }
func (s *scalar) Sub(a, b kyber.Scalar) kyber.Scalar {
	s.v = fAdd(a.(*scalar).v, fNeg(b.(*scalar).v))
	return s
}
func (s *scalar) Mul(a, b kyber.Scalar) kyber.Scalar {
	s.v = fMul(a.(*scalar).v, b.(*scalar).v)
	return s
}
func (s *scalar) Div(a, b kyber.Scalar) kyber.Scalar {
	d := b.(*scalar).v
	if len(d.a) > 0 {
		panic("division by a digest: not modelled")
	}
	s.v = fScale(a.(*scalar).v, invP(d.c))
	return s
}
func (s *scalar) Inv(a kyber.Scalar) kyber.Scalar {
	d := a.(*scalar).v
	if len(d.a) > 0 {
		panic("inverse of a digest: not modelled")
	}
	s.v = form{c: invP(d.c)}
	return s
}
func (s *scalar) SetInt64(v int64) kyber.Scalar {
	if v < 0 {
		s.v = form{c: negP(uint64(-v) % prime)}
	} else if prime < 16 && v < 256 {
		s.v = form{c: uint64(uint8(v) % uint8(prime))}
	} else {
		s.v = form{c: uint64(v) % prime}
	}
	return s
}
func (s *scalar) SetBytes(b []byte) kyber.Scalar {
	if prime < 16 {
		s.v = form{c: uint64(b[len(b)-1] % uint8(prime))}
	} else {
		s.v = atomOf(b)
	}
	return s
}
func (s *scalar) UnmarshalBinary(b []byte) error {
	if len(b) != scalarSize {
		return errDecode
	}
	f, err := decode(b)
	if err == nil {
		s.v = f
	}
	return err
}
func (s *scalar) UnmarshalFrom(r io.Reader) (int, error) {
	b := make([]byte, scalarSize)
	n, err := io.ReadFull(r, b)
	if err != nil {
		return n, err
	}
	return n, s.UnmarshalBinary(b)
}

// ---- kyber.Point ----

type point struct {
	v form
	g byte
}

func (p *point) of(o kyber.Point) form {
	x := o.(*point)
	if x.g != p.g {
		panic("points of different groups")
	}
	return x.v
}

func (p *point) size() int {
	if p.g == 2 {
		return 16
	}
	return 64
}

func (p *point) Equal(o kyber.Point) bool                { return fEq(p.v, p.of(o)) }
func (p *point) Null() kyber.Point                       { p.v = form{}; return p }
func (p *point) Base() kyber.Point                       { p.v = form{c: 1}; return p }
func (p *point) Pick(cipher.Stream) kyber.Point          { panic("random point: not modelled") }
func (p *point) Set(o kyber.Point) kyber.Point           { p.v = p.of(o); return p }
func (p *point) Clone() kyber.Point                      { return &point{p.v, p.g} }
func (p *point) EmbedLen() int                           { panic("not modelled") }
func (p *point) Data() ([]byte, error)                   { panic("not modelled") }
func (p *point) Add(a, b kyber.Point) kyber.Point        { p.v = fAdd(p.of(a), p.of(b)); return p }
func (p *point) Sub(a, b kyber.Point) kyber.Point        { p.v = fAdd(p.of(a), fNeg(p.of(b))); return p }
func (p *point) Neg(a kyber.Point) kyber.Point           { p.v = fNeg(p.of(a)); return p }
func (p *point) String() string                          { return "point" }
func (p *point) MarshalSize() int                        { return p.size() }
func (p *point) MarshalBinary() ([]byte, error)          { return encode(p.v, p.size()), nil }
func (p *point) MarshalTo(w io.Writer) (int, error)      { return w.Write(encode(p.v, p.size())) }
func (p *point) Embed([]byte, cipher.Stream) kyber.Point { panic("not modelled") }
func (p *point) Mul(s kyber.Scalar, q kyber.Point) kyber.Point {
	b := form{c: 1}
	if q != nil {
		b = p.of(q)
	}
	p.v = fMul(b, s.(*scalar).v)
	return p
}
func (p *point) UnmarshalBinary(b []byte) error {
	if len(b) < p.size() {
		return errDecode
	}
	f, err := decode(b[:p.size()])
	if err == nil {
		p.v = f
	}
	return err
}
func (p *point) UnmarshalFrom(r io.Reader) (int, error) {
	b := make([]byte, p.size())
	n, err := io.ReadFull(r, b)
	if err != nil {
		return n, err
	}
	return n, p.UnmarshalBinary(b)
}

type group struct{ g byte }

func (g *group) String() string       { return "ideal group" }
func (g *group) ScalarLen() int       { return scalarSize }
func (g *group) PointLen() int        { return (&point{g: g.g}).size() }
func (g *group) Scalar() kyber.Scalar { return &scalar{} }
func (g *group) Point() kyber.Point   { return &point{g: g.g} }

func NewSuite() *bn256.Suite      { return new(bn256.Suite) }
func G1(*bn256.Suite) kyber.Group { return &group{1} }
func G2(*bn256.Suite) kyber.Group { return &group{2} }
func GT(*bn256.Suite) kyber.Group { return &group{3} }
func Pair(_ *bn256.Suite, a, b kyber.Point) kyber.Point {
	x, y := a.(*point), b.(*point)
	if x.g != 1 || y.g != 2 {
		panic(fmt.Sprint("pairing of points of the wrong groups"))
	}
	return &point{fMul(x.v, y.v), 3}
}

// ---- math/big: numbers up to 63 bits, nil is the (bigger) order of the real field ----

type bigVal struct {
	v    int64
	huge bool
}

var bigs map[*big.Int]bigVal

func bigGet(x *big.Int) bigVal {
	if x == nil {
		return bigVal{huge: true}
	}
	return bigs[x]
}
func bigPut(x *big.Int, v bigVal) *big.Int {
	if bigs == nil {
		bigs = map[*big.Int]bigVal{}
	}
	bigs[x] = v
	return x
}
func BigNew(v int64) *big.Int                  { return bigPut(new(big.Int), bigVal{v: v}) }
func BigSetInt64(z *big.Int, v int64) *big.Int { return bigPut(z, bigVal{v: v}) }
func BigSet(z, x *big.Int) *big.Int            { return bigPut(z, bigGet(x)) }
func big2(z, x, y *big.Int, f func(a, b int64) int64) *big.Int {
	a, b := bigGet(x), bigGet(y)
	if a.huge || b.huge {
		return bigPut(z, bigVal{huge: true})
	}
	return bigPut(z, bigVal{v: f(a.v, b.v)})
}
func BigAdd(z, x, y *big.Int) *big.Int { return big2(z, x, y, func(a, b int64) int64 { return a + b }) }
func BigSub(z, x, y *big.Int) *big.Int { return big2(z, x, y, func(a, b int64) int64 { return a - b }) }
func BigMul(z, x, y *big.Int) *big.Int { return big2(z, x, y, func(a, b int64) int64 { return a * b }) }
func BigDiv(z, x, y *big.Int) *big.Int { return big2(z, x, y, func(a, b int64) int64 { return a / b }) }
func bigSmall(x *big.Int) int64 {
	v := bigGet(x)
	if v.huge {
		panic("number of more than 63 bits: not modelled")
	}
	return v.v
}
func BigCmp(x, y *big.Int) int {
	a, b := bigSmall(x), bigSmall(y)
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}
func BigSign(x *big.Int) int {
	a := bigSmall(x)
	switch {
	case a < 0:
		return -1
	case a > 0:
		return 1
	}
	return 0
}
func BigBit(x *big.Int, i int) uint { return uint(bigSmall(x)>>uint(i)) & 1 }
func BigBitLen(x *big.Int) int {
	n := 0
	for v := bigSmall(x); v > 0; v >>= 1 {
		n++
	}
	return n
}

package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are bit-vector (w>0) or boolean (w==0) expressions, hash-consed per path context.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONotB // bitwise not
	ONeg
	OShl
	OLShr
	OAShr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OZExt
	OSExt
	OTrunc
)

var opName = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "=", "bvult", "bvule", "bvslt", "bvsle", "and", "or", "not", "ite", "zext", "sext", "trunc"}

type Term struct {
	op      Op
	w       uint8
	k       uint64 // constant value
	a, b, c *Term
	name    string
	id      int32    // per-context id of non-constants
	h       *hashApp // set for the output bytes of an ideal hash application
	hi      int32
	sv      *Term // the only variable the term depends on (of at most 8 bits); svMany if there are more
	tt      *[256]uint64
}

var svMany = &Term{op: OVar}

func joinSV(a, b *Term) *Term {
	if b == nil {
		return a
	}
	if b.op == OConst {
		return a
	}
	if a == nil || a == b.sv {
		return b.sv
	}
	return svMany
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

var byteConst [256]*Term
var smallConst [65]*[256]*Term
var TTrue = &Term{op: OConst, w: 0, k: 1}
var TFalse = &Term{op: OConst, w: 0, k: 0}

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		var tab [256]*Term
		for i := range tab {
			tab[i] = &Term{op: OConst, w: uint8(w), k: uint64(i)}
		}
		smallConst[w] = &tab
		if w == 8 {
			byteConst = tab
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func K(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 != 0 {
			return TTrue
		}
		return TFalse
	}
	v &= mask(w)
	if v < 256 {
		if t := smallConst[w]; t != nil {
			return t[v]
		}
	}
	return &Term{op: OConst, w: w, k: v}
}
func KB(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func KInt(v int) *Term { return K(64, uint64(int64(v))) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint64
}

// Ctx hash-conses the non-constant terms of one path.
type Ctx struct {
	tab  map[tkey]*Term
	vars []*Term
	n    int32
	// facts
	facts map[*Term]bool
	uf    map[*Term]*Term // parent links (no path compression: undoable)
	diseq map[[2]*Term]struct{}
	trail []func()
	dom   map[*Term]bset
	pv    map[*Term][]uint64
	inTr  int // >0: record undo
}

func newCtx() *Ctx {
	return &Ctx{tab: map[tkey]*Term{}, facts: map[*Term]bool{}, uf: map[*Term]*Term{}, diseq: map[[2]*Term]struct{}{}, dom: map[*Term]bset{}, pv: map[*Term][]uint64{}}
}

func kid(t *Term) uint64 {
	if t == nil {
		return 0
	}
	if t.op == OConst {
		// constants: tag with high bit; the width is implied by the operator except for zext etc., where w is in the key
		return 1<<63 ^ (t.k*2654435761 + t.k>>40) ^ uint64(t.w)<<56
	}
	return uint64(t.id) + 1
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a != nil && b != nil && a.op == OConst && b.op == OConst && a.w == b.w && a.k == b.k
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Term) *Term {
	k := tkey{op, w, kid(a), kid(b), kid(d)}
	if t := c.tab[k]; t != nil {
		if same(t.a, a) && same(t.b, b) && same(t.c, d) {
			return t
		}
		// hash collision of constants: make an un-consed term
		c.n++
		t := &Term{op: op, w: w, a: a, b: b, c: d, id: c.n}
		t.sv = joinSV(joinSV(joinSV(nil, a), b), d)
		return t
	}
	c.n++
	t := &Term{op: op, w: w, a: a, b: b, c: d, id: c.n}
	t.sv = joinSV(joinSV(joinSV(nil, a), b), d)
	c.tab[k] = t
	return t
}

func (c *Ctx) Var(name string, w uint8) *Term {
	c.n++
	t := &Term{op: OVar, w: w, name: name, id: c.n}
	c.vars = append(c.vars, t)
	if w <= 8 {
		t.sv = t
	} else {
		t.sv = svMany
	}
	return t
}

func evalOp(op Op, w uint8, a, b, d uint64, aw uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONotB:
		return ^a & m
	case ONeg:
		return -a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return a ^ 1
	case OIte:
		if a != 0 {
			return b
		}
		return d
	case OZExt:
		return a
	case OSExt:
		return uint64(sext(a, aw)) & m
	case OTrunc:
		return a & m
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle:
		w = 0
	}
	if a.op == OConst && b.op == OConst {
		return K(w, evalOp(op, w, a.k, b.k, 0, a.w))
	}
	m := mask(a.w)
	switch op {
	case OAdd:
		if b.isConst() && b.k == 0 {
			return a
		}
		if a.isConst() {
			if a.k == 0 {
				return b
			}
			a, b = b, a
		}
		if b.isConst() && a.op == OAdd && a.b.isConst() {
			return c.Bin(OAdd, a.a, K(w, a.b.k+b.k))
		}
	case OSub:
		if b.isConst() {
			return c.Bin(OAdd, a, K(w, -b.k))
		}
		if a == b {
			return K(w, 0)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.Bin(OShl, a, K(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && bits.OnesCount64(b.k) == 1 {
			return c.Bin(OLShr, a, K(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OURem:
		if b.isConst() && bits.OnesCount64(b.k) == 1 {
			return c.Bin(OAnd, a, K(w, b.k-1))
		}
	case OSDiv, OSRem:
		// non-negative operands with a power-of-two divisor: same as unsigned
		if b.isConst() && sext(b.k, w) > 0 && c.nonNeg(a) {
			if op == OSDiv {
				return c.Bin(OUDiv, a, b)
			}
			return c.Bin(OURem, a, b)
		}
	case OAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if a.op == OAnd && a.b.isConst() {
				return c.Bin(OAnd, a.a, K(w, a.b.k&b.k))
			}
			if a.op == OZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
		if a == b {
			return a
		}
	case OXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			return K(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && b.k >= uint64(w) && op != OAShr {
			return K(w, 0)
		}
		if op == OLShr && b.isConst() && a.op == OZExt && b.k >= uint64(a.a.w) {
			return K(w, 0)
		}
		if op == OLShr && b.isConst() && a.op == OShl && a.b.isConst() && a.b.k == b.k {
			return c.Bin(OAnd, a.a, K(w, m>>b.k))
		}
	case OEq:
		if a == b {
			return TTrue
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if a.w == 0 {
				if b.k == 1 {
					return a
				}
				return c.Not(a)
			}
			switch a.op {
			case OIte:
				bc, cc := a.b.isConst(), a.c.isConst()
				if bc && cc {
					e1, e2 := a.b.k == b.k, a.c.k == b.k
					switch {
					case e1 && e2:
						return TTrue
					case e1:
						return a.a
					case e2:
						return c.Not(a.a)
					default:
						return TFalse
					}
				}
				if bc && a.b.k != b.k {
					return c.And(c.Not(a.a), c.Bin(OEq, a.c, b))
				}
				if cc && a.c.k != b.k {
					return c.And(a.a, c.Bin(OEq, a.b, b))
				}
				if bc {
					return c.Or(a.a, c.Bin(OEq, a.c, b))
				}
				if cc {
					return c.Or(c.Not(a.a), c.Bin(OEq, a.b, b))
				}
			case OZExt:
				if b.k > mask(a.a.w) {
					return TFalse
				}
				return c.Bin(OEq, a.a, K(a.a.w, b.k))
			case OAdd:
				if a.b.isConst() {
					return c.Bin(OEq, a.a, K(a.w, b.k-a.b.k))
				}
			case OXor:
				if a.b.isConst() {
					return c.Bin(OEq, a.a, K(a.w, b.k^a.b.k))
				}
			case OAnd:
				if a.b.isConst() && b.k&^a.b.k != 0 {
					return TFalse
				}
				// single-bit masks: x&m == m  <=>  not (x&m == 0)
				if a.b.isConst() && b.k != 0 && bits.OnesCount64(a.b.k) == 1 {
					return c.Not(c.Bin(OEq, a, K(a.w, 0)))
				}
			}
		} else {
			if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
				return c.Bin(OEq, a.a, b.a)
			}
			if a.op == OIte && b.op == OIte && a.b.isConst() && a.c.isConst() && b.b.isConst() && b.c.isConst() {
				if same(a.b, b.b) && same(a.c, b.c) && !same(a.b, a.c) {
					return c.Bin(OEq, a.a, b.a)
				}
			}
		}
		if b.op != OConst && a.id > b.id {
			a, b = b, a
		}
	case OUlt:
		if a == b {
			return TFalse
		}
		if b.isConst() && b.k == 0 {
			return TFalse
		}
		if a.isConst() && a.k == m {
			return TFalse
		}
		if b.isConst() && c.umax(a) < b.k {
			return TTrue
		}
		if a.isConst() && a.k >= c.umax(b) {
			return TFalse
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Bin(OUlt, a.a, b.a)
		}
		if a.op == OZExt && b.isConst() && b.k <= mask(a.a.w) {
			return c.Bin(OUlt, a.a, K(a.a.w, b.k))
		}
		if b.op == OZExt && a.isConst() && a.k <= mask(b.a.w) {
			return c.Bin(OUlt, K(b.a.w, a.k), b.a)
		}
		if b.isConst() && b.k == 1 {
			return c.Bin(OEq, a, K(a.w, 0))
		}
		if a.isConst() && a.k == 0 {
			return c.Not(c.Bin(OEq, b, K(b.w, 0)))
		}
	case OUle:
		return c.Not(c.Bin(OUlt, b, a))
	case OSlt:
		if a == b {
			return TFalse
		}
		if c.nonNeg(a) && c.nonNeg(b) {
			return c.Bin(OUlt, a, b)
		}
		if c.nonNeg(a) && b.isConst() && sext(b.k, b.w) <= 0 {
			return TFalse
		}
		if c.nonNeg(b) && a.isConst() && sext(a.k, a.w) < 0 {
			return TTrue
		}
	case OSle:
		return c.Not(c.Bin(OSlt, b, a))
	}
	return c.mk(op, w, a, b, nil)
}

// umax is a cheap upper bound of an unsigned term.
func (c *Ctx) umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZExt:
		return c.umax(t.a)
	case OAnd:
		if t.b.isConst() {
			return t.b.k
		}
	case OLShr:
		if t.b.isConst() && t.b.k < 64 {
			return c.umax(t.a) >> t.b.k
		}
	case OIte:
		x, y := c.umax(t.b), c.umax(t.c)
		if x > y {
			return x
		}
		return y
	case OURem:
		if t.b.isConst() && t.b.k > 0 {
			return t.b.k - 1
		}
	case OAdd:
		x, y := c.umax(t.a), c.umax(t.b)
		if x <= mask(t.w)>>1 && y <= mask(t.w)>>1 {
			return x + y
		}
	case OShl:
		if t.b.isConst() && t.b.k < 32 {
			x := c.umax(t.a)
			if x <= mask(t.w)>>t.b.k {
				return x << t.b.k
			}
		}
	case OOr, OXor:
		x, y := c.umax(t.a), c.umax(t.b)
		if y > x {
			x = y
		}
		return uint64(1)<<bits.Len64(x) - 1
	}
	return mask(t.w)
}

func (c *Ctx) nonNeg(t *Term) bool {
	return c.umax(t) <= mask(t.w)>>1
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return K(0, a.k^1)
	case OBNot:
		return a.a
	}
	return c.mk(OBNot, 0, a, nil, nil)
}
func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return TFalse
	}
	return c.mk(OBAnd, 0, a, b, nil)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return TTrue
	}
	return c.mk(OBOr, 0, a, b, nil)
}
func (c *Ctx) Ite(x, a, b *Term) *Term {
	if x.isConst() {
		if x.k == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return x
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(x)
		}
		if a.isTrue() {
			return c.Or(x, b)
		}
		if a.isFalse() {
			return c.And(c.Not(x), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(x), a)
		}
		if b.isFalse() {
			return c.And(x, a)
		}
	}
	if x.op == OBNot {
		x, a, b = x.a, b, a
	}
	if a.op == OIte && a.a == x {
		a = a.b
	}
	if b.op == OIte && b.a == x {
		b = b.c
	}
	return c.mk(OIte, a.w, x, a, b)
}
func (c *Ctx) Un(op Op, a *Term) *Term {
	if a.isConst() {
		return K(a.w, evalOp(op, a.w, a.k, 0, 0, a.w))
	}
	return c.mk(op, a.w, a, nil, nil)
}

// Conv changes the width of a (zero or sign extension, truncation).
func (c *Ctx) Conv(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return K(w, uint64(sext(a.k, a.w)))
		}
		return K(w, a.k)
	}
	if w > a.w {
		if a.op == OZExt {
			return c.Conv(a.a, w, false)
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Conv(a.b, w, signed), c.Conv(a.c, w, signed))
		}
		if signed && !c.nonNeg(a) {
			return c.mk(OSExt, w, a, nil, nil)
		}
		return c.mk(OZExt, w, a, nil, nil)
	}
	switch a.op {
	case OZExt, OSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Conv(a.a, w, false)
		}
		return c.Conv(a.a, w, a.op == OSExt)
	case OTrunc:
		return c.Conv(a.a, w, false)
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Conv(a.b, w, false), c.Conv(a.c, w, false))
		}
	case OAnd, OOr, OXor:
		return c.Bin(a.op, c.Conv(a.a, w, false), c.Conv(a.b, w, false))
	}
	return c.mk(OTrunc, w, a, nil, nil)
}

// ---- facts: literals known on the current path, equality closure, undoable ----

func (c *Ctx) find(t *Term) *Term {
	for {
		p, ok := c.uf[t]
		if !ok {
			return t
		}
		t = p
	}
}

func (c *Ctx) undo(f func()) {
	if c.inTr > 0 {
		c.trail = append(c.trail, f)
	}
}

func (c *Ctx) mark() int { c.inTr++; return len(c.trail) }
func (c *Ctx) rollback(m int) {
	for i := len(c.trail) - 1; i >= m; i-- {
		c.trail[i]()
	}
	c.trail = c.trail[:m]
	c.inTr--
}

func dkey(a, b *Term) [2]*Term {
	if a.op == OConst || (b.op != OConst && a.id > b.id) {
		a, b = b, a
	}
	return [2]*Term{a, b}
}

// canonical constant pointers for union-find roots
func canonC(t *Term) *Term {
	if t.op == OConst {
		return K(t.w, t.k)
	}
	return t
}

func (c *Ctx) addFact(t *Term, val bool) {
	if t.isConst() {
		return
	}
	if _, ok := c.facts[t]; ok {
		return
	}
	c.facts[t] = val
	c.undo(func() { delete(c.facts, t) })
	if t.sv != nil && t.sv != svMany {
		c.narrow(t, val)
	}
	switch t.op {
	case OBNot:
		c.addFact(t.a, !val)
	case OBAnd:
		if val {
			c.addFact(t.a, true)
			c.addFact(t.b, true)
		} else {
			if v, ok := c.known(t.a); ok && v {
				c.addFact(t.b, false)
			} else if v, ok := c.known(t.b); ok && v {
				c.addFact(t.a, false)
			}
		}
	case OBOr:
		if !val {
			c.addFact(t.a, false)
			c.addFact(t.b, false)
		} else {
			if v, ok := c.known(t.a); ok && !v {
				c.addFact(t.b, true)
			} else if v, ok := c.known(t.b); ok && !v {
				c.addFact(t.a, true)
			}
		}
	case OEq:
		if t.a.w == 0 {
			return
		}
		a, b := c.find(canonC(t.a)), c.find(canonC(t.b))
		if val {
			if a == b {
				return
			}
			if a.op == OConst {
				a, b = b, a
			}
			if a.op == OConst { // two constants: contradiction, solver will notice
				return
			}
			c.uf[a] = b
			c.undo(func() { delete(c.uf, a) })
			// re-root disequalities of a
			for k := range c.diseq {
				if k[0] == a || k[1] == a {
					o := k[0]
					if o == a {
						o = k[1]
					}
					c.addDiseq(b, c.find(o))
				}
			}
		} else {
			c.addDiseq(a, b)
		}
	}
}

func (c *Ctx) addDiseq(a, b *Term) {
	k := dkey(a, b)
	if _, ok := c.diseq[k]; ok {
		return
	}
	c.diseq[k] = struct{}{}
	c.undo(func() { delete(c.diseq, k) })
}

// known reports whether the path's facts syntactically imply t or its negation.
func (c *Ctx) known(t *Term) (val, ok bool) {
	if t.isConst() {
		return t.k == 1, true
	}
	if v, ok := c.facts[t]; ok {
		return v, true
	}
	if t.sv != nil && t.sv != svMany {
		return c.domKnown(t)
	}
	switch t.op {
	case OBNot:
		v, ok := c.known(t.a)
		return !v, ok
	case OBAnd:
		v1, ok1 := c.known(t.a)
		if ok1 && !v1 {
			return false, true
		}
		v2, ok2 := c.known(t.b)
		if ok2 && !v2 {
			return false, true
		}
		return true, ok1 && ok2
	case OBOr:
		v1, ok1 := c.known(t.a)
		if ok1 && v1 {
			return true, true
		}
		v2, ok2 := c.known(t.b)
		if ok2 && v2 {
			return true, true
		}
		return false, ok1 && ok2
	case OEq:
		if t.a.w == 0 {
			v1, ok1 := c.known(t.a)
			v2, ok2 := c.known(t.b)
			if ok1 && ok2 {
				return v1 == v2, true
			}
			return false, false
		}
		a, b := c.find(canonC(t.a)), c.find(canonC(t.b))
		if a == b || same(a, b) {
			return true, true
		}
		if a.op == OConst && b.op == OConst {
			return false, true
		}
		if _, ok := c.diseq[dkey(a, b)]; ok {
			return false, true
		}
		if pa := c.possible(a); pa != nil {
			if pb := c.possible(b); pb != nil && disjoint(pa, pb) {
				return false, true
			}
		}
		if (a.op == OConst && b.op == OConst) && a.k != b.k {
			return false, true
		}
	case OUlt:
		a, b := c.find(canonC(t.a)), c.find(canonC(t.b))
		if a.op == OConst && b.op == OConst {
			return a.k < b.k, true
		}
	case OSlt:
		a, b := c.find(canonC(t.a)), c.find(canonC(t.b))
		if a.op == OConst && b.op == OConst {
			return sext(a.k, a.w) < sext(b.k, b.w), true
		}
	}
	return false, false
}

// flatten collects the conjuncts of t.
func conjuncts(t *Term, out []*Term) []*Term {
	for t.op == OBAnd {
		out = conjuncts(t.b, out)
		t = t.a
	}
	return append(out, t)
}

// ---- evaluation under a model ----

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
	dig  map[*hashApp][]byte
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]uint64{}} }

// digest is the real digest of the input of the application under the model.
func (e *evaluator) digest(h *hashApp) []byte {
	if d := e.dig[h]; d != nil {
		return d
	}
	d := realHash(e.input(h), len(h.out))
	if e.dig == nil {
		e.dig = map[*hashApp][]byte{}
	}
	e.dig[h] = d
	return d
}

func (e *evaluator) input(h *hashApp) []byte {
	b := make([]byte, len(h.in))
	for i, t := range h.in {
		if t.op == OConst {
			b[i] = byte(t.k)
		} else {
			b[i] = byte(e.eval(t))
		}
	}
	return b
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if v, ok := e.m[t.name]; ok {
			return v
		}
		if t.h != nil {
			return uint64(e.digest(t.h)[t.hi])
		}
		return 0
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var v uint64
	switch t.op {
	case OIte:
		if e.eval(t.a) != 0 {
			v = e.eval(t.b)
		} else {
			v = e.eval(t.c)
		}
	case OBAnd:
		v = 0
		if e.eval(t.a) != 0 {
			v = e.eval(t.b)
		}
	case OBOr:
		v = 1
		if e.eval(t.a) == 0 {
			v = e.eval(t.b)
		}
	default:
		var b uint64
		a := e.eval(t.a)
		if t.b != nil {
			b = e.eval(t.b)
		}
		v = evalOp(t.op, t.w, a, b, 0, t.a.w)
	}
	e.memo[t] = v
	return v
}

// ---- SMT-LIB printing ----

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.k)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.k)
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	if d > 12 {
		sb.WriteString("...")
		return
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			sb.WriteString(smtConst(t))
		} else {
			fmt.Fprintf(sb, "%d", t.k)
		}
	case OVar:
		sb.WriteString(t.name)
	default:
		fmt.Fprintf(sb, "(%s", opName[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				x.str(sb, d+1)
			}
		}
		sb.WriteByte(')')
	}
}

// ---- domains of single bytes ----

type bset [4]uint64

func (t *Term) table() *[256]uint64 {
	if t.tt != nil {
		return t.tt
	}
	var r [256]uint64
	n := 256
	if t.sv != nil && t.sv.w == 0 {
		n = 2
	}
	get := func(x *Term) func(int) uint64 {
		if x == nil {
			return func(int) uint64 { return 0 }
		}
		if x.op == OConst {
			k := x.k
			return func(int) uint64 { return k }
		}
		tb := x.table()
		return func(i int) uint64 { return tb[i] }
	}
	switch t.op {
	case OVar:
		for i := 0; i < n; i++ {
			r[i] = uint64(i)
		}
	case OIte:
		a, b, d := get(t.a), get(t.b), get(t.c)
		for i := 0; i < n; i++ {
			if a(i) != 0 {
				r[i] = b(i)
			} else {
				r[i] = d(i)
			}
		}
	case OBAnd:
		a, b := get(t.a), get(t.b)
		for i := 0; i < n; i++ {
			r[i] = a(i) & b(i)
		}
	case OBOr:
		a, b := get(t.a), get(t.b)
		for i := 0; i < n; i++ {
			r[i] = a(i) | b(i)
		}
	default:
		a, b := get(t.a), get(t.b)
		for i := 0; i < n; i++ {
			r[i] = evalOp(t.op, t.w, a(i), b(i), 0, t.a.w)
		}
	}
	t.tt = &r
	return t.tt
}

func (t *Term) truth() bset {
	tb := t.table()
	var s bset
	n := 256
	if t.sv.w == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		if tb[i] != 0 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	return s
}

func (c *Ctx) domOf(v *Term) bset {
	if d, ok := c.dom[v]; ok {
		return d
	}
	if v.w == 0 {
		return bset{3, 0, 0, 0}
	}
	m := ^uint64(0)
	return bset{m, m, m, m}
}

// truthOn is the subset of d for which t holds.
func (t *Term) truthOn(d bset) bset {
	n := 0
	for _, w := range d {
		n += bits.OnesCount64(w)
	}
	if t.tt == nil && n <= 16 {
		var r bset
		for i, w := range d {
			for w != 0 {
				b := bits.TrailingZeros64(w)
				w &= w - 1
				if t.at1(uint64(i*64+b)) != 0 {
					r[i] |= 1 << uint(b)
				}
			}
		}
		return r
	}
	r := t.truth()
	for i := range r {
		r[i] &= d[i]
	}
	return r
}

// at1 evaluates a term with a single variable.
func (t *Term) at1(v uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return v
	case OIte:
		if t.a.at1(v) != 0 {
			return t.b.at1(v)
		}
		return t.c.at1(v)
	case OBAnd:
		if t.a.at1(v) == 0 {
			return 0
		}
		return t.b.at1(v)
	case OBOr:
		if t.a.at1(v) != 0 {
			return 1
		}
		return t.b.at1(v)
	}
	if t.tt != nil {
		return t.tt[v&255]
	}
	var b uint64
	if t.b != nil {
		b = t.b.at1(v)
	}
	return evalOp(t.op, t.w, t.a.at1(v), b, 0, t.a.w)
}

func (c *Ctx) narrow(t *Term, val bool) {
	v := t.sv
	if r := c.find(v); r.op == OConst {
		return
	}
	d := c.domOf(v)
	tr := t.truthOn(d)
	n, last := 0, 0
	nd := d
	for i := range nd {
		if val {
			nd[i] = tr[i]
		} else {
			nd[i] &^= tr[i]
		}
		n += bits.OnesCount64(nd[i])
		if nd[i] != 0 {
			last = i*64 + bits.TrailingZeros64(nd[i])
		}
	}
	if nd == d {
		return
	}
	old, had := c.dom[v]
	c.dom[v] = nd
	c.undo(func() {
		if had {
			c.dom[v] = old
		} else {
			delete(c.dom, v)
		}
	})
	if n == 1 && v.w == 8 {
		c.addFact(c.Bin(OEq, v, byteConst[last]), true)
	}
}

func (c *Ctx) domKnown(t *Term) (bool, bool) {
	v := t.sv
	if r := c.find(v); r.op == OConst {
		return t.at1(r.k) != 0, true
	}
	d := c.domOf(v)
	tr := t.truthOn(d)
	if tr == d {
		return true, true
	}
	return false, tr == bset{}
}

// possible is a superset of the values of t, nil if there may be more than 16.
func (c *Ctx) possible(t *Term) []uint64 {
	if t.op == OConst {
		return []uint64{t.k}
	}
	if r := c.find(t); r != t {
		return c.possible(r)
	}
	if r, ok := c.pv[t]; ok {
		return r
	}
	c.pv[t] = nil // the equivalence classes may be cyclic
	r := c.possible1(t)
	c.pv[t] = r
	c.undo(func() { delete(c.pv, t) })
	return r
}

const maxPossible = 16

func addVal(r []uint64, v uint64) []uint64 {
	for _, x := range r {
		if x == v {
			return r
		}
	}
	return append(r, v)
}

func (c *Ctx) possible1(t *Term) []uint64 {
	if t.w == 0 {
		return nil
	}
	if t.sv != nil && t.sv != svMany {
		if cv := c.find(t.sv); cv.op == OConst {
			return []uint64{t.at1(cv.k)}
		}
		d := c.domOf(t.sv)
		n := 0
		for _, w := range d {
			n += bits.OnesCount64(w)
		}
		if n > maxPossible {
			return nil
		}
		r := []uint64{}
		for i, w := range d {
			for w != 0 {
				b := bits.TrailingZeros64(w)
				w &= w - 1
				r = addVal(r, t.at1(uint64(i*64+b)))
			}
		}
		return r
	}
	switch t.op {
	case OIte:
		x := c.possible(t.b)
		if x == nil {
			return nil
		}
		y := c.possible(t.c)
		if y == nil {
			return nil
		}
		r := append([]uint64{}, x...)
		for _, v := range y {
			r = addVal(r, v)
		}
		if len(r) > maxPossible {
			return nil
		}
		return r
	case OVar, OEq, OUlt, OUle, OSlt, OSle, OBNot, OBAnd, OBOr:
		return nil
	}
	x := c.possible(t.a)
	if x == nil {
		return nil
	}
	y := []uint64{0}
	if t.b != nil {
		if y = c.possible(t.b); y == nil {
			return nil
		}
	}
	if len(x)*len(y) > 64 {
		return nil
	}
	r := []uint64{}
	for _, a := range x {
		for _, b := range y {
			r = addVal(r, evalOp(t.op, t.w, a, b, 0, t.a.w))
		}
	}
	if len(r) > maxPossible {
		return nil
	}
	return r
}

func disjoint(a, b []uint64) bool {
	for _, x := range a {
		for _, y := range b {
			if x == y {
				return false
			}
		}
	}
	return true
}

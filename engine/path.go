package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/tools/go/ssa"
)

// One Interp executes one path of one harness from the start: the recorded decisions of the prefix first,
// then new decisions, whose feasible alternatives are put on the work queue.

type decKind uint8

const (
	dBranch   decKind = iota // v: side taken; both sides feasible; the condition joins the path condition
	dImplied                 // v: side implied by the path condition
	dConc                    // v: value chosen for a term
	dConcPend                // last of a prefix: choose a value not excluded
	dChoice                  // v: alternative taken
	dAssume                  // an assumption that was checked to be satisfiable
)

type dec struct {
	k    decKind
	v    uint64
	excl []uint64
	le   uint64 // if not 0: the value must be at most le
}

type workItem struct {
	h      *Harness
	prefix []dec
	model  Model
}

type pathAbort struct{ why string } // unsupported or over a limit: bound reduced
type pathEnd struct{ why string }   // assumption failed
type mergeAbort struct{ why string }
type targetPanic struct {
	v    Iface
	site string
}

type hashApp struct {
	in  []*Term
	out []*Term
	idx int
	fp  uint64
}

type inputVar struct {
	name string
	w    uint8
	t    *Term  // nil for choices
	v    uint64 // value of a choice
}

type obsRec struct {
	name string
	vals []*Term
	str  string
	kind byte
}

type wrec struct {
	p   *Value
	old Value
}

type Interp struct {
	w        *Worker
	P        *Program
	h        *Harness
	ctx      *Ctx
	model    Model
	ev       *evaluator
	prefix   []dec
	pos      int
	trace    []dec
	pc       []*Term
	pcSent   int
	axioms   []*Term // hash axioms: for the solver only, so that replays do not depend on them
	axSent   int
	scope    bool
	hashes   []*hashApp
	hashEq   map[[2]int]*Term
	hashAx   map[[2]int]bool
	steps    int
	depth    int
	globals  map[*ssa.Global]*Value
	inits    map[*ssa.Package]int
	inputs   []inputVar
	names    map[string]int
	obs      []obsRec
	fresh    int
	noFork   int // >0 inside an arm of a merge attempt
	wlog     []wrec
	arm      map[*Value]bool
	frozen   map[*Value]bool
	frzOn    bool
	mapOrd   int // >0: 1 of n+1 orders for the whole path; <0: independent at every range
	mapSel   int // chosen order + 1
	covers   map[string]bool
	stats    *pathStats
	maxSize  uint64
	stdout   []string
	stack    []*ssa.Function
	natobj   map[*Value]interface{}
	armSteps int
	curPanic *frame
	natOnce  map[*Value]bool
	natPool  map[*Value][]Value
	natMap   map[*Value]*MapObj
	locks    int
	frzHit   string
	cert     []certRec
	vsets    map[*Term]*vsetInfo
	store_   map[string]interface{}
}

type pathStats struct {
	certified, fd, decides, implied, forks, asserts, merges, failedMerges int
}

func (in *Interp) live() bool { return in.pos >= len(in.prefix) }

func (in *Interp) eval(t *Term) uint64 { return in.ev.eval(t) }

func (in *Interp) setModel(m Model) {
	in.model = m
	in.ev = newEval(m)
}

func (in *Interp) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	in.pc = append(in.pc, t)
	in.ctx.addFact(t, true)
}

func (in *Interp) syncPC() {
	s := in.w.solver
	if !in.scope {
		s.push()
		in.scope = true
		in.pcSent = 0
		in.axSent = 0
	}
	for ; in.pcSent < len(in.pc); in.pcSent++ {
		s.assert(in.pc[in.pcSent])
	}
	for ; in.axSent < len(in.axioms); in.axSent++ {
		s.assert(in.axioms[in.axSent])
	}
}

// check decides the satisfiability of the path condition with extra; the model is complete for hash consistency.
func (in *Interp) check(extra *Term) (int, Model) {
	if extra != nil && extra.isFalse() {
		return rUnsat, nil
	}
	if extra != nil {
		if r, m := in.quick(extra); r != rUnknown {
			in.stats.fd++
			if r == rUnsat {
				in.cert = append(in.cert, certRec{len(in.pc), extra})
				if len(in.cert) == 200 {
					in.w.ex.debug("CERT %s %s", in.where(), extra)
				}
			}
			return r, m
		}
	}
	return in.checkSMT(extra)
}

func (in *Interp) checkSMT(extra *Term) (int, Model) {
	if time.Now().After(in.h.hard) {
		panic(deadlineHit{})
	}
	s := in.w.solver
	for round := 0; ; round++ {
		in.syncPC()
		s.push()
		if extra != nil {
			s.assert(extra)
		}
		r, m := s.checkSat()
		if r != rSat {
			s.pop()
			return r, nil
		}
		m2 := in.completeModel(m)
		ax := in.hashRefine(m2)
		s.pop()
		if ax == nil {
			return rSat, m2
		}
		if round > 200 {
			return rUnknown, nil
		}
		in.axioms = append(in.axioms, ax...)
	}
}

// completeModel takes the values the solver gave and keeps the current value of the other inputs.
// Hash outputs unknown to the solver stay unset: the evaluator computes them as real digests.
func (in *Interp) completeModel(m Model) Model {
	for _, iv := range in.inputs {
		if iv.t == nil {
			continue
		}
		if _, ok := m[iv.t.name]; !ok {
			if v, ok := in.model[iv.t.name]; ok {
				m[iv.t.name] = v
			}
		}
	}
	return m
}

// hashRefine looks for two hash applications which are inconsistent in the model and returns the axioms that rule this out.
func (in *Interp) hashRefine(m Model) []*Term {
	s := in.w.solver
	any := false
	declared := make([]bool, len(in.hashes))
	for i, h := range in.hashes {
		for _, o := range h.out {
			if o.op == OVar {
				if s.isDecl(o) {
					declared[i] = true
					any = true
					break
				}
			}
		}
	}
	if !any {
		return nil
	}
	e := newEval(m)
	type rec struct {
		i   int
		out string
	}
	byIn := map[string]rec{}
	byOut := map[string]rec{}
	var ax []*Term
	for i, h := range in.hashes {
		ib := fmt.Sprintf("%d:", len(h.out)) + string(e.input(h))
		ob := make([]byte, len(h.out))
		for j, o := range h.out {
			ob[j] = byte(e.eval(o))
		}
		os := string(ob)
		if r, ok := byIn[ib]; ok {
			if r.out != os {
				if a := in.hashAxiom(r.i, i); a != nil {
					ax = append(ax, a)
				}
			}
		} else {
			byIn[ib] = rec{i, os}
			if r, ok := byOut[os]; ok {
				if a := in.hashAxiom(r.i, i); a != nil {
					ax = append(ax, a)
				}
			} else {
				byOut[os] = rec{i, os}
			}
		}
	}
	return ax
}

func (in *Interp) hashAxiom(i, j int) *Term {
	if i > j {
		i, j = j, i
	}
	k := [2]int{i, j}
	if in.hashAx[k] {
		return nil
	}
	in.hashAx[k] = true
	a, b := in.hashes[i], in.hashes[j]
	outs := TTrue
	for x := range a.out {
		outs = in.ctx.And(outs, in.ctx.Bin(OEq, a.out[x], b.out[x]))
	}
	return in.ctx.Bin(OEq, in.hashInEq(a, b), outs)
}

func (in *Interp) hashInEq(a, b *hashApp) *Term {
	if a == b {
		return TTrue
	}
	if len(a.in) != len(b.in) || len(a.out) != len(b.out) {
		return TFalse
	}
	k := [2]int{a.idx, b.idx}
	if k[0] > k[1] {
		k[0], k[1] = k[1], k[0]
	}
	if t, ok := in.hashEq[k]; ok {
		return t
	}
	t := in.vecEq(a.in, b.in)
	in.hashEq[k] = t
	return t
}

// vecEq is the equality of two byte vectors; whole hash outputs are equal exactly if their inputs are.
func (in *Interp) vecEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return TFalse
	}
	// fast refutation
	for i := range a {
		x, y := a[i], b[i]
		if x != y && x.op == OConst && y.op == OConst && x.k != y.k {
			return TFalse
		}
	}
	r := TTrue
	for i := 0; i < len(a); {
		x, y := a[i], b[i]
		if x == y {
			i++
			continue
		}
		if x.h != nil && y.h != nil && x.hi == 0 && y.hi == 0 {
			n := len(x.h.out)
			if n == len(y.h.out) && i+n <= len(a) && runOf(x.h, a[i:]) && runOf(y.h, b[i:]) {
				r = in.ctx.And(r, in.hashInEq(x.h, y.h))
				if r.isFalse() {
					return r
				}
				i += n
				continue
			}
		}
		if n, t := in.hashVsConst(a[i:], b[i:]); n > 0 {
			r = in.ctx.And(r, t)
			if r.isFalse() {
				return r
			}
			i += n
			continue
		}
		r = in.ctx.And(r, in.ctx.Bin(OEq, x, y))
		if r.isFalse() {
			return r
		}
		i++
	}
	return r
}

// hashVsConst: a whole hash output equals constant bytes only if these are the digest of an input hashed on this path,
// and never shorter data which is padded with zeros (the digests of the path are assumed not to end in zero).
func (in *Interp) hashVsConst(a, b []*Term) (int, *Term) {
	if a[0].h == nil {
		a, b = b, a
	}
	h := a[0].h
	if h == nil || a[0].hi != 0 {
		return 0, nil
	}
	n := len(h.out)
	if n > len(a) || !runOf(h, a) {
		return 0, nil
	}
	if b[0].op != OConst {
		if z := b[n-1]; z.op == OConst && z.k == 0 && b[0].h == nil {
			return n, TFalse // shorter data padded with zeros
		}
		return 0, nil
	}
	for _, t := range b[:n] {
		if t.op != OConst {
			return 0, nil
		}
	}
search:
	for _, g := range in.hashes {
		if len(g.out) != n || g.out[0].op != OConst {
			continue
		}
		for j := range g.out {
			if g.out[j] != b[j] {
				continue search
			}
		}
		return n, in.hashInEq(h, g)
	}
	return n, TFalse
}

func runOf(h *hashApp, v []*Term) bool {
	for j := range h.out {
		if v[j] != h.out[j] {
			return false
		}
	}
	return true
}

func realHash(b []byte, n int) []byte {
	if n == 32 {
		d := blake2b.Sum256(b)
		return d[:]
	}
	h, err := blake2b.New(n, nil)
	if err != nil {
		panic(pathAbort{"hash size"})
	}
	h.Write(b)
	return h.Sum(nil)
}

func (in *Interp) idealHash(data []*Term, n int) []*Term {
	conc := true
	fp := uint64(1469598103934665603)
	for _, t := range data {
		if t.op != OConst {
			conc = false
			fp = (fp ^ uint64(t.id+1000)) * 1099511628211
		} else {
			fp = (fp ^ t.k) * 1099511628211
		}
	}
	fp ^= uint64(n)
	for _, h := range in.hashes {
		if h.fp == fp && len(h.in) == len(data) && len(h.out) == n {
			eq := true
			for i := range data {
				if h.in[i] != data[i] {
					eq = false
					break
				}
			}
			if eq {
				return h.out
			}
		}
	}
	h := &hashApp{in: append([]*Term{}, data...), idx: len(in.hashes), fp: fp}
	h.out = make([]*Term, n)
	if conc {
		b := make([]byte, len(data))
		for i, t := range data {
			b[i] = byte(t.k)
		}
		for i, x := range realHash(b, n) {
			h.out[i] = byteConst[x]
		}
	} else {
		for i := range h.out {
			t := in.ctx.Var(fmt.Sprintf("#%d_%d", h.idx, i), 8)
			t.h = h
			t.hi = int32(i)
			h.out[i] = t
		}
	}
	in.hashes = append(in.hashes, h)
	return h.out
}

// ---- decisions ----

func (in *Interp) decide(c *Term) bool {
	if c.op == OConst {
		return c.k == 1
	}
	if v, ok := in.ctx.known(c); ok {
		return v
	}
	switch c.op {
	case OBNot:
		return !in.decide(c.a)
	case OBAnd, OBOr:
		if in.smallJunction(c) {
			if c.op == OBAnd {
				return in.decide(c.a) && in.decide(c.b)
			}
			return in.decide(c.a) || in.decide(c.b)
		}
	}
	if in.noFork > 0 {
		panic(mergeAbort{"branch"})
	}
	in.stats.decides++
	if !in.live() {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		switch d.k {
		case dBranch:
			if d.v == 1 {
				in.addPC(c)
			} else {
				in.addPC(in.ctx.Not(c))
			}
		case dImplied:
			in.ctx.addFact(c, d.v == 1)
		default:
			panic(fmt.Sprintf("replay diverged: decision kind %d at branch", d.k))
		}
		return d.v == 1
	}
	v := in.eval(c) == 1
	other := c
	if v {
		other = in.ctx.Not(c)
	}
	r, m := in.check(other)
	switch r {
	case rUnsat:
		in.trace = append(in.trace, dec{k: dImplied, v: b2u(v)})
		in.pos++
		in.prefix = in.trace
		in.ctx.addFact(c, v)
		in.stats.implied++
		return v
	case rSat:
		in.enqueue(dec{k: dBranch, v: b2u(!v)}, m)
	case rUnknown:
		in.w.ex.noteUnknown(in.h)
	}
	in.record(dec{k: dBranch, v: b2u(v)})
	in.stats.forks++
	if v {
		in.addPC(c)
	} else {
		in.addPC(in.ctx.Not(c))
	}
	return v
}

func (in *Interp) record(d dec) {
	in.trace = append(in.trace, d)
	in.pos++
	in.prefix = in.trace
}

func (in *Interp) enqueue(d dec, m Model) {
	if forkProf != nil {
		forkMu.Lock()
		forkProf[fmt.Sprintf("%d %s", d.k, in.where())]++
		forkMu.Unlock()
	}
	p := make([]dec, len(in.trace)+1)
	copy(p, in.trace)
	p[len(in.trace)] = d
	in.w.ex.push(&workItem{h: in.h, prefix: p, model: m})
}

// smallJunction: at most three undecided atoms.
func (in *Interp) smallJunction(c *Term) bool {
	n := 0
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.op == OConst {
			return true
		}
		switch t.op {
		case OBNot:
			return walk(t.a)
		case OBAnd, OBOr:
			return walk(t.a) && walk(t.b)
		}
		if _, ok := in.ctx.known(t); ok {
			return true
		}
		n++
		return n <= 3
	}
	return walk(c)
}

// choose takes one of n alternatives (no solver involved).
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.noFork > 0 {
		panic(mergeAbort{"choice"})
	}
	if !in.live() {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		if d.k != dChoice {
			panic(fmt.Sprintf("replay diverged: decision kind %d at choice", d.k))
		}
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		in.enqueue(dec{k: dChoice, v: uint64(i)}, in.model)
	}
	in.record(dec{k: dChoice, v: 0})
	return 0
}

// concretize forks over the values of t. If maxv > 0, values above maxv are represented by one value (bound reduced).
func (in *Interp) concretize(t *Term, maxv uint64, why string) uint64 {
	if t.op == OConst {
		return t.k
	}
	if c := in.ctx.find(t); c.op == OConst {
		return c.k
	}
	if ps := in.ctx.possible(t); len(ps) == 1 {
		return ps[0]
	}
	if in.noFork > 0 {
		panic(mergeAbort{"concretize"})
	}
	in.stats.decides++
	if !in.live() {
		d := in.prefix[in.pos]
		if d.k == dConc {
			in.pos++
			in.trace = append(in.trace, d)
			in.addPC(in.ctx.Bin(OEq, t, K(t.w, d.v)))
			return d.v
		}
		if d.k != dConcPend {
			panic(fmt.Sprintf("replay diverged: decision kind %d at concretization", d.k))
		}
		// last decision of the prefix: go on live
		in.prefix = in.trace
		in.pos = len(in.trace)
		return in.concLive(t, maxv, d.excl, d.le, why)
	}
	return in.concLive(t, maxv, nil, 0, why)
}

func (in *Interp) concLive(t *Term, maxv uint64, excl []uint64, le uint64, why string) uint64 {
	v := in.eval(t)
	nle := le
	if maxv > 0 && v > maxv {
		// representative of the large values: a moderate one if possible
		hi := in.ctx.And(in.ctx.Bin(OUlt, K(t.w, maxv), t), in.ctx.Bin(OUle, t, K(t.w, maxv+70000&mask(t.w))))
		if v > maxv+70000 {
			r, m := in.check(hi)
			if r != rSat {
				panic(pathAbort{"huge size: " + why})
			}
			in.setModel(m)
			v = in.eval(t)
		}
		in.w.ex.noteRepr(in.h, why)
		nle = maxv
	}
	// alternatives
	excl2 := append(append([]uint64{}, excl...), v)
	cond := TTrue
	for _, x := range excl2 {
		cond = in.ctx.And(cond, in.ctx.Not(in.ctx.Bin(OEq, t, K(t.w, x))))
	}
	if nle > 0 {
		cond = in.ctx.And(cond, in.ctx.Bin(OUle, t, K(t.w, nle)))
	}
	r, m := in.check(cond)
	switch r {
	case rSat:
		in.enqueue(dec{k: dConcPend, excl: excl2, le: nle}, m)
	case rUnknown:
		in.w.ex.noteUnknown(in.h)
	}
	in.record(dec{k: dConc, v: v})
	in.addPC(in.ctx.Bin(OEq, t, K(t.w, v)))
	return v
}

// assume restricts the path.
func (in *Interp) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	if v, ok := in.ctx.known(c); ok {
		if v {
			return
		}
		panic(pathEnd{"assume"})
	}
	if in.noFork > 0 {
		panic(mergeAbort{"assume"})
	}
	if !in.live() {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		if d.k != dAssume {
			panic("replay diverged at assume")
		}
		in.addPC(c)
		return
	}
	if in.eval(c) != 1 {
		r, m := in.check(c)
		if r == rUnknown {
			in.w.ex.noteUnknown(in.h)
			panic(pathEnd{"assume unknown"})
		}
		if r == rUnsat {
			panic(pathEnd{"assume"})
		}
		in.setModel(m)
	}
	in.record(dec{k: dAssume})
	in.addPC(c)
}

// assert checks c for all values of the path; on a counterexample it is reported and the path goes on under c.
func (in *Interp) assert(c *Term, label string) {
	in.stats.asserts++
	in.w.ex.noteAssert(in.h, label)
	if c.isTrue() {
		return
	}
	if in.noFork > 0 {
		panic(mergeAbort{"assert"})
	}
	if v, ok := in.ctx.known(c); ok && v {
		return
	}
	if !in.live() {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		switch d.k {
		case dImplied:
			in.ctx.addFact(c, true)
		case dAssume:
			in.addPC(c)
		default:
			panic("replay diverged at assert")
		}
		return
	}
	r, m := rSat, in.model
	if in.eval(c) == 1 {
		r, m = in.checkSMT(in.ctx.Not(c))
	}
	switch r {
	case rUnsat:
		in.record(dec{k: dImplied, v: 1})
		in.ctx.addFact(c, true)
		return
	case rUnknown:
		in.w.ex.noteUnknown(in.h)
	case rSat:
		in.violation(label, m, in.ctx.Not(c))
	}
	if in.eval(c) != 1 {
		r, m := in.check(c)
		if r != rSat {
			panic(pathEnd{"assert always fails"})
		}
		in.setModel(m)
	}
	in.record(dec{k: dAssume})
	in.addPC(c)
}

// violation hands a counterexample to the explorer. The model is first made consistent with the real hash function.
func (in *Interp) violation(label string, m Model, extra *Term) {
	in.w.ex.candidate(in, label, m, extra)
}

// realModel finds a model of the path condition and extra in which all hash outputs are the real digests of their inputs.
func (in *Interp) realModel(m Model, extra *Term) (Model, bool) {
	ok := func(m Model) (*evaluator, bool) {
		m2 := Model{}
		for _, iv := range in.inputs {
			if iv.t != nil {
				if v, has := m[iv.t.name]; has {
					m2[iv.t.name] = v
				}
			}
		}
		e := newEval(m2)
		for _, p := range in.pc {
			if e.eval(p) != 1 {
				return e, false
			}
		}
		if extra != nil && e.eval(extra) != 1 {
			return e, false
		}
		return e, true
	}
	if e, good := ok(m); good {
		return e.m, true
	}
	// fix the inputs of the hash applications one after the other, in some order
	var apps []*hashApp
	for _, h := range in.hashes {
		if h.out[0].op != OConst {
			apps = append(apps, h)
		}
	}
	var last *evaluator
	for o := 0; o < 2+len(apps) && o < 8; o++ {
		pending := append([]*hashApp{}, apps...)
		switch {
		case o == 1:
			for i, j := 0, len(pending)-1; i < j; i, j = i+1, j-1 {
				pending[i], pending[j] = pending[j], pending[i]
			}
		case o > 1: // one of them first
			pending[0], pending[o-2] = pending[o-2], pending[0]
		}
		fix := TTrue
		cur := m
		for n, tries := 0, len(pending)*3; n < tries && len(pending) > 0; n++ {
			h := pending[0]
			pending = pending[1:]
			e := newEval(cur)
			ib := e.input(h)
			d := realHash(ib, len(h.out))
			c := TTrue
			for i, t := range h.in {
				if t.op != OConst {
					c = in.ctx.And(c, in.ctx.Bin(OEq, t, byteConst[ib[i]]))
				}
			}
			for i, t := range h.out {
				c = in.ctx.And(c, in.ctx.Bin(OEq, t, byteConst[d[i]]))
			}
			f2 := in.ctx.And(fix, c)
			q := f2
			if extra != nil {
				q = in.ctx.And(q, extra)
			}
			r, m2 := in.check(q)
			if r != rSat { // after the others
				pending = append(pending, h)
				continue
			}
			fix = f2
			cur = m2
			if e, good := ok(cur); good {
				return e.m, true
			}
		}
		e, good := ok(cur)
		if good {
			return e.m, true
		}
		last = e
	}
	if last == nil {
		return m, false
	}
	return last.m, false
}

func (in *Interp) uniqueName(n string) string {
	k := in.names[n]
	in.names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s~%d", n, k)
}

func (in *Interp) sortedInputs() []inputVar {
	r := append([]inputVar{}, in.inputs...)
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

type certRec struct {
	n int
	c *Term
}

// certify has the SMT solver confirm all branches which the finite-domain procedure pruned on this path.
func (in *Interp) certify() {
	if len(in.cert) == 0 {
		return
	}
	t := TFalse
	k := len(in.pc)
	for i := len(in.cert) - 1; i >= 0; i-- {
		r := in.cert[i]
		for k > r.n {
			k--
			t = in.ctx.And(in.pc[k], t)
		}
		t = in.ctx.Or(r.c, t)
	}
	for k > 0 {
		k--
		t = in.ctx.And(in.pc[k], t)
	}
	if t.isFalse() {
		in.stats.certified += len(in.cert)
		return
	}
	s := in.w.solver
	s.push()
	s.assert(t)
	r, _ := s.checkSat()
	s.pop()
	switch r {
	case rUnsat:
		in.stats.certified += len(in.cert)
	case rSat:
		in.w.ex.engineError(in.h, "a pruned branch is satisfiable for the SMT solver")
	default:
		in.w.ex.noteUnknown(in.h)
	}
	in.cert = nil
}

// forkProf counts the alternatives by place (for tuning, with VENGINE_FORKS).
var (
	forkProf map[string]int
	forkMu   sync.Mutex
)

func dumpForks() {
	if forkProf == nil {
		return
	}
	var ks []string
	for k := range forkProf {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkProf[ks[i]] > forkProf[ks[j]] })
	if len(ks) > 25 {
		ks = ks[:25]
	}
	for _, k := range ks {
		fmt.Fprintf(os.Stderr, "fork %d %s\n", forkProf[k], k)
	}
}

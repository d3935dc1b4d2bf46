package main

import (
	"sort"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// A snapshot is the state after the initialisers of some packages have run: concrete values only. Paths start from a
// copy of it instead of running costly initialisers again.
type snapshot struct {
	globals map[*ssa.Global]*Value
	inits   map[*ssa.Package]int
	natOnce map[*Value]bool
	hashes  []*hashApp
	fresh   int
	regions []region
	maps    []*MapObj
	clos    []*Closure
	ok      bool
}

type region struct {
	lo, hi uintptr // cells
	mem    []Value
}

const cellSize = unsafe.Sizeof(*new(Value))

func addrOf(p *Value) uintptr { return uintptr(unsafe.Pointer(p)) }

// takeSnapshot collects the memory reachable from the variables.
func takeSnapshot(in *Interp) *snapshot {
	s := &snapshot{globals: in.globals, inits: in.inits, natOnce: in.natOnce, hashes: in.hashes, fresh: in.fresh}
	if len(in.natobj) > 0 || len(in.store_) > 0 || len(in.inputs) > 0 || len(in.pc) > 0 {
		return s
	}
	ok := true
	var regs []region
	seenS := map[uintptr]int{}
	seenP := map[*Value]bool{}
	seenM := map[*MapObj]bool{}
	seenC := map[*Closure]bool{}
	var walk func(v Value)
	block := func(c []Value) {
		if cap(c) == 0 {
			return
		}
		c = c[:cap(c)]
		a := addrOf(&c[0])
		if n, seen := seenS[a]; seen && n >= len(c) {
			return
		}
		seenS[a] = len(c)
		regs = append(regs, region{a, a + uintptr(len(c))*cellSize, c})
		for i := range c {
			walk(c[i])
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case nil, *ssa.Function, *ssa.Builtin, float64, Poison, *NativeFn:
		case *Term:
			if x != nil && x.op != OConst {
				ok = false
			}
		case Str:
			if !x.isConcrete() {
				ok = false
			}
		case *Value:
			if x != nil && !seenP[x] {
				seenP[x] = true
				block(unsafe.Slice(x, 1))
			}
		case Slice:
			block(x)
		case Structure:
			block(x)
		case Array:
			block(x)
		case Tuple:
			block(x)
		case Iface:
			walk(x.v)
		case *Closure:
			if x != nil && !seenC[x] {
				seenC[x] = true
				s.clos = append(s.clos, x)
				for _, e := range x.env {
					walk(e)
				}
			}
		case *MapObj:
			if x != nil && !seenM[x] {
				seenM[x] = true
				s.maps = append(s.maps, x)
				if x.nsym > 0 {
					ok = false
				}
				for i := range x.ents {
					walk(x.ents[i].k)
					walk(x.ents[i].v)
				}
			}
		default:
			ok = false
		}
	}
	for _, p := range in.globals {
		walk(p)
	}
	sort.Slice(regs, func(i, j int) bool {
		return regs[i].lo < regs[j].lo || regs[i].lo == regs[j].lo && regs[i].hi > regs[j].hi
	})
	for _, r := range regs {
		if n := len(s.regions); n > 0 && r.lo < s.regions[n-1].hi {
			l := &s.regions[n-1]
			if r.hi > l.hi {
				// overlapping but not nested: extend over the same backing memory
				l.mem = unsafe.Slice(&l.mem[0], int((r.hi-l.lo)/cellSize))
				l.hi = r.hi
			}
			continue
		}
		s.regions = append(s.regions, r)
	}
	s.ok = ok
	return s
}

// restore starts a path from a copy of the snapshot.
func (s *snapshot) restore(in *Interp) {
	fresh := make([][]Value, len(s.regions))
	total := 0
	for _, r := range s.regions {
		total += len(r.mem)
	}
	all := make([]Value, total)
	for i, r := range s.regions {
		fresh[i], all = all[:len(r.mem):len(r.mem)], all[len(r.mem):]
	}
	at := func(a uintptr) (int, int) {
		i := sort.Search(len(s.regions), func(i int) bool { return s.regions[i].hi > a })
		return i, int((a - s.regions[i].lo) / cellSize)
	}
	ptr := func(p *Value) *Value {
		if p == nil {
			return nil
		}
		i, k := at(addrOf(p))
		return &fresh[i][k]
	}
	sl := func(c []Value) []Value {
		if cap(c) == 0 {
			return c
		}
		i, k := at(addrOf(&c[:1][0]))
		return fresh[i][k : k+len(c) : k+cap(c)]
	}
	maps := make(map[*MapObj]*MapObj, len(s.maps))
	for _, m := range s.maps {
		maps[m] = &MapObj{kt: m.kt, idx: map[string]int{}, nsym: m.nsym, live: m.live, frozen: m.frozen}
	}
	clos := make(map[*Closure]*Closure, len(s.clos))
	for _, c := range s.clos {
		clos[c] = &Closure{fn: c.fn}
	}
	var tr func(v Value) Value
	tr = func(v Value) Value {
		switch x := v.(type) {
		case *Value:
			return ptr(x)
		case Slice:
			return Slice(sl(x))
		case Structure:
			return Structure(sl(x))
		case Array:
			return Array(sl(x))
		case Tuple:
			return Tuple(sl(x))
		case Iface:
			return Iface{x.t, tr(x.v)}
		case *Closure:
			if x == nil {
				return x
			}
			return clos[x]
		case *MapObj:
			if x == nil {
				return x
			}
			return maps[x]
		}
		return v
	}
	for i, r := range s.regions {
		for k, v := range r.mem {
			fresh[i][k] = tr(v)
		}
	}
	for o, n := range maps {
		n.ents = make([]mapEntry, len(o.ents))
		for i, e := range o.ents {
			n.ents[i] = mapEntry{tr(e.k), tr(e.v), e.dead}
			if !e.dead {
				if k, ok := keyStr(n.ents[i].k); ok {
					n.idx[k] = i
				}
			}
		}
	}
	for o, n := range clos {
		n.env = make([]Value, len(o.env))
		for i, e := range o.env {
			n.env[i] = tr(e)
		}
	}
	for g, p := range s.globals {
		in.globals[g] = ptr(p)
	}
	for p, c := range s.inits {
		in.inits[p] = c
	}
	if s.natOnce != nil {
		in.natOnce = map[*Value]bool{}
		for p, v := range s.natOnce {
			in.natOnce[ptr(p)] = v
		}
	}
	in.hashes = append([]*hashApp{}, s.hashes...)
	in.fresh = s.fresh
}

// snapshotPkgs are the packages whose initialisers are costly.
var snapshotPkgs = []string{modPath + "/models/trie_kzg_bn256"}

func (ex *Explorer) takeSnapshot(w *Worker, mk func() *Interp) *snapshot {
	ex.snapOnce.Do(func() {
		in := mk()
		any := false
		for _, p := range snapshotPkgs {
			if sp := ex.P.prog.ImportedPackage(p); sp != nil {
				any = true
				in.initPackage(sp)
			}
		}
		if !any {
			return
		}
		s := takeSnapshot(in)
		if s.ok {
			ex.snap = s
		}
		ex.debug("snapshot: %d variables, %d blocks, usable=%v", len(s.globals), len(s.regions), s.ok)
	})
	return ex.snap
}

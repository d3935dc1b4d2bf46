package main

// A small finite-domain decision procedure for path feasibility over a handful of bytes. It decides the part of the path
// condition that shares variables with the query; anything with larger variables, hash outputs or too much work goes to the SMT
// solver. Property assertions always go to the SMT solver.

type vsetInfo struct {
	vars    []*Term
	complex bool
}

const fdMaxVars = 10
const fdBudget = 30000

func (in *Interp) vset(t *Term) *vsetInfo {
	if v, ok := in.vsets[t]; ok {
		return v
	}
	r := &vsetInfo{}
	switch {
	case t.op == OConst:
	case t.op == OVar:
		if t.h != nil || t.w > 8 {
			r.complex = true
		} else {
			r.vars = []*Term{t}
		}
	case t.sv != nil && t.sv != svMany:
		r = in.vset(t.sv)
	default:
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x == nil || x.op == OConst {
				continue
			}
			y := in.vset(x)
			if y.complex {
				r.complex = true
			}
			for _, v := range y.vars {
				dup := false
				for _, u := range r.vars {
					if u == v {
						dup = true
						break
					}
				}
				if !dup {
					r.vars = append(r.vars, v)
				}
			}
			if len(r.vars) > fdMaxVars {
				r.complex = true
			}
			if r.complex {
				r.vars = nil
				break
			}
		}
	}
	in.vsets[t] = r
	return r
}

type fdSearch struct {
	vars   []*Term
	val    map[*Term]uint64
	cons   [][]*Term // constraints whose last variable is vars[i]
	budget int
	dom    []bset
	pref   []uint64
}

func (s *fdSearch) eval(t *Term) uint64 {
	s.budget--
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return s.val[t]
	}
	if t.sv != nil && t.sv != svMany && t.tt != nil {
		return t.tt[s.val[t.sv]&255]
	}
	switch t.op {
	case OIte:
		if s.eval(t.a) != 0 {
			return s.eval(t.b)
		}
		return s.eval(t.c)
	case OBAnd:
		if s.eval(t.a) == 0 {
			return 0
		}
		return s.eval(t.b)
	case OBOr:
		if s.eval(t.a) != 0 {
			return 1
		}
		return s.eval(t.b)
	}
	a := s.eval(t.a)
	var b uint64
	if t.b != nil {
		b = s.eval(t.b)
	}
	return evalOp(t.op, t.w, a, b, 0, t.a.w)
}

func (s *fdSearch) try(i int, v uint64) int {
	s.val[s.vars[i]] = v
	for _, c := range s.cons[i] {
		if s.budget <= 0 {
			return rUnknown
		}
		if s.eval(c) == 0 {
			return rUnsat
		}
	}
	return s.run(i + 1)
}

func (s *fdSearch) run(i int) int {
	if i == len(s.vars) {
		return rSat
	}
	d := s.dom[i]
	p := s.pref[i] & 255
	if d[p>>6]&(1<<(p&63)) != 0 {
		if r := s.try(i, p); r != rUnsat {
			return r
		}
	}
	for v := uint64(0); v < 256; v++ {
		if v == p || d[v>>6]&(1<<(v&63)) == 0 {
			continue
		}
		if s.budget <= 0 {
			return rUnknown
		}
		if r := s.try(i, v); r != rUnsat {
			return r
		}
	}
	return rUnsat
}

// quick decides pc and extra, or says rUnknown.
func (in *Interp) quick(extra *Term) (int, Model) {
	if in.w.ex.noFD {
		return rUnknown, nil
	}
	e := in.vset(extra)
	if e.complex {
		return rUnknown, nil
	}
	inSet := map[*Term]bool{}
	vars := append([]*Term{}, e.vars...)
	for _, v := range vars {
		inSet[v] = true
	}
	used := make([]bool, len(in.pc))
	cons := []*Term{extra}
	for changed := true; changed; {
		changed = false
		for i, c := range in.pc {
			if used[i] {
				continue
			}
			if c.sv != nil && c.sv != svMany {
				used[i] = true // in the domains
				continue
			}
			vi := in.vset(c)
			if vi.complex {
				continue
			}
			touch := false
			for _, v := range vi.vars {
				if inSet[v] {
					touch = true
					break
				}
			}
			if !touch {
				continue
			}
			used[i] = true
			changed = true
			cons = append(cons, c)
			for _, v := range vi.vars {
				if !inSet[v] {
					inSet[v] = true
					vars = append(vars, v)
				}
			}
		}
		if len(vars) > 2*fdMaxVars {
			return rUnknown, nil
		}
	}
	s := &fdSearch{vars: vars, val: map[*Term]uint64{}, cons: make([][]*Term, len(vars)), budget: fdBudget}
	pos := map[*Term]int{}
	for i, v := range vars {
		pos[v] = i
		if r := in.ctx.find(v); r.op == OConst {
			var d bset
			d[(r.k&255)>>6] |= 1 << (r.k & 63)
			s.dom = append(s.dom, d)
		} else {
			s.dom = append(s.dom, in.ctx.domOf(v))
		}
		s.pref = append(s.pref, in.eval(v))
	}
	for _, c := range cons {
		last := 0
		for _, v := range in.vset(c).vars {
			if pos[v] > last {
				last = pos[v]
			}
		}
		s.cons[last] = append(s.cons[last], c)
	}
	if len(vars) == 0 {
		return rUnknown, nil
	}
	r := s.run(0)
	if r == rUnsat {
		return rUnsat, nil
	}
	if r == rUnknown {
		return rUnknown, nil
	}
	// a model: the other variables keep their values; complex constraints must hold as well
	m := Model{}
	for k, v := range in.model {
		m[k] = v
	}
	for _, v := range vars {
		m[v.name] = s.val[v]
	}
	anyComplex := false
	for i := range in.pc {
		if !used[i] && in.vset(in.pc[i]).complex {
			anyComplex = true
			break
		}
	}
	if anyComplex {
		for k := range m {
			if len(k) > 0 && k[0] == '#' {
				delete(m, k) // hash outputs: the real digests
			}
		}
		ev := newEval(m)
		for i, c := range in.pc {
			if !used[i] && ev.eval(c) == 0 {
				return rUnknown, nil
			}
		}
	}
	return rSat, m
}

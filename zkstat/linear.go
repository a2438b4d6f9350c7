package main

// Linear consequences of a conjunction of comparisons, over atoms that stand
// for quotients and low-order bits of linear forms.

import (
	"math/big"
	"sort"
)

type linFact struct {
	t      *Poly
	lo, hi *big.Int // nil = unbounded
}

type linEnv struct {
	facts []linFact
	atom  map[int32][2]*big.Int
	busy  map[int32]bool
}

// linFactsOf reads the comparisons of a cube; ok is false when a literal is of another kind.
func linFactsOf(cube map[int32]bool) (*linEnv, bool) {
	e := &linEnv{atom: map[int32][2]*big.Int{}, busy: map[int32]bool{}}
	var vs []int32
	for v := range cube {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	by := map[*Poly]int{}
	ok := true
	for _, v := range vs {
		a := B.vars[v]
		if a.kind != "le" {
			ok = false
			continue
		}
		i, have := by[a.t]
		if !have {
			lo, hi := a.t.interval()
			i = len(e.facts)
			by[a.t] = i
			e.facts = append(e.facts, linFact{a.t, lo, hi})
		}
		f := &e.facts[i]
		if cube[v] {
			if f.hi == nil || a.k.Cmp(f.hi) < 0 {
				f.hi = a.k
			}
		} else if k := new(big.Int).Add(a.k, one); f.lo == nil || k.Cmp(f.lo) > 0 {
			f.lo = k
		}
	}
	return e, ok
}

func (e *linEnv) infeasible() bool {
	for _, f := range e.facts {
		lo, hi := e.iv(f.t, 2)
		if f.lo != nil && hi != nil && hi.Cmp(f.lo) < 0 || f.hi != nil && lo != nil && lo.Cmp(f.hi) > 0 {
			return true
		}
		if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			return true
		}
	}
	return false
}

func (e *linEnv) atomIv(a *Atom) (lo, hi *big.Int) {
	if r, ok := e.atom[a.id]; ok {
		return r[0], r[1]
	}
	lo, hi = a.lo, a.hi
	if e.busy[a.id] {
		return
	}
	e.busy[a.id] = true
	meet := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	switch a.kind {
	case "div":
		l, h := e.iv(a.args[0], 2)
		if l != nil {
			l = floorDiv(l, a.m)
		}
		if h != nil {
			h = floorDiv(h, a.m)
		}
		meet(l, h)
	case "low":
		l, h := e.iv(a.args[0], 2)
		if l != nil && h != nil {
			if q := floorDiv(l, a.m); q.Cmp(floorDiv(h, a.m)) == 0 {
				q.Mul(q, a.m)
				meet(new(big.Int).Sub(l, q), new(big.Int).Sub(h, q))
			}
		}
	}
	p := A(a)
	for _, f := range e.facts {
		if f.t == p {
			meet(f.lo, f.hi)
		}
	}
	delete(e.busy, a.id)
	e.atom[a.id] = [2]*big.Int{lo, hi}
	return
}

func scaleIv(lo, hi, k *big.Int) (l, h *big.Int) {
	if lo != nil {
		l = new(big.Int).Mul(lo, k)
	}
	if hi != nil {
		h = new(big.Int).Mul(hi, k)
	}
	if k.Sign() < 0 {
		l, h = h, l
	}
	return
}

func addIv(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

// iv bounds p under the facts; depth limits the combinations tried.
func (e *linEnv) iv(p *Poly, depth int) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, t := range p.t {
		if len(t.m) == 0 {
			lo, hi = addIv(lo, t.c), addIv(hi, t.c)
			continue
		}
		var l, h *big.Int
		if len(t.m) == 1 && t.m[0].e == 1 {
			l, h = e.atomIv(atoms[t.m[0].a])
		} else {
			l, h = mkPoly([]Term{{t.m, one}}).interval()
		}
		l, h = scaleIv(l, h, t.c)
		lo, hi = addIv(lo, l), addIv(hi, h)
	}
	if depth == 0 || len(p.t) == 0 {
		return
	}
	try := func(t *Poly, fl, fh *big.Int) {
		for _, x := range t.t {
			if len(x.m) == 0 {
				continue
			}
			for _, y := range p.t {
				if monoKey(x.m) != monoKey(y.m) {
					continue
				}
				// kd*p - kn*t has no such monomial
				g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(x.c), new(big.Int).Abs(y.c))
				kd, kn := new(big.Int).Quo(x.c, g), new(big.Int).Quo(y.c, g)
				if kd.Sign() < 0 {
					kd.Neg(kd)
					kn.Neg(kn)
				}
				q := Sub(Scale(p, kd), Scale(t, kn))
				if len(q.t) > len(p.t) {
					continue
				}
				l, h := e.iv(q, depth-1)
				a, b := scaleIv(fl, fh, kn)
				l, h = addIv(l, a), addIv(h, b)
				if l != nil {
					l = ceilDiv(l, kd)
				}
				if h != nil {
					h = floorDiv(h, kd)
				}
				if l != nil && (lo == nil || l.Cmp(lo) > 0) {
					lo = l
				}
				if h != nil && (hi == nil || h.Cmp(hi) < 0) {
					hi = h
				}
			}
		}
	}
	for _, f := range e.facts {
		try(f.t, f.lo, f.hi)
	}
	for _, t := range p.t {
		if len(t.m) == 1 && t.m[0].e == 1 {
			if a := atoms[t.m[0].a]; a.kind == "div" {
				try(Sub(a.args[0], Scale(A(a), a.m)), zero, new(big.Int).Sub(a.m, one))
			}
		}
	}
	return
}

// pin replaces the quotients whose value the facts determine.
func (e *linEnv) pin(p *Poly) *Poly {
	for {
		hit := false
		for _, t := range p.t {
			for _, f := range t.m {
				if lo, hi := e.atomIv(atoms[f.a]); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
					p = substTop(p, f.a, CB(lo))
					hit = true
					break
				}
			}
			if hit {
				break
			}
		}
		if !hit {
			return p
		}
	}
}

// zeroModP decides p ≡ 0 (mod P) from the facts.
func (e *linEnv) zeroModP(p *Poly) (*Poly, bool) {
	d := residue(e.pin(expandLow(p)))
	if d.isZero() {
		return d, true
	}
	var rows []*Poly
	red := func(q *Poly) *Poly {
		for _, r := range rows {
			l := r.t[len(r.t)-1]
			for _, t := range q.t {
				if monoKey(t.m) == monoKey(l.m) {
					k := new(big.Int).Mul(t.c, new(big.Int).ModInverse(l.c, hexP))
					q = residue(Sub(q, Scale(r, k.Mod(k, hexP))))
					break
				}
			}
		}
		return q
	}
	for _, f := range e.facts {
		lo, hi := e.iv(f.t, 2)
		if f.lo != nil && (lo == nil || f.lo.Cmp(lo) > 0) {
			lo = f.lo
		}
		if f.hi != nil && (hi == nil || f.hi.Cmp(hi) < 0) {
			hi = f.hi
		}
		if lo == nil || hi == nil || lo.Cmp(hi) != 0 {
			continue
		}
		q := red(residue(e.pin(expandLow(Sub(f.t, CB(lo))))))
		if q.isZero() || len(q.t) == 1 && len(q.t[0].m) == 0 {
			continue
		}
		l := q.t[len(q.t)-1]
		for i, r := range rows {
			for _, t := range r.t {
				if monoKey(t.m) == monoKey(l.m) {
					k := new(big.Int).Mul(t.c, new(big.Int).ModInverse(l.c, hexP))
					rows[i] = residue(Sub(r, Scale(q, k.Mod(k, hexP))))
					break
				}
			}
		}
		rows = append(rows, q)
	}
	d = red(d)
	return d, d.isZero()
}

// linSplit enumerates the conjunctions that decide every indicator of the values.
func linSplit(g Bdd, ps []*Poly, max int, f func(cube map[int32]bool, vals []*Poly)) bool {
	for i, p := range ps {
		if g == False {
			return true
		}
		for _, a := range p.indicators() {
			c := atoms[a].bdd
			for _, val := range []bool{true, false} {
				h := And(g, c)
				if !val {
					h = AndNot(g, c)
				}
				qs := make([]*Poly, len(ps))
				for j, q := range ps {
					qs[j] = q
					if j >= i {
						qs[j] = q.setInd(a, val)
					}
				}
				if !linSplit(h, qs, max, f) {
					return false
				}
			}
			return true
		}
	}
	cs, ok := cubes(g, max)
	if !ok {
		return false
	}
	for _, cb := range cs {
		f(cb, ps)
	}
	return true
}

func ceilDiv(a, m *big.Int) *big.Int {
	q := floorDiv(new(big.Int).Neg(a), m)
	return q.Neg(q)
}

func (e *linEnv) with(f linFact) *linEnv {
	fs := append(append([]linFact{}, e.facts...), f)
	if a := f.t.isAtom(); a != nil && a.kind == "div" && f.lo != nil && f.hi != nil {
		h := new(big.Int).Add(f.hi, one)
		fs = append(fs, linFact{a.args[0], new(big.Int).Mul(f.lo, a.m), h.Sub(h.Mul(h, a.m), one)})
	}
	return &linEnv{facts: fs, atom: map[int32][2]*big.Int{}, busy: map[int32]bool{}}
}

func polyAtoms(p *Poly, seen map[int32]bool) {
	for _, t := range p.t {
		for _, f := range t.m {
			if !seen[f.a] {
				seen[f.a] = true
				for _, q := range atoms[f.a].args {
					polyAtoms(q, seen)
				}
			}
		}
	}
}

func atomIds(ps ...*Poly) []*Atom {
	seen := map[int32]bool{}
	for _, p := range ps {
		polyAtoms(p, seen)
	}
	var out []*Atom
	for id := range seen {
		out = append(out, atoms[id])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// simplify replaces, also inside other atoms, the atoms whose value the facts determine.
func (e *linEnv) simplify(p *Poly) *Poly {
	for n := 0; n < 60; n++ {
		hit := false
		for _, a := range atomIds(p) {
			if a.kind == "ind" {
				continue
			}
			if lo, hi := e.atomIv(a); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
				if q := rewritePoly(p, a.id, CB(lo), map[string]*Poly{}); q != p {
					p, hit = q, true
					break
				}
			}
		}
		if !hit {
			break
		}
	}
	return p
}

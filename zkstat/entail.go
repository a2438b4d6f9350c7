package main

// Deciding consequences of an abstract guard: the guard is a disjunction of
// conjunctions of atomic facts; in each conjunction the equalities are used as
// linear relations over GF(N) on (point, monomial) coordinates.

import (
	"math/big"
	"sort"
	"strings"
)

// Facts of one conjunction.
type Facts struct {
	cube map[int32]bool
	pts  []*Pt   // each equals the identity
	sc   []*Poly // each is congruent to 0 modulo N
	eqs  []*Poly // each equals 0 over the integers
	sub  []subst // solved symbols, in order of application
	bad  bool    // contradictory
}
type subst struct {
	id int32
	by *Poly
}

func deepSub(p *Poly, s []subst) *Poly {
	for _, x := range s {
		p = rewritePoly(p, x.id, x.by, map[string]*Poly{})
	}
	return p
}

// rewritePoly substitutes an atom everywhere, also inside other atoms.
func rewritePoly(p *Poly, id int32, by *Poly, memo map[string]*Poly) *Poly {
	if r, ok := memo[p.key]; ok {
		return r
	}
	out := C(0)
	changed := false
	for _, t := range p.t {
		q := CB(t.c)
		for _, f := range t.m {
			a := atoms[f.a]
			var ap *Poly
			if f.a == id {
				ap = by
			} else {
				ap = rewriteAtom(a, id, by, memo)
			}
			if ap == nil {
				ap = A(a)
			} else {
				changed = true
			}
			for e := int32(0); e < f.e; e++ {
				q = Mul(q, ap)
			}
		}
		out = Add(out, q)
	}
	if !changed {
		out = p
	}
	memo[p.key] = out
	return out
}

func rewriteAtom(a *Atom, id int32, by *Poly, memo map[string]*Poly) *Poly {
	switch a.kind {
	case "mod":
		q := rewritePoly(a.args[0], id, by, memo)
		if q == a.args[0] {
			return nil
		}
		return ModP(q, a.m)
	case "inv":
		q := rewritePoly(a.args[0], id, by, memo)
		if q == a.args[0] {
			return nil
		}
		return InvP(q, a.m)
	case "div", "low":
		q := rewritePoly(a.args[0], id, by, memo)
		if q == a.args[0] {
			return nil
		}
		if a.kind == "low" {
			return lowOf(q, a.m)
		}
		return DivP(q, a.m)
	case "X", "Y":
		q := rewritePt(a.pt, id, by, memo)
		if q == a.pt {
			return nil
		}
		return coordP(a.kind, q)
	case "int":
		if a.seq == nil {
			return nil
		}
		q := rewriteSeq(a.seq, id, by, memo)
		if q == a.seq {
			return nil
		}
		return intOf(q)
	}
	return nil
}

func rewritePt(p *Pt, id int32, by *Poly, memo map[string]*Poly) *Pt {
	m := map[int32]*Poly{}
	ch := false
	for _, t := range p.t {
		q := rewritePoly(t.c, id, by, memo)
		if q != t.c {
			ch = true
			q = canonMod(q, hexN)
		}
		m[t.a.id] = q
	}
	if !ch {
		return p
	}
	return mkPt(m)
}

func rewriteSeq(s *Seq, id int32, by *Poly, memo map[string]*Poly) *Seq {
	ch := false
	segs := make([]Seg, len(s.s))
	for i, g := range s.s {
		if g.p != nil {
			q := rewritePoly(g.p, id, by, memo)
			if q != g.p {
				ch = true
				g.p = q
			}
		}
		if g.sub != nil {
			q := rewriteSeq(g.sub, id, by, memo)
			if q != g.sub {
				ch = true
				g.sub = q
			}
		}
		segs[i] = g
	}
	if !ch {
		return s
	}
	return mkSeq(segs)
}

// pref ranks symbols to solve for: larger is preferred.
func factsOf(cube map[int32]bool, solvable func(name string) int) *Facts {
	f := &Facts{cube: cube}
	var vs []int32
	for v := range cube {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	for _, v := range vs {
		a := B.vars[v]
		switch a.kind {
		case "peq":
			if cube[v] {
				f.pts = append(f.pts, a.pt)
			}
		case "le":
			if !cube[v] {
				continue
			}
			// t <= k together with not(t <= k-1), or with the lower bound of t
			lo, _ := a.t.interval()
			eq := lo != nil && lo.Cmp(a.k) == 0
			for _, w := range B.chains[a.t.key].vars {
				if b, ok := cube[w]; ok && !b && new(big.Int).Add(B.vars[w].k, one).Cmp(a.k) == 0 {
					eq = true
				}
			}
			if eq {
				f.eqs = append(f.eqs, Sub(a.t, CB(a.k)))
			}
		}
	}
	// tight upper bounds: not (t <= hi-1)
	for _, v := range vs {
		a := B.vars[v]
		if a.kind == "le" && !cube[v] {
			_, hi := a.t.interval()
			if hi != nil && new(big.Int).Add(a.k, one).Cmp(hi) == 0 {
				f.eqs = append(f.eqs, Sub(a.t, CB(hi)))
			}
		}
	}
	// solve
	work := append([]*Poly{}, f.eqs...)
	for len(work) > 0 {
		best, bi, bt := -1, -1, Term{}
		for i, e := range work {
			for _, t := range e.t {
				if len(t.m) == 1 && t.m[0].e == 1 && t.c.CmpAbs(one) == 0 {
					a := atoms[t.m[0].a]
					if a.kind != "sym" {
						continue
					}
					r := 0
					if solvable != nil {
						r = solvable(a.name)
					}
					if r > best && r > 0 && !occursElse(e, t.m[0].a) {
						best, bi, bt = r, i, t
					}
				}
			}
		}
		if bi < 0 {
			break
		}
		e := work[bi]
		id := bt.m[0].a
		rest := Sub(e, mkPoly([]Term{bt}))
		by := Neg(rest)
		if bt.c.Sign() < 0 {
			by = rest
		}
		s := subst{id, by}
		f.sub = append(f.sub, s)
		var nw []*Poly
		for i, o := range work {
			if i == bi {
				continue
			}
			q := rewritePoly(o, id, by, map[string]*Poly{})
			if q.isZero() {
				continue
			}
			nw = append(nw, q)
		}
		work = nw
	}
	for _, e := range work {
		f.sc = append(f.sc, canonMod(e, hexN))
	}
	for i, p := range f.pts {
		f.pts[i] = f.norm(p)
	}
	return f
}

func occursElse(p *Poly, id int32) bool {
	n := 0
	for _, t := range p.t {
		for _, x := range t.m {
			if x.a == id {
				n++
			} else if atomMentions(atoms[x.a], id) {
				return true
			}
		}
	}
	return n > 1
}

func atomMentions(a *Atom, id int32) bool {
	for _, q := range a.args {
		if polyMentions(q, id) {
			return true
		}
	}
	if a.pt != nil {
		for _, t := range a.pt.t {
			if polyMentions(t.c, id) {
				return true
			}
		}
	}
	if a.seq != nil {
		return seqMentions(a.seq, id)
	}
	return false
}
func polyMentions(p *Poly, id int32) bool {
	for _, t := range p.t {
		for _, f := range t.m {
			if f.a == id || atomMentions(atoms[f.a], id) {
				return true
			}
		}
	}
	return false
}
func seqMentions(s *Seq, id int32) bool {
	for _, g := range s.s {
		if g.p != nil && polyMentions(g.p, id) || g.sub != nil && seqMentions(g.sub, id) {
			return true
		}
	}
	return false
}

func (f *Facts) norm(p *Pt) *Pt {
	for _, s := range f.sub {
		p = rewritePt(p, s.id, s.by, map[string]*Poly{})
	}
	return p
}
func (f *Facts) normP(p *Poly) *Poly { return canonMod(deepSub(p, f.sub), hexN) }

// scalar congruences can be used inside point equations after multiplication by any
// monomial; the ones needed are added by scaling with the monomials of the goal.
type vec map[string]*big.Int

func (v vec) addScaled(w vec, k *big.Int) {
	for key, c := range w {
		x := new(big.Int).Mul(c, k)
		if o, ok := v[key]; ok {
			x.Add(x, o)
		}
		x.Mod(x, hexN)
		if x.Sign() == 0 {
			delete(v, key)
		} else {
			v[key] = x
		}
	}
}

func ptVec(p *Pt) vec {
	v := vec{}
	for _, t := range p.t {
		for _, m := range t.c.t {
			k := t.a.key + "\x00" + monoKey(m.m)
			v.addScaled(vec{k: m.c}, one)
		}
	}
	return v
}
func polyVec(pre string, p *Poly) vec {
	v := vec{}
	for _, m := range p.t {
		v.addScaled(vec{pre + "\x00" + monoKey(m.m): m.c}, one)
	}
	return v
}

type lin struct {
	rows []vec
	piv  []string
}

func (l *lin) reduce(v vec) vec {
	w := vec{}
	w.addScaled(v, one)
	for i, r := range l.rows {
		if c, ok := w[l.piv[i]]; ok {
			w.addScaled(r, new(big.Int).Neg(c))
		}
	}
	return w
}
func (l *lin) add(v vec) {
	w := l.reduce(v)
	if len(w) == 0 {
		return
	}
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	p := ks[len(ks)-1]
	inv := new(big.Int).ModInverse(w[p], hexN)
	n := vec{}
	n.addScaled(w, inv)
	for i := range l.rows {
		if c, ok := l.rows[i][p]; ok {
			l.rows[i].addScaled(n, new(big.Int).Neg(c))
		}
	}
	l.rows = append(l.rows, n)
	l.piv = append(l.piv, p)
}

// entailsPt: the facts imply p = identity.
func (f *Facts) entailsPt(p *Pt) bool {
	p = f.norm(p)
	if p.isZero() {
		return true
	}
	l := &lin{}
	for _, q := range f.pts {
		l.add(ptVec(q))
	}
	if len(l.reduce(ptVec(p))) == 0 {
		return true
	}
	// scalar congruences times each point atom and simple monomial
	mul := map[string]*Poly{"1": C(1)}
	col := func(q *Pt) {
		for _, t := range q.t {
			for _, m := range t.c.t {
				for i := range m.m {
					x := A(atoms[m.m[i].a])
					mul[x.key] = x
				}
			}
		}
	}
	col(p)
	if len(f.pts) < 16 && len(mul) < 16 {
		for _, q := range f.pts {
			for _, m := range mul {
				l.add(ptVec(PtMul(m, q)))
			}
		}
	}
	if len(f.sc) > 0 && len(mul) < 64 {
		at := map[int32]bool{}
		for _, q := range append(append([]*Pt{}, f.pts...), p) {
			for _, t := range q.t {
				at[t.a.id] = true
			}
		}
		for _, s := range f.sc {
			for id := range at {
				for _, m := range mul {
					l.add(ptVec(mkPt(map[int32]*Poly{id: canonMod(Mul(s, m), hexN)})))
				}
			}
		}
	}
	return len(l.reduce(ptVec(p))) == 0
}

// entailsSc: the facts imply p ≡ 0 (mod N).
func (f *Facts) entailsSc(p *Poly) bool {
	p = f.normP(p)
	if p.isZero() {
		return true
	}
	l := &lin{}
	for _, s := range f.sc {
		l.add(polyVec("", f.normP(s)))
	}
	return len(l.reduce(polyVec("", p))) == 0
}

func (f *Facts) String() string {
	s := cubeStr(f.cube)
	if len(s) > 700 {
		s = clip(s, 700)
	}
	return s
}

// cubesOf enumerates the feasible conjunctions of a guard.
func cubesOf(g Bdd, max int) ([]map[int32]bool, bool) {
	h := withAxioms(g)
	cs, ok := cubes(h, max)
	var out []map[int32]bool
	for _, c := range cs {
		if cubeLinFeasible(c) {
			out = append(out, c)
		}
	}
	return out, ok
}

// hashesIn lists the distinct digest segments occurring at top level of p (mod/int stripped).
func hashAtoms(p *Poly) []*Seq {
	var out []*Seq
	seen := map[string]bool{}
	var visit func(p *Poly)
	visit = func(p *Poly) {
		for _, t := range p.t {
			for _, f := range t.m {
				a := atoms[f.a]
				switch a.kind {
				case "mod", "inv":
					visit(a.args[0])
				case "int":
					if a.seq != nil && len(a.seq.s) == 1 && a.seq.s[0].k == "hash" && !seen[a.seq.key] {
						seen[a.seq.key] = true
						out = append(out, a.seq.s[0].sub)
					}
				}
			}
		}
	}
	visit(p)
	return out
}

func contains(s, sub string) bool { return strings.Contains(s, sub) }

// cubeContradicts substitutes the solved equalities of a cube into its other literals.
func cubeContradicts(cube map[int32]bool) bool {
	f := factsOf(cube, func(string) int { return 1 })
	if len(f.sub) == 0 {
		return false
	}
	for v, pos := range cube {
		a := B.vars[v]
		switch a.kind {
		case "le":
			q := deepSub(a.t, f.sub)
			if q == a.t {
				continue
			}
			l := LeC(Sub(q, CB(a.k)))
			if pos && l == False || !pos && l == True {
				return true
			}
		case "peq":
			q := f.norm(a.pt)
			if q == a.pt {
				continue
			}
			l := PEq(q)
			if pos && l == False || !pos && l == True {
				return true
			}
		}
	}
	return false
}

// feasibleDeep refines feasible with linear arithmetic and equality substitution.
func feasibleDeep(g Bdd) bool {
	if !feasible(g) {
		return false
	}
	cs, ok := cubesOf(g, 2000)
	if !ok {
		return true
	}
	for _, c := range cs {
		if !cubeContradicts(c) {
			return true
		}
	}
	return false
}
func impliesDeep(a, b Bdd) bool { return !feasibleDeep(And(a, Not(b))) }

// ptEqualUnder decides that got = want whenever pc holds, splitting on the guards inside got.
func ptEqualUnder(pc Bdd, got, want *Pt) (bool, string) {
	if !feasible(pc) {
		return true, ""
	}
	for _, p := range []*Pt{got, want} {
		if inds := p.indicators(); len(inds) > 0 {
			a := atoms[inds[0]]
			for _, v := range []bool{true, false} {
				c := a.bdd
				if !v {
					c = Not(c)
				}
				if ok, why := ptEqualUnder(And(pc, c), got.setInd(a.id, v), want.setInd(a.id, v)); !ok {
					return false, why
				}
			}
			return true, ""
		}
	}
	if got == want {
		return true, ""
	}
	cs, ok := cubesOf(pc, 500)
	if !ok {
		return false, "too many cases"
	}
	for _, c := range cs {
		f := factsOf(c, func(string) int { return 1 })
		if cubeContradicts(c) {
			continue
		}
		if !f.entailsPt(PtSub(got, want)) {
			return false, "under " + f.String() + " the result is " + got.String()
		}
	}
	return true, ""
}

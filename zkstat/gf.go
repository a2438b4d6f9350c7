package main

// Field-element domain: elements of GF(P) as rational functions (numerator and
// denominator polynomials with coefficients modulo P) together with the
// representation state of the limb form (magnitude, normalised or not). The
// methods of the field type are used through their contracts, which the field
// check establishes from their source.

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// GP is a polynomial over GF(P); monomials are byte strings of (variable, exponent) pairs.
type GP struct {
	key string
	t   map[string]*big.Int
}

type gfVar struct {
	name  string
	poly  *Poly // canonical integer with this value, when there is one
	sq    *GP   // replacement of the square of the variable
	pt    *Pt   // coordinate (0: X, 1: Y, 2: Z) of a Jacobian triple standing for pt
	coord int
	op    int
	tag   *scPt // coordinate of a point known as a combination of base points
}

var gf struct {
	vars    []*gfVar
	byAtom  map[int32]int
	nonzero []*GP
	cond    map[string]Bdd
	condOf  map[int32]*GP
	rat     map[string][2]*GP
	intern  map[string]*GP
}

func gfReset() {
	gf.vars, gf.nonzero = nil, nil
	gf.byAtom, gf.cond, gf.condOf = map[int32]int{}, map[string]Bdd{}, map[int32]*GP{}
	gf.rat, gf.intern = map[string][2]*GP{}, map[string]*GP{}
}

func init() { gfReset(); resetHooks = append(resetHooks, gfReset) }

func gfNewVar(name string, p *Poly) int {
	gf.vars = append(gf.vars, &gfVar{name: name, poly: p})
	i := len(gf.vars) - 1
	if p != nil {
		if a := p.isAtom(); a != nil {
			gf.byAtom[a.id] = i
		}
	}
	return i
}

func mkGP(t map[string]*big.Int) *GP {
	ks := make([]string, 0, len(t))
	for k, c := range t {
		if c.Sign() == 0 {
			delete(t, k)
			continue
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%x:%s;", k, t[k].Text(36))
	}
	s := b.String()
	if g, ok := gf.intern[s]; ok {
		return g
	}
	g := &GP{s, t}
	gf.intern[s] = g
	return g
}

func gpC(c *big.Int) *GP {
	v := new(big.Int).Mod(c, hexP)
	return mkGP(map[string]*big.Int{"": v})
}
func gpI(n int64) *GP { return gpC(bi(n)) }
func gpV(i int) *GP   { return mkGP(map[string]*big.Int{gpMon(i, 1): bi(1)}) }
func gpMon(v, e int) string {
	var b [4]byte
	binary.BigEndian.PutUint16(b[:2], uint16(v))
	binary.BigEndian.PutUint16(b[2:], uint16(e))
	return string(b[:])
}
func monVE(m string, i int) (int, int) {
	return int(binary.BigEndian.Uint16([]byte(m[i : i+2]))), int(binary.BigEndian.Uint16([]byte(m[i+2 : i+4])))
}
func monMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	var r []byte
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i:i+2] < b[j:j+2]:
			r = append(r, a[i:i+4]...)
			i += 4
		case i >= len(a) || b[j:j+2] < a[i:i+2]:
			r = append(r, b[j:j+4]...)
			j += 4
		default:
			_, e := monVE(a, i)
			v, f := monVE(b, j)
			r = append(r, gpMon(v, e+f)...)
			i += 4
			j += 4
		}
	}
	return string(r)
}

func (p *GP) isZero() bool { return len(p.t) == 0 }
func (p *GP) isConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return zero, true
	}
	if len(p.t) == 1 {
		if c, ok := p.t[""]; ok {
			return c, true
		}
	}
	return nil, false
}
func (p *GP) isVar() int {
	if len(p.t) == 1 {
		for m, c := range p.t {
			if len(m) == 4 && c.Cmp(one) == 0 {
				if v, e := monVE(m, 0); e == 1 {
					return v
				}
			}
		}
	}
	return -1
}

func gpAcc(t map[string]*big.Int, m string, c *big.Int) {
	if o, ok := t[m]; ok {
		c = new(big.Int).Add(o, c)
	}
	t[m] = new(big.Int).Mod(c, hexP)
}

func gpAdd(a, b *GP) *GP {
	t := make(map[string]*big.Int, len(a.t)+len(b.t))
	for m, c := range a.t {
		t[m] = c
	}
	for m, c := range b.t {
		gpAcc(t, m, c)
	}
	return mkGP(t)
}
func gpScale(a *GP, k *big.Int) *GP {
	t := make(map[string]*big.Int, len(a.t))
	for m, c := range a.t {
		gpAcc(t, m, new(big.Int).Mul(c, k))
	}
	return mkGP(t)
}
func gpSub(a, b *GP) *GP { return gpAdd(a, gpScale(b, bi(-1))) }

const gpLimit = 60000

func gpMul(a, b *GP) *GP {
	if len(a.t)*len(b.t) > 40*gpLimit {
		panic("field polynomial too large")
	}
	t := make(map[string]*big.Int, len(a.t)+len(b.t))
	for m, c := range a.t {
		for n, d := range b.t {
			gpAcc(t, monMul(m, n), new(big.Int).Mul(c, d))
		}
	}
	return gpRed(mkGP(t))
}

// gpRed applies the square replacements (the curve equation).
func gpRed(p *GP) *GP {
	for {
		var hit string
		var hv, he int
		for m := range p.t {
			for i := 0; i < len(m); i += 4 {
				if v, e := monVE(m, i); e >= 2 && gf.vars[v].sq != nil {
					hit, hv, he = m, v, e
				}
			}
		}
		if hit == "" {
			return p
		}
		_ = he
		t := map[string]*big.Int{}
		var repl *GP = gpC(zero)
		for m, c := range p.t {
			done := false
			for i := 0; i < len(m); i += 4 {
				v, e := monVE(m, i)
				if v == hv && e >= 2 {
					rest := m[:i]
					if e%2 == 1 {
						rest += gpMon(v, 1)
					}
					rest += m[i+4:]
					q := mkGP(map[string]*big.Int{rest: c})
					for k := 0; k < e/2; k++ {
						q = gpMulRaw(q, gf.vars[v].sq)
					}
					repl = gpAdd(repl, q)
					done = true
					break
				}
			}
			if !done {
				gpAcc(t, m, c)
			}
		}
		p = gpAdd(mkGP(t), repl)
	}
}

func gpMulRaw(a, b *GP) *GP {
	t := map[string]*big.Int{}
	for m, c := range a.t {
		for n, d := range b.t {
			gpAcc(t, monMul(m, n), new(big.Int).Mul(c, d))
		}
	}
	return mkGP(t)
}

func gpPow(a *GP, n int) *GP {
	r := gpI(1)
	for i := 0; i < n; i++ {
		r = gpMul(r, a)
	}
	return r
}

// monLess is the lexicographic order by variable number (smaller variables dominate).
func monCmp(a, b string) int {
	i, j := 0, 0
	for {
		if i >= len(a) && j >= len(b) {
			return 0
		}
		if i >= len(a) {
			return -1
		}
		if j >= len(b) {
			return 1
		}
		va, ea := monVE(a, i)
		vb, eb := monVE(b, j)
		if va != vb {
			if va < vb {
				return 1
			}
			return -1
		}
		if ea != eb {
			if ea > eb {
				return 1
			}
			return -1
		}
		i += 4
		j += 4
	}
}

func (p *GP) lead() (string, *big.Int) {
	best, ok := "", false
	for m := range p.t {
		if !ok || monCmp(m, best) > 0 {
			best, ok = m, true
		}
	}
	return best, p.t[best]
}

func monQuo(m, d string) (string, bool) {
	var r []byte
	i := 0
	for j := 0; j < len(d); j += 4 {
		v, e := monVE(d, j)
		for i < len(m) {
			if x, _ := monVE(m, i); x < v {
				r = append(r, m[i:i+4]...)
				i += 4
				continue
			}
			break
		}
		if i >= len(m) {
			return "", false
		}
		x, f := monVE(m, i)
		if x != v || f < e {
			return "", false
		}
		if f > e {
			r = append(r, gpMon(v, f-e)...)
		}
		i += 4
	}
	r = append(r, m[i:]...)
	return string(r), true
}

// gpDiv divides exactly, or reports that it cannot.
func gpDiv(a, d *GP) (*GP, bool) {
	lm, lc := d.lead()
	inv := new(big.Int).ModInverse(lc, hexP)
	q := map[string]*big.Int{}
	for !a.isZero() {
		m, c := a.lead()
		r, ok := monQuo(m, lm)
		if !ok {
			return nil, false
		}
		k := new(big.Int).Mul(c, inv)
		k.Mod(k, hexP)
		gpAcc(q, r, k)
		a = gpSub(a, gpMulRaw(mkGP(map[string]*big.Int{r: k}), d))
	}
	return mkGP(q), true
}

// gpStrip removes the factors known to be nonzero and makes the result monic.
func gpStrip(p *GP) *GP {
	if p.isZero() {
		return p
	}
	for again := true; again; {
		again = false
		for _, z := range gf.nonzero {
			if _, c := z.isConst(); c {
				continue
			}
			if q, ok := gpDiv(p, z); ok {
				p, again = q, true
			}
		}
	}
	_, c := p.lead()
	return gpScale(p, new(big.Int).ModInverse(c, hexP))
}

// gpZero is the condition that p is zero in the field.
func gpZero(p *GP) Bdd {
	if p.isZero() {
		return True
	}
	q := gpStrip(p)
	if _, ok := q.isConst(); ok {
		return False
	}
	if b, ok := gf.cond[q.key]; ok {
		return b
	}
	var b Bdd
	// x = constant for a variable that is a canonical integer
	var v = -1
	var k *big.Int = zero
	simple := true
	for m, c := range q.t {
		switch {
		case m == "":
			k = c
		case len(m) == 4 && v < 0:
			x, _ := monVE(m, 0)
			_, e := monVE(m, 0)
			if e > 1 && len(q.t) > 1 {
				simple = false
			}
			v = x
		default:
			simple = false
		}
	}
	if simple && v >= 0 && gf.vars[v].poly != nil {
		b = EqP(gf.vars[v].poly, CB(new(big.Int).Mod(new(big.Int).Neg(k), hexP)))
	} else if simple && v >= 0 && gf.vars[v].pt != nil && gf.vars[v].coord == 2 && k.Sign() == 0 {
		b = PEq(gf.vars[v].pt)
	} else {
		b = symCond("field:" + q.String() + "=0")
	}
	for _, s := range support(b) {
		if len(support(b)) == 1 {
			gf.condOf[s] = q
		}
	}
	gf.cond[q.key] = b
	return b
}

func (p *GP) String() string {
	if p.isZero() {
		return "0"
	}
	ms := make([]string, 0, len(p.t))
	for m := range p.t {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return monCmp(ms[i], ms[j]) > 0 })
	half := new(big.Int).Rsh(hexP, 1)
	var out []string
	for n, m := range ms {
		if n > 12 {
			out = append(out, fmt.Sprintf("... %d more terms", len(ms)-n))
			break
		}
		c := p.t[m]
		s := c.String()
		if c.Cmp(half) > 0 {
			s = "-" + new(big.Int).Sub(hexP, c).String()
		}
		var f []string
		for i := 0; i < len(m); i += 4 {
			v, e := monVE(m, i)
			if e == 1 {
				f = append(f, gf.vars[v].name)
			} else {
				f = append(f, fmt.Sprintf("%s^%d", gf.vars[v].name, e))
			}
		}
		if len(f) > 0 {
			if s == "1" {
				s = ""
			} else if s == "-1" {
				s = "-"
			}
			s += strings.Join(f, "*")
		}
		out = append(out, s)
	}
	return strings.Join(out, " + ")
}

// gpSubst replaces a variable.
func gpSubst(p *GP, v int, by *GP) *GP {
	r := gpC(zero)
	keep := map[string]*big.Int{}
	for m, c := range p.t {
		hit := false
		for i := 0; i < len(m); i += 4 {
			x, e := monVE(m, i)
			if x == v {
				q := mkGP(map[string]*big.Int{m[:i] + m[i+4:]: c})
				for k := 0; k < e; k++ {
					q = gpMul(q, by)
				}
				r = gpAdd(r, q)
				hit = true
				break
			}
		}
		if !hit {
			keep[m] = c
		}
	}
	return gpRed(gpAdd(r, mkGP(keep)))
}

// ---- values ----

type gfAlt struct {
	c        Bdd
	num, den *GP
	mag      int
	norm     bool
	exp      *big.Int // value is (the argument)^exp, in the check of the inversion chain
}

func (a *gfAlt) same(b *gfAlt) bool {
	return a.num == b.num && a.den == b.den && a.mag == b.mag && a.norm == b.norm && (a.exp == b.exp || a.exp != nil && b.exp != nil && a.exp.Cmp(b.exp) == 0)
}

// GFV is the abstract content of the limbs of a field value.
type GFV struct{ alts []gfAlt }

func mkGFV(alts []gfAlt) *GFV {
	var r []gfAlt
outer:
	for _, a := range alts {
		if a.c == False {
			continue
		}
		for i := range r {
			if r[i].same(&a) {
				r[i].c = Or(r[i].c, a.c)
				continue outer
			}
		}
		r = append(r, a)
	}
	return &GFV{r}
}

func gfConst(n *big.Int, mag int, norm bool) *GFV {
	return &GFV{[]gfAlt{{c: True, num: gpC(n), den: gpI(1), mag: mag, norm: norm}}}
}

func gfOfLimbs(a *ArrV) (*GFV, bool) {
	if len(a.e) != 10 {
		return nil, false
	}
	v := new(big.Int)
	mag := 1
	norm := true
	for i := 9; i >= 0; i-- {
		p, ok := a.e[i].(*Poly)
		if !ok {
			return nil, false
		}
		c, ok := p.isConst()
		if !ok {
			return nil, false
		}
		v.Lsh(v, 26)
		v.Add(v, c)
		w := uint(26)
		if i == 9 {
			w = 22
		}
		m := int(new(big.Int).Rsh(c, w).Int64())
		if m > 0 {
			norm = false
			if m+1 > mag {
				mag = m + 1
			}
		}
	}
	if v.Cmp(hexP) >= 0 {
		norm = false
	}
	return gfConst(v, mag, norm), true
}

func asGFV(v Val) (*GFV, bool) {
	switch x := v.(type) {
	case *GFV:
		return x, true
	case *ArrV:
		return gfOfLimbs(x)
	case *StructV:
		if len(x.f) == 1 {
			return asGFV(x.f[0])
		}
	}
	return nil, false
}

func iteGF(c Bdd, x, y *GFV) *GFV {
	var r []gfAlt
	for _, a := range x.alts {
		a.c = And(a.c, c)
		r = append(r, a)
	}
	for _, a := range y.alts {
		a.c = And(a.c, Not(c))
		r = append(r, a)
	}
	return mkGFV(r)
}

func sameGF(x, y *GFV) bool {
	if len(x.alts) != len(y.alts) {
		return false
	}
	for i := range x.alts {
		if x.alts[i].c != y.alts[i].c || !x.alts[i].same(&y.alts[i]) {
			return false
		}
	}
	return true
}

// gpOfPoly is the field value of an integer polynomial, by cases over its guards.
func gpOfPoly(p *Poly, pc Bdd) []gfAlt {
	var r []gfAlt
	for _, l := range leavesOf([]*Poly{p}, pc) {
		q := l.ps[0]
		_, hi := q.interval()
		lo, _ := q.interval()
		norm := lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(hexP) < 0
		r = append(r, gfAlt{c: l.c, num: gpFrom(q), den: gpI(1), mag: 1, norm: norm})
	}
	return r
}

func gpFrom(p *Poly) *GP {
	r := gpC(zero)
	for _, t := range p.t {
		q := gpC(t.c)
		for _, f := range t.m {
			a := atoms[f.a]
			var b *GP
			if a.kind == "mod" && a.m != nil && a.m.Cmp(hexP) == 0 && len(a.args) > 0 {
				b = gpFrom(a.args[0])
			} else if rat, ok := gf.rat[a.name]; ok && a.kind == "app" {
				if c, isC := rat[1].isConst(); isC && c.Cmp(one) == 0 {
					b = rat[0]
				}
			}
			if b == nil {
				i, ok := gf.byAtom[a.id]
				if !ok {
					i = gfNewVar(a.String(), A(a))
				}
				b = gpV(i)
			}
			q = gpMul(q, gpPow(b, int(f.e)))
		}
		r = gpAdd(r, q)
	}
	return r
}

type leaf struct {
	c  Bdd
	ps []*Poly
}

// leavesOf splits guarded integers into their cases under pc.
func leavesOf(ps []*Poly, pc Bdd) []leaf {
	if !feasible(pc) {
		return nil
	}
	for _, p := range ps {
		for _, a := range p.indicators() {
			f := atoms[a].bdd
			var out []leaf
			for _, val := range []bool{true, false} {
				g := f
				if !val {
					g = Not(f)
				}
				c := And(pc, g)
				if c == False {
					continue
				}
				qs := make([]*Poly, len(ps))
				for i, q := range ps {
					qs[i] = q.setInd(a, val)
				}
				out = append(out, leavesOf(qs, c)...)
			}
			return out
		}
	}
	return []leaf{{pc, ps}}
}

// polyOf is the canonical integer in [0, P) of a field value.
func (v *GFV) polyOf() *Poly {
	var r *Poly
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		p := ratPoly(a.num, a.den)
		if r == nil {
			r = p
		} else {
			r = IteP(a.c, p, r)
		}
	}
	return r
}

func ratPoly(num, den *GP) *Poly {
	if d, ok := den.isConst(); ok {
		num = gpScale(num, new(big.Int).ModInverse(d, hexP))
		den = gpI(1)
	} else {
		for again := true; again; {
			again = false
			for _, z := range gf.nonzero {
				q, ok := gpDiv(num, z)
				e, ok2 := gpDiv(den, z)
				if ok && ok2 && !num.isZero() {
					num, den, again = q, e, true
				}
			}
		}
		_, c := den.lead()
		k := new(big.Int).ModInverse(c, hexP)
		num, den = gpScale(num, k), gpScale(den, k)
	}
	if num.isZero() {
		return C(0)
	}
	if d, ok := den.isConst(); ok && d.Cmp(one) == 0 {
		if c, ok := num.isConst(); ok {
			return CB(c)
		}
		if v := num.isVar(); v >= 0 && gf.vars[v].poly != nil {
			return gf.vars[v].poly
		}
	}
	if p := jacCoord(num, den); p != nil {
		return p
	}
	name := "field(" + num.key + "/" + den.key + ")"
	gf.rat[name] = [2]*GP{num, den}
	return App(name, zero, new(big.Int).Sub(hexP, one))
}

// jacCoord recognises X/Z^2 and Y/Z^3 of one Jacobian triple.
func jacCoord(num, den *GP) *Poly {
	v := num.isVar()
	if v < 0 || gf.vars[v].pt == nil && gf.vars[v].tag == nil {
		return nil
	}
	x := gf.vars[v]
	if x.tag != nil {
		for _, i := range [...]int{x.op, x.op + 1, x.op + 2} {
			if w := gf.vars[i]; w.tag == x.tag && w.coord == 2 {
				if x.coord == 0 && den == gpPow(gpV(i), 2) || x.coord == 1 && den == gpPow(gpV(i), 3) {
					return x.tag.coordinate(x.coord)
				}
			}
		}
		return nil
	}
	for i, w := range gf.vars {
		if w.pt == x.pt && w.op == x.op && w.coord == 2 {
			if x.coord == 0 && den == gpPow(gpV(i), 2) {
				return XofP(x.pt)
			}
			if x.coord == 1 && den == gpPow(gpV(i), 3) {
				return YofP(x.pt)
			}
		}
	}
	return nil
}

const fv = "(*" + repoPrefix + "/btcec.fieldVal)."
const maxMag = 32

func (I *Interp) gfGet(st *State, p Val, pos token.Pos) *GFV {
	t := I.P.namedType("btcec", "fieldVal")
	v := I.load(st, p, t, pos)
	g, ok := asGFV(v)
	if !ok {
		I.event(Event{kind: "unmodelled", what: "field value of unknown content", pos: pos, cond: st.pc})
		g = &GFV{[]gfAlt{{c: True, num: gpV(gfNewVar(I.freshName("fieldval"), nil)), den: gpI(1), mag: maxMag, norm: false}}}
	}
	return g
}

func (I *Interp) gfPut(st *State, p Val, g *GFV, pos token.Pos) {
	I.store(st, p, &StructV{[]Val{g}}, pos)
}

// gfNeed records a violation of the representation discipline.
func (I *Interp) gfNeed(st *State, bad Bdd, pos token.Pos, what string) {
	c := And(st.pc, bad)
	if c != False && feasible(c) && gfFeasible(c) {
		I.event(Event{kind: "field", what: what, pos: pos, cond: c})
	}
}

// gfFeasible discards conditions whose field literals contradict each other.
func gfFeasible(f Bdd) bool {
	cs, ok := cubesOf(f, 2000)
	if !ok {
		return true
	}
	for _, c := range cs {
		if _, ok := gfFacts(c); ok {
			return true
		}
	}
	return false
}

type gfSub struct {
	v  int
	by *GP
}

// gfFacts turns the equalities of a cube into substitutions; false if the cube is contradictory.
func gfFacts(cube map[int32]bool) ([]gfSub, bool) {
	var subs []gfSub
	app := func(p *GP) *GP {
		for _, s := range subs {
			p = gpSubst(p, s.v, s.by)
		}
		return p
	}
	var pos, neg []*GP
	for v, val := range cube {
		if g, ok := gf.condOf[v]; ok {
			// the condition variable is true exactly when g = 0, up to the polarity of its node
			b := gf.cond[g.key]
			if (cofactor(b, v, true) == True) == val {
				pos = append(pos, g)
			} else {
				neg = append(neg, g)
			}
		}
	}
	sort.Slice(pos, func(i, j int) bool { return pos[i].key < pos[j].key })
	for round := 0; round < 4; round++ {
		for _, g := range pos {
			h := app(g)
			if h.isZero() {
				continue
			}
			if c, ok := gpStrip(h).isConst(); ok && c.Sign() != 0 {
				return nil, false
			}
			// linear in a variable with a constant coefficient
			for m, c := range h.t {
				if len(m) != 4 {
					continue
				}
				v, e := monVE(m, 0)
				if e != 1 || gf.vars[v].sq != nil {
					continue
				}
				alone := true
				for n := range h.t {
					if n == m {
						continue
					}
					for i := 0; i < len(n); i += 4 {
						if x, _ := monVE(n, i); x == v {
							alone = false
						}
					}
				}
				if !alone {
					continue
				}
				rest := gpSub(h, mkGP(map[string]*big.Int{m: c}))
				by := gpScale(rest, new(big.Int).Neg(new(big.Int).ModInverse(c, hexP)))
				for i := range subs {
					subs[i].by = gpSubst(subs[i].by, v, by)
				}
				subs = append(subs, gfSub{v, by})
				break
			}
		}
	}
	for _, g := range neg {
		if app(g).isZero() {
			return nil, false
		}
	}
	for _, g := range gf.nonzero {
		if app(g).isZero() {
			return nil, false
		}
	}
	return subs, true
}

func (I *Interp) gfBin(st *State, x, y *GFV, f func(a, b *gfAlt, c Bdd) []gfAlt) *GFV {
	var r []gfAlt
	for i := range x.alts {
		for j := range y.alts {
			c := And(x.alts[i].c, y.alts[j].c)
			if c == False || And(c, st.pc) == False || (len(x.alts) > 1 || len(y.alts) > 1) && !feasible(And(st.pc, c)) {
				continue
			}
			for _, a := range f(&x.alts[i], &y.alts[j], c) {
				a.c = And(a.c, c)
				r = append(r, a)
			}
		}
	}
	return mkGFV(r)
}

func ratAdd(a, b *gfAlt) (*GP, *GP) {
	if a.den == b.den {
		return gpAdd(a.num, b.num), a.den
	}
	return gpAdd(gpMul(a.num, b.den), gpMul(b.num, a.den)), gpMul(a.den, b.den)
}

func (I *Interp) gfMulVals(st *State, x, y *GFV, pos token.Pos) *GFV {
	return I.gfBin(st, x, y, func(a, b *gfAlt, c Bdd) []gfAlt {
		if a.mag > 8 || b.mag > 8 {
			I.gfNeed(st, c, pos, fmt.Sprintf("multiplication of field values of magnitude %d and %d (at most 8 is allowed)", a.mag, b.mag))
		}
		if a.exp != nil && b.exp != nil {
			return []gfAlt{{c: True, num: a.num, den: a.den, mag: 1, exp: new(big.Int).Add(a.exp, b.exp)}}
		}
		if a.num.isZero() && a.norm || b.num.isZero() && b.norm {
			return []gfAlt{{c: True, num: gpC(zero), den: gpI(1), mag: 1, norm: true}}
		}
		return []gfAlt{{c: True, num: gpMul(a.num, b.num), den: gpMul(a.den, b.den), mag: 1}}
	})
}

func (I *Interp) gfAddVals(st *State, x, y *GFV, pos token.Pos) *GFV {
	return I.gfBin(st, x, y, func(a, b *gfAlt, c Bdd) []gfAlt {
		n, d := ratAdd(a, b)
		m := a.mag + b.mag
		if m > maxMag {
			I.gfNeed(st, c, pos, fmt.Sprintf("sum of field values of magnitude %d and %d overflows the limbs", a.mag, b.mag))
			m = maxMag
		}
		return []gfAlt{{c: True, num: n, den: d, mag: m}}
	})
}

// gfEq is the result of a limb-wise comparison.
func (I *Interp) gfEq(st *State, x, y *GFV, pos token.Pos, what string) Bdd {
	r := False
	for _, a := range x.alts {
		for _, b := range y.alts {
			c := And(a.c, b.c)
			if c == False || And(c, st.pc) == False {
				continue
			}
			nb := b
			nb.num = gpScale(b.num, bi(-1))
			n, _ := ratAdd(&a, &nb)
			z := gpZero(n)
			if !(a.norm && b.norm) && z != False {
				// equal values may have different limbs
				z = And(z, symCond(I.freshName(what+" of an unnormalised field value at "+I.P.pos(pos)+" succeeds")))
			}
			r = Or(r, And(c, z))
		}
	}
	return r
}

func (I *Interp) smallConst(st *State, v Val, t types.Type, pos token.Pos) int64 {
	p := I.asPoly(st, v, t)
	if n, ok := p.constInt(); ok {
		return n
	}
	I.event(Event{kind: "unmodelled", what: "field operation with a variable integer", pos: pos, cond: st.pc})
	return 1
}

// useField installs the contracts of the field methods.
func (I *Interp) useField() {
	ut := types.Typ[types.Uint]
	u32 := types.Typ[types.Uint32]
	S := func(name string, f func(st *State, c *callCtx) Val) {
		I.sum[fv+name] = func(I *Interp, st *State, c *callCtx) Val { return f(st, c) }
	}
	S("Zero", func(st *State, c *callCtx) Val {
		I.gfPut(st, c.args[0], gfConst(zero, 1, true), c.pos)
		return &TupleV{}
	})
	S("SetInt", func(st *State, c *callCtx) Val {
		n := I.smallConst(st, c.args[1], ut, c.pos)
		g := gfConst(bi(n), 1, true)
		if n >= 1<<26 {
			I.gfNeed(st, True, c.pos, "integer too large for a limb")
		}
		I.gfPut(st, c.args[0], g, c.pos)
		return c.args[0]
	})
	S("SetByteSlice", func(st *State, c *callCtx) Val {
		s := I.bytesOf(st, c.args[1], c.pos)
		p := s.liftP(st.pc, intOf)
		I.gfNeed(st, Not(LeqP(s.length(st.pc), C(32))), c.pos, "byte string of more than 32 bytes loaded into a field value")
		I.gfPut(st, c.args[0], mkGFV(gpOfPoly(p, st.pc)), c.pos)
		return c.args[0]
	})
	S("SetBytes", func(st *State, c *callCtx) Val {
		v := I.load(st, c.args[1], types.NewArray(types.Typ[types.Uint8], 32), c.pos)
		q, ok := v.(*SeqV)
		if !ok {
			I.event(Event{kind: "unmodelled", what: "SetBytes of unknown bytes", pos: c.pos, cond: st.pc})
			return c.args[0]
		}
		I.gfPut(st, c.args[0], mkGFV(gpOfPoly(q.liftP(st.pc, intOf), st.pc)), c.pos)
		return c.args[0]
	})
	S("Normalize", func(st *State, c *callCtx) Val {
		g := I.gfGet(st, c.args[0], c.pos)
		var r []gfAlt
		for _, a := range g.alts {
			if a.mag > maxMag {
				I.gfNeed(st, a.c, c.pos, "normalisation of an overflowed field value")
			}
			a.mag, a.norm = 1, true
			r = append(r, a)
		}
		I.gfPut(st, c.args[0], mkGFV(r), c.pos)
		return c.args[0]
	})
	putBytes := func(st *State, dst Val, src Val, pos token.Pos) {
		g := I.gfGet(st, src, pos)
		for _, a := range g.alts {
			if !a.norm {
				I.gfNeed(st, a.c, pos, "bytes taken of a field value that need not be normalised")
			}
		}
		I.store(st, dst, mkSeqV(seqPad(g.polyOf(), 32)), pos)
	}
	S("PutBytes", func(st *State, c *callCtx) Val {
		putBytes(st, c.args[1], c.args[0], c.pos)
		return &TupleV{}
	})
	S("Bytes", func(st *State, c *callCtx) Val {
		t := types.NewArray(types.Typ[types.Uint8], 32)
		p := ptrTo(I.newObj(st, t, I.zero(st, t), "alloc", c.pos))
		putBytes(st, p, c.args[0], c.pos)
		return p
	})
	S("IsZero", func(st *State, c *callCtx) Val {
		return I.gfEq(st, I.gfGet(st, c.args[0], c.pos), gfConst(zero, 1, true), c.pos, "zero test")
	})
	S("IsOdd", func(st *State, c *callCtx) Val {
		g := I.gfGet(st, c.args[0], c.pos)
		for _, a := range g.alts {
			if !a.norm {
				I.gfNeed(st, a.c, c.pos, "parity of a field value that need not be normalised")
			}
		}
		return EqP(LowP(g.polyOf(), 1), C(1))
	})
	S("Equals", func(st *State, c *callCtx) Val {
		return I.gfEq(st, I.gfGet(st, c.args[0], c.pos), I.gfGet(st, c.args[1], c.pos), c.pos, "comparison")
	})
	neg := func(st *State, dst, src, mag Val, pos token.Pos) {
		g := I.gfGet(st, src, pos)
		m := int(I.smallConst(st, mag, u32, pos))
		var r []gfAlt
		for _, a := range g.alts {
			if a.mag > m {
				I.gfNeed(st, a.c, pos, fmt.Sprintf("negation of a field value of magnitude %d as if it had magnitude %d", a.mag, m))
			}
			if m+1 > maxMag {
				I.gfNeed(st, a.c, pos, fmt.Sprintf("negation result of magnitude %d overflows the limbs", m+1))
			}
			r = append(r, gfAlt{c: a.c, num: gpScale(a.num, bi(-1)), den: a.den, mag: m + 1})
		}
		I.gfPut(st, dst, mkGFV(r), pos)
	}
	S("NegateVal", func(st *State, c *callCtx) Val {
		neg(st, c.args[0], c.args[1], c.args[2], c.pos)
		return c.args[0]
	})
	S("Negate", func(st *State, c *callCtx) Val {
		neg(st, c.args[0], c.args[0], c.args[1], c.pos)
		return c.args[0]
	})
	S("AddInt", func(st *State, c *callCtx) Val {
		n := I.smallConst(st, c.args[1], ut, c.pos)
		if n >= 1<<26 {
			I.gfNeed(st, True, c.pos, "integer too large for a limb")
		}
		I.gfPut(st, c.args[0], I.gfAddVals(st, I.gfGet(st, c.args[0], c.pos), gfConst(bi(n), 1, true), c.pos), c.pos)
		return c.args[0]
	})
	S("Add", func(st *State, c *callCtx) Val {
		I.gfPut(st, c.args[0], I.gfAddVals(st, I.gfGet(st, c.args[0], c.pos), I.gfGet(st, c.args[1], c.pos), c.pos), c.pos)
		return c.args[0]
	})
	S("Add2", func(st *State, c *callCtx) Val {
		I.gfPut(st, c.args[0], I.gfAddVals(st, I.gfGet(st, c.args[1], c.pos), I.gfGet(st, c.args[2], c.pos), c.pos), c.pos)
		return c.args[0]
	})
	S("MulInt", func(st *State, c *callCtx) Val {
		n := I.smallConst(st, c.args[1], ut, c.pos)
		g := I.gfGet(st, c.args[0], c.pos)
		var r []gfAlt
		for _, a := range g.alts {
			m := int64(a.mag) * n
			if m > maxMag {
				I.gfNeed(st, a.c, c.pos, fmt.Sprintf("field value of magnitude %d times %d overflows the limbs", a.mag, n))
				m = maxMag
			}
			if m < 1 {
				m = 1
			}
			norm := n == 0 || n == 1 && a.norm || a.num.isZero() && a.norm
			r = append(r, gfAlt{c: a.c, num: gpScale(a.num, bi(n)), den: a.den, mag: int(m), norm: norm})
		}
		I.gfPut(st, c.args[0], mkGFV(r), c.pos)
		return c.args[0]
	})
	mul := func(st *State, dst, x, y Val, pos token.Pos) Val {
		I.gfPut(st, dst, I.gfMulVals(st, I.gfGet(st, x, pos), I.gfGet(st, y, pos), pos), pos)
		return dst
	}
	S("Mul", func(st *State, c *callCtx) Val { return mul(st, c.args[0], c.args[0], c.args[1], c.pos) })
	S("Mul2", func(st *State, c *callCtx) Val { return mul(st, c.args[0], c.args[1], c.args[2], c.pos) })
	square := func(st *State, dst, x Val, pos token.Pos) Val {
		g := I.gfGet(st, x, pos)
		var r []gfAlt
		for _, a := range g.alts {
			c := a.c
			if And(c, st.pc) == False {
				continue
			}
			one := &GFV{[]gfAlt{a}}
			for _, b := range I.gfMulVals(st, one, one, pos).alts {
				b.c = c
				r = append(r, b)
			}
		}
		I.gfPut(st, dst, mkGFV(r), pos)
		return dst
	}
	S("Square", func(st *State, c *callCtx) Val { return square(st, c.args[0], c.args[0], c.pos) })
	S("SquareVal", func(st *State, c *callCtx) Val { return square(st, c.args[0], c.args[1], c.pos) })
	S("Inverse", func(st *State, c *callCtx) Val {
		g := I.gfGet(st, c.args[0], c.pos)
		var r []gfAlt
		for _, a := range g.alts {
			if a.mag > 8 {
				I.gfNeed(st, a.c, c.pos, fmt.Sprintf("inversion of a field value of magnitude %d", a.mag))
			}
			if v := a.num.isVar(); v >= 0 && (gf.vars[v].pt != nil || gf.vars[v].tag != nil) && gf.vars[v].coord == 2 {
				r = append(r, gfAlt{c: a.c, num: a.den, den: a.num, mag: 1}) // zero only for the identity, whose affine coordinates are 0 either way
				continue
			}
			z := gpZero(a.num)
			r = append(r, gfAlt{c: And(a.c, z), num: gpC(zero), den: gpI(1), mag: 1, norm: a.norm})
			if z != True {
				r = append(r, gfAlt{c: And(a.c, Not(z)), num: a.den, den: a.num, mag: 1})
			}
		}
		I.gfPut(st, c.args[0], mkGFV(r), c.pos)
		return c.args[0]
	})
}

var _ = ssa.NaiveForm

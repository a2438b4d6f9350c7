package main

// Value-numbering domain for integers: multivariate integer polynomials over
// hash-consed atoms. Guarded integers are multilinear in indicator atoms.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type bigInt = big.Int
type bigPtr = *big.Int

func bi(n int64) *big.Int { return big.NewInt(n) }

var (
	hexN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	hexP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	one     = bi(1)
	zero    = bi(0)
)

type Atom struct {
	id     int32
	kind   string
	name   string
	args   []*Poly
	pt     *Pt
	seq    *Seq
	bdd    Bdd
	m      *big.Int
	lo, hi *big.Int // nil = unbounded
	key    string
	// per-kind marks
	tags map[string]bool
}

var (
	atoms   []*Atom
	atomKey = map[string]*Atom{}
)

func internAtom(a *Atom) *Atom {
	if x, ok := atomKey[a.key]; ok {
		return x
	}
	a.id = int32(len(atoms))
	atoms = append(atoms, a)
	atomKey[a.key] = a
	return a
}

type fac struct {
	a int32
	e int32
}
type Term struct {
	m []fac
	c *big.Int
}
type Poly struct {
	t     []Term
	key   string
	ind   []int32 // indicator atoms appearing at top level (cached)
	indOK bool
}

func monoKey(m []fac) string {
	if len(m) == 0 {
		return ""
	}
	var sb strings.Builder
	for i, f := range m {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(strconv.Itoa(int(f.a)))
		if f.e != 1 {
			sb.WriteByte('^')
			sb.WriteString(strconv.Itoa(int(f.e)))
		}
	}
	return sb.String()
}

func monoDeg(m []fac) int {
	d := 0
	for _, f := range m {
		d += int(f.e)
	}
	return d
}

// monoLess is a graded ordering compatible with multiplication (grlex).
func monoLess(a, b []fac) bool {
	da, db := monoDeg(a), monoDeg(b)
	if da != db {
		return da < db
	}
	// lexicographic on atom id descending importance: larger id first
	i, j := len(a)-1, len(b)-1
	for i >= 0 && j >= 0 {
		if a[i].a != b[j].a {
			return a[i].a < b[j].a
		}
		if a[i].e != b[j].e {
			return a[i].e < b[j].e
		}
		i--
		j--
	}
	return i < 0 && j >= 0
}

var polyIntern = map[string]*Poly{}

func finish(acc map[string]*Term) *Poly {
	ts := make([]Term, 0, len(acc))
	for _, t := range acc {
		if t.c.Sign() != 0 {
			ts = append(ts, *t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return monoLess(ts[i].m, ts[j].m) })
	return mkPoly(ts)
}

func mkPoly(ts []Term) *Poly {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			sb.WriteByte('+')
		}
		sb.WriteString(t.c.Text(62))
		if len(t.m) > 0 {
			sb.WriteByte('*')
			sb.WriteString(monoKey(t.m))
		}
	}
	k := sb.String()
	if p, ok := polyIntern[k]; ok {
		return p
	}
	p := &Poly{t: ts, key: k}
	polyIntern[k] = p
	return p
}

func C(n int64) *Poly { return CB(bi(n)) }
func CB(n *big.Int) *Poly {
	if n.Sign() == 0 {
		return mkPoly(nil)
	}
	return mkPoly([]Term{{nil, new(big.Int).Set(n)}})
}
func A(a *Atom) *Poly { return mkPoly([]Term{{[]fac{{a.id, 1}}, one}}) }

func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return zero, true
	}
	if len(p.t) == 1 && len(p.t[0].m) == 0 {
		return p.t[0].c, true
	}
	return nil, false
}
func (p *Poly) isZero() bool { return len(p.t) == 0 }
func (p *Poly) constInt() (int64, bool) {
	c, ok := p.isConst()
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}

// isAtom reports whether p is exactly one atom.
func (p *Poly) isAtom() *Atom {
	if len(p.t) == 1 && len(p.t[0].m) == 1 && p.t[0].m[0].e == 1 && p.t[0].c.Cmp(one) == 0 {
		return atoms[p.t[0].m[0].a]
	}
	return nil
}

func addTerm(acc map[string]*Term, m []fac, c *big.Int) {
	k := monoKey(m)
	if t, ok := acc[k]; ok {
		t.c = new(big.Int).Add(t.c, c)
		return
	}
	acc[k] = &Term{m, c}
}

func Add(a, b *Poly) *Poly {
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	acc := make(map[string]*Term, len(a.t)+len(b.t))
	for _, t := range a.t {
		addTerm(acc, t.m, t.c)
	}
	for _, t := range b.t {
		addTerm(acc, t.m, t.c)
	}
	return finish(acc)
}
func Sum(ps ...*Poly) *Poly {
	acc := map[string]*Term{}
	for _, p := range ps {
		for _, t := range p.t {
			addTerm(acc, t.m, t.c)
		}
	}
	return finish(acc)
}
func Scale(a *Poly, c *big.Int) *Poly {
	if c.Sign() == 0 {
		return C(0)
	}
	if c.Cmp(one) == 0 {
		return a
	}
	ts := make([]Term, len(a.t))
	for i, t := range a.t {
		ts[i] = Term{t.m, new(big.Int).Mul(t.c, c)}
	}
	return mkPoly(ts)
}
func Neg(a *Poly) *Poly    { return Scale(a, bi(-1)) }
func Sub(a, b *Poly) *Poly { return Add(a, Neg(b)) }

func mulMono(a, b []fac) []fac {
	out := make([]fac, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].a < b[j].a:
			out = append(out, a[i])
			i++
		case a[i].a > b[j].a:
			out = append(out, b[j])
			j++
		default:
			e := a[i].e + b[j].e
			if atoms[a[i].a].kind == "ind" {
				e = 1
			}
			out = append(out, fac{a[i].a, e})
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

var bigMuls int // products too large to expand, kept as one unknown

func Mul(a, b *Poly) *Poly {
	if c, ok := a.isConst(); ok {
		return Scale(b, c)
	}
	if c, ok := b.isConst(); ok {
		return Scale(a, c)
	}
	if len(a.t)*len(b.t) > 200000 {
		if b.key < a.key {
			a, b = b, a
		}
		bigMuls++
		return A(internAtom(&Atom{kind: "sym", name: fmt.Sprintf("product#%d", bigMuls), key: "product:" + a.key + "*" + b.key}))
	}
	acc := make(map[string]*Term, len(a.t)*len(b.t))
	for _, x := range a.t {
		for _, y := range b.t {
			m, k := mulMono(x.m, y.m), new(big.Int).Mul(x.c, y.c)
			if indWide {
				if rest, f, two := joinInds(m); two {
					for _, z := range Ind(f).t {
						addTerm(acc, mulMono(rest, z.m), new(big.Int).Mul(k, z.c))
					}
					continue
				}
			}
			addTerm(acc, m, k)
		}
	}
	return finish(acc)
}

// indWide keeps every condition as one indicator, and the product of two as the indicator of their conjunction.
var indWide bool

var bitsC = map[*Poly][]Bdd{}

// bitsOf reads a small nonnegative combination of indicators as binary digits.
func bitsOf(p *Poly) ([]Bdd, bool) {
	if r, ok := bitsC[p]; ok {
		return r, r != nil
	}
	r := []Bdd(nil)
	lo, hi := p.interval()
	if lo != nil && lo.Sign() >= 0 && hi != nil && hi.BitLen() <= 8 {
		r = lowBits(p, hi.BitLen())
	}
	bitsC[p] = r
	return r, r != nil
}

// lowBits is p modulo 2^n in binary, nil when p is not linear in indicators.
func lowBits(p *Poly, n int) []Bdd {
	k, ws, ok := linInd(p)
	if !ok {
		return nil
	}
	m := pow2(n)
	k = new(big.Int).Set(k)
	var pos []weighted
	for _, w := range ws {
		if w.c.Sign() < 0 {
			k.Add(k, w.c)
			w = weighted{new(big.Int).Neg(w.c), Not(w.f)}
		}
		if c := new(big.Int).Mod(w.c, m); c.Sign() != 0 {
			pos = append(pos, weighted{c, w.f})
		}
	}
	bs := adder(append(pos, weighted{k.Mod(k, m), True}))
	if len(bs) > n {
		bs = bs[:n]
	}
	if bs == nil {
		bs = []Bdd{}
	}
	return bs
}

func ofBits(bs []Bdd) *Poly {
	p := C(0)
	for i, b := range bs {
		p = Add(p, Scale(Ind(b), pow2(i)))
	}
	return p
}

func joinInds(m []fac) ([]fac, Bdd, bool) {
	n, f := 0, True
	var rest []fac
	for _, x := range m {
		if a := atoms[x.a]; a.kind == "ind" {
			n++
			f = And(f, a.bdd)
		} else {
			rest = append(rest, x)
		}
	}
	return rest, f, n > 1
}

// ---- indicators ----

func indAtom(f Bdd) *Atom {
	return internAtom(&Atom{kind: "ind", bdd: f, lo: zero, hi: one, key: "ind:" + strconv.Itoa(int(f))})
}

var indC = map[Bdd]*Poly{}

// Ind is the 0/1 indicator of condition f as a multilinear polynomial.
func Ind(f Bdd) *Poly {
	if f == True {
		return C(1)
	}
	if f == False {
		return C(0)
	}
	if p, ok := indC[f]; ok {
		return p
	}
	var p *Poly
	if indWide || len(support(f)) > 6 {
		// avoid duplicates for complements
		g := Not(f)
		if g < f {
			p = Sub(C(1), A(indAtom(g)))
		} else {
			p = A(indAtom(f))
		}
	} else {
		n := B.nodes[f]
		v := A(indAtom(B.varNode(n.v)))
		lo := Ind(n.lo)
		p = Add(lo, Mul(v, Sub(Ind(n.hi), lo)))
	}
	indC[f] = p
	return p
}

// indicators returns the indicator atoms of p (top level).
func (p *Poly) indicators() []int32 {
	if p.indOK {
		return p.ind
	}
	m := map[int32]bool{}
	for _, t := range p.t {
		for _, f := range t.m {
			if atoms[f.a].kind == "ind" {
				m[f.a] = true
			}
		}
	}
	for a := range m {
		p.ind = append(p.ind, a)
	}
	sort.Slice(p.ind, func(i, j int) bool { return p.ind[i] < p.ind[j] })
	p.indOK = true
	return p.ind
}

// setInd fixes indicator atom a of p to val.
func (p *Poly) setInd(a int32, val bool) *Poly {
	acc := map[string]*Term{}
	for _, t := range p.t {
		has := -1
		for i, f := range t.m {
			if f.a == a {
				has = i
			}
		}
		if has < 0 {
			addTerm(acc, t.m, t.c)
			continue
		}
		if val {
			m := append(append([]fac{}, t.m[:has]...), t.m[has+1:]...)
			addTerm(acc, m, t.c)
		}
	}
	return finish(acc)
}

// IteP is the guarded integer "a if c else b".
func IteP(c Bdd, a, b *Poly) *Poly {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	if indWide {
		if x, ok := bitsOf(a); ok {
			if y, ok := bitsOf(b); ok {
				n := len(x)
				if len(y) > n {
					n = len(y)
				}
				z := make([]Bdd, n)
				for i := range z {
					f, g := False, False
					if i < len(x) {
						f = x[i]
					}
					if i < len(y) {
						g = y[i]
					}
					z[i] = B.ite(c, f, g)
				}
				return ofBits(z)
			}
		}
	}
	// specialise the branches by the guard's literals where that is immediate
	a = underCond(a, c)
	b = underCond(b, Not(c))
	if a == b {
		return a
	}
	return Add(b, Mul(Ind(c), Sub(a, b)))
}

// underCond simplifies the indicators of p that are decided by c.
func underCond(p *Poly, c Bdd) *Poly {
	if c == True || c == False || indWide {
		return p
	}
	for _, a := range p.indicators() {
		f := atoms[a].bdd
		if And(c, f) == False {
			p = p.setInd(a, false)
		} else if AndNot(c, f) == False {
			p = p.setInd(a, true)
		}
	}
	return p
}

var maxDistribute = 4

// distribute applies f to the indicator-free instances of the polys; nil if too many indicators.
func distribute(ps []*Poly, f func([]*Poly) *Poly) *Poly {
	inds := map[int32]bool{}
	for _, p := range ps {
		for _, a := range p.indicators() {
			inds[a] = true
		}
	}
	if len(inds) == 0 || len(inds) > maxDistribute {
		return f(ps)
	}
	a := int32(1 << 30)
	for x := range inds {
		if x < a {
			a = x
		}
	}
	hi := make([]*Poly, len(ps))
	lo := make([]*Poly, len(ps))
	for i, p := range ps {
		hi[i] = p.setInd(a, true)
		lo[i] = p.setInd(a, false)
	}
	h, l := distribute(hi, f), distribute(lo, f)
	if h == l {
		return h
	}
	return Add(l, Mul(A(atoms[a]), Sub(h, l)))
}

// ---- intervals ----

func (a *Atom) interval() (lo, hi *big.Int) { return a.lo, a.hi }

func mulIv(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	if alo != nil && ahi != nil && alo.Cmp(one) == 0 && ahi.Cmp(one) == 0 {
		return blo, bhi
	}
	if alo == nil || ahi == nil || blo == nil || bhi == nil {
		// handle non-negative half-lines
		if alo != nil && alo.Sign() >= 0 && blo != nil && blo.Sign() >= 0 {
			lo = new(big.Int).Mul(alo, blo)
			return lo, nil
		}
		return nil, nil
	}
	first := true
	for _, x := range []*big.Int{alo, ahi} {
		for _, y := range []*big.Int{blo, bhi} {
			v := new(big.Int).Mul(x, y)
			if first || v.Cmp(lo) < 0 {
				lo = v
			}
			if first || v.Cmp(hi) > 0 {
				hi = v
			}
			first = false
		}
	}
	return
}

var ivC = map[*Poly][2]*big.Int{}

func (p *Poly) interval() (lo, hi *big.Int) {
	if r, ok := ivC[p]; ok {
		return r[0], r[1]
	}
	inds := p.indicators()
	if len(inds) > 0 && len(inds) <= 6 {
		p1, p0 := p.setInd(inds[0], true), p.setInd(inds[0], false)
		l1, h1 := p1.interval()
		l0, h0 := p0.interval()
		if l1 != nil && l0 != nil {
			lo = l1
			if l0.Cmp(lo) < 0 {
				lo = l0
			}
		}
		if h1 != nil && h0 != nil {
			hi = h1
			if h0.Cmp(hi) > 0 {
				hi = h0
			}
		}
	} else {
		lo, hi = new(big.Int), new(big.Int)
		for _, t := range p.t {
			tlo, thi := one, one
			for _, f := range t.m {
				al, ah := atoms[f.a].interval()
				if f.e%2 == 0 && (al == nil || al.Sign() < 0) {
					// even power: non-negative
					var m *big.Int
					if al != nil && ah != nil {
						m = new(big.Int).Abs(al)
						if ah.CmpAbs(m) > 0 {
							m = new(big.Int).Abs(ah)
						}
						m = new(big.Int).Exp(m, bi(int64(f.e)), nil)
					}
					tlo, thi = mulIv(tlo, thi, zero, m)
					continue
				}
				for e := int32(0); e < f.e; e++ {
					tlo, thi = mulIv(tlo, thi, al, ah)
				}
			}
			if t.c.Sign() >= 0 {
				if tlo != nil {
					tlo = new(big.Int).Mul(tlo, t.c)
				}
				if thi != nil {
					thi = new(big.Int).Mul(thi, t.c)
				}
			} else {
				var nl, nh *big.Int
				if thi != nil {
					nl = new(big.Int).Mul(thi, t.c)
				}
				if tlo != nil {
					nh = new(big.Int).Mul(tlo, t.c)
				}
				tlo, thi = nl, nh
			}
			if lo != nil {
				if tlo == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, tlo)
				}
			}
			if hi != nil {
				if thi == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, thi)
				}
			}
		}
	}
	// relational refinement: p = q - 2^k*shr(q,k) (low bits)
	if lb := lowBitsOf(p); lb != nil {
		if lo == nil || lo.Sign() < 0 {
			lo = zero
		}
		m := new(big.Int).Sub(lb, one)
		if hi == nil || hi.Cmp(m) > 0 {
			hi = m
		}
	}
	ivC[p] = [2]*big.Int{lo, hi}
	return
}

// lowBitsOf recognises q - m*div(q,m) and returns m.
func lowBitsOf(p *Poly) *big.Int {
	for _, t := range p.t {
		if len(t.m) == 1 && t.m[0].e == 1 && t.c.Sign() < 0 {
			a := atoms[t.m[0].a]
			if a.kind == "div" && new(big.Int).Neg(t.c).Cmp(a.m) == 0 {
				q := Add(p, Scale(A(a), a.m))
				if q == a.args[0] {
					return a.m
				}
			}
		}
	}
	return nil
}

func within(p *Poly, lo, hi *big.Int) bool {
	l, h := p.interval()
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

// ---- atoms ----

func symAtom(name string, lo, hi *big.Int) *Atom {
	return internAtom(&Atom{kind: "sym", name: name, lo: lo, hi: hi, key: "sym:" + name})
}
func Sym(name string, lo, hi *big.Int) *Poly { return A(symAtom(name, lo, hi)) }

// canonMod is the canonical representative of p modulo m, for reasoning inside
// Mod(.,m) and for point coefficients: inner reductions modulo (multiples of) m
// are removed, coefficients are reduced, and inverses are cancelled.
var canonC = map[string]*Poly{}

func canonMod(p *Poly, m *big.Int) *Poly {
	ck := m.Text(62) + "|" + p.key
	if r, ok := canonC[ck]; ok {
		return r
	}
	q := p
	for iter := 0; iter < 50; iter++ {
		// strip Mod atoms
		var target *Atom
		for _, t := range q.t {
			for _, f := range t.m {
				a := atoms[f.a]
				if a.kind == "mod" && new(big.Int).Mod(a.m, m).Sign() == 0 {
					target = a
				}
			}
		}
		if target == nil {
			break
		}
		q = substAtom(q, target.id, target.args[0])
	}
	// coefficients
	red := func(q *Poly) *Poly {
		ts := make([]Term, 0, len(q.t))
		for _, t := range q.t {
			c := new(big.Int).Mod(t.c, m)
			if c.Sign() != 0 {
				ts = append(ts, Term{t.m, c})
			}
		}
		return mkPoly(ts)
	}
	q = red(q)
	if len(squareRel) > 0 && m.Cmp(hexP) == 0 {
		q = red(useSquares(q))
	}
	q = cancelInv(q, m, red)
	canonC[ck] = q
	return q
}

// squareRel: the squares of these atoms are known modulo P.
var squareRel map[int32]*Poly

func init() { resetHooks = append(resetHooks, func() { squareRel = nil }) }

func useSquares(p *Poly) *Poly {
	for iter := 0; iter < 20; iter++ {
		var keep []Term
		var more []*Poly
		for _, t := range p.t {
			hit := false
			for i, f := range t.m {
				by := squareRel[f.a]
				if by == nil || f.e < 2 {
					continue
				}
				m := append([]fac{}, t.m...)
				if f.e == 2 {
					m = append(m[:i], m[i+1:]...)
				} else {
					m[i].e -= 2
				}
				more = append(more, Mul(mkPoly([]Term{{m, t.c}}), by))
				hit = true
				break
			}
			if !hit {
				keep = append(keep, t)
			}
		}
		if len(more) == 0 {
			return p
		}
		p = Sum(append(more, mkPoly(keep))...)
	}
	return p
}

func substAtom(p *Poly, id int32, by *Poly) *Poly {
	out := map[string]*Term{}
	var rest []*Poly
	for _, t := range p.t {
		idx := -1
		for i, f := range t.m {
			if f.a == id {
				idx = i
			}
		}
		if idx < 0 {
			addTerm(out, t.m, t.c)
			continue
		}
		m := append(append([]fac{}, t.m[:idx]...), t.m[idx+1:]...)
		q := mkPoly([]Term{{m, t.c}})
		for e := int32(0); e < t.m[idx].e; e++ {
			q = Mul(q, by)
		}
		rest = append(rest, q)
	}
	r := finish(out)
	if len(rest) > 0 {
		r = Sum(append(rest, r)...)
	}
	return r
}

// cancelInv rewrites LM(q)*Inv(q) -> (1 - (q-LT(q))*Inv(q))/LC(q) modulo m.
func cancelInv(p *Poly, m *big.Int, red func(*Poly) *Poly) *Poly {
	for iter := 0; iter < 2000; iter++ {
		var ti = -1
		var inv *Atom
		var lt Term
	search:
		for i, t := range p.t {
			for _, f := range t.m {
				a := atoms[f.a]
				if a.kind != "inv" || a.m.Cmp(m) != 0 {
					continue
				}
				q := canonMod(a.args[0], m)
				if len(q.t) == 0 {
					continue
				}
				l := q.t[len(q.t)-1]
				if monoDivides(l.m, t.m) {
					ti, inv, lt = i, a, l
					break search
				}
			}
		}
		if ti < 0 {
			return p
		}
		q := canonMod(inv.args[0], m)
		t := p.t[ti]
		restM := monoDiv(monoDivMust(t.m, lt.m), []fac{{inv.id, 1}})
		lcInv := new(big.Int).ModInverse(lt.c, m)
		if lcInv == nil {
			return p
		}
		base := mkPoly([]Term{{restM, new(big.Int).Mul(t.c, lcInv)}})
		qrest := Sub(q, mkPoly([]Term{lt}))
		repl := Mul(base, Sub(C(1), Mul(qrest, A(inv))))
		others := append(append([]Term{}, p.t[:ti]...), p.t[ti+1:]...)
		p = red(Add(mkPoly(others), repl))
	}
	return p
}

func monoDivides(d, m []fac) bool {
	for _, f := range d {
		ok := false
		for _, g := range m {
			if g.a == f.a && (g.e >= f.e) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
func monoDivMust(m, d []fac) []fac { return monoDiv(m, d) }
func monoDiv(m, d []fac) []fac {
	out := []fac{}
	for _, g := range m {
		e := g.e
		for _, f := range d {
			if f.a == g.a && atoms[f.a].kind != "ind" {
				e -= f.e
			}
		}
		if e > 0 {
			out = append(out, fac{g.a, e})
		}
	}
	return out
}

// ModP is the Euclidean remainder of p modulo the positive constant m.
func ModP(p *Poly, m *big.Int) *Poly {
	if m.Sign() <= 0 {
		return A(internAtom(&Atom{kind: "app", name: "mod", args: []*Poly{p, CB(m)}, key: "app:mod(" + p.key + "," + m.Text(62) + ")"}))
	}
	if c, ok := p.isConst(); ok {
		return CB(new(big.Int).Mod(c, m))
	}
	m1 := new(big.Int).Sub(m, one)
	if within(p, zero, m1) {
		return p
	}
	if lowMode && m.Cmp(bi(2)) == 0 {
		return lowOf(p, m)
	}
	return distribute([]*Poly{p}, func(ps []*Poly) *Poly {
		p := ps[0]
		if within(p, zero, m1) {
			return p
		}
		if splitMod && m.Cmp(hexN) == 0 {
			if lo, hi := p.interval(); lo != nil && hi != nil {
				a, b := floorDiv(lo, m), floorDiv(hi, m)
				am := CB(new(big.Int).Mul(a, m))
				if a.Cmp(b) == 0 {
					return Sub(p, am)
				}
				if bm := CB(new(big.Int).Mul(b, m)); p.isAtom() != nil && new(big.Int).Sub(b, a).Cmp(one) == 0 {
					return IteP(LtP(p, bm), Sub(p, am), Sub(p, bm))
				}
			}
		}
		q := canonMod(p, m)
		if c, ok := q.isConst(); ok {
			return CB(new(big.Int).Mod(c, m))
		}
		if within(q, zero, m1) {
			return q
		}
		return A(internAtom(&Atom{kind: "mod", m: m, args: []*Poly{q}, lo: zero, hi: m1, key: "mod:" + m.Text(62) + ":" + q.key}))
	})
}

// InvP is the modular inverse of p modulo m (meaningful only when it exists).
func InvP(p *Poly, m *big.Int) *Poly {
	return distribute([]*Poly{p}, func(ps []*Poly) *Poly {
		q := canonMod(ps[0], m)
		if c, ok := q.isConst(); ok {
			if r := new(big.Int).ModInverse(c, m); r != nil {
				return CB(r)
			}
		}
		m1 := new(big.Int).Sub(m, one)
		// product of atoms: split
		if len(q.t) == 1 && (len(q.t[0].m) > 1 || q.t[0].c.Cmp(one) != 0 || q.t[0].m[0].e > 1) {
			if ci := new(big.Int).ModInverse(q.t[0].c, m); ci != nil {
				r := CB(ci)
				for _, f := range q.t[0].m {
					iv := InvP(A(atoms[f.a]), m)
					for e := int32(0); e < f.e; e++ {
						r = Mul(r, iv)
					}
				}
				return ModP(r, m)
			}
		}
		if a := q.isAtom(); a != nil && a.kind == "inv" && a.m.Cmp(m) == 0 {
			return ModP(a.args[0], m)
		}
		return A(internAtom(&Atom{kind: "inv", m: m, args: []*Poly{q}, lo: zero, hi: m1, key: "inv:" + m.Text(62) + ":" + q.key}))
	})
}

// DivP is floor(p/m) for a positive constant m.
func DivP(p *Poly, m *big.Int) *Poly {
	if m.Cmp(one) == 0 {
		return p
	}
	if c, ok := p.isConst(); ok {
		return CB(floorDiv(c, m))
	}
	return distribute([]*Poly{p}, func(ps []*Poly) *Poly {
		p := ps[0]
		if c, ok := p.isConst(); ok {
			return CB(floorDiv(c, m))
		}
		// extract multiples of m
		var q, r []Term
		for _, t := range p.t {
			d, mod := new(big.Int).DivMod(t.c, m, new(big.Int))
			if mod.Sign() == 0 {
				q = append(q, Term{t.m, d})
			} else {
				r = append(r, t)
			}
		}
		rest := mkPoly(r)
		whole := mkPoly(q)
		lo, hi := rest.interval()
		if lo != nil && hi != nil {
			a, b := floorDiv(lo, m), floorDiv(hi, m)
			if a.Cmp(b) == 0 {
				return Add(whole, CB(a))
			}
		}
		// nested: floor(floor(x/a)/b) = floor(x/(ab))
		if a := rest.isAtom(); a != nil && a.kind == "div" {
			return Add(whole, DivP(a.args[0], new(big.Int).Mul(a.m, m)))
		}
		var alo, ahi *big.Int
		if lo != nil {
			alo = floorDiv(lo, m)
		}
		if hi != nil {
			ahi = floorDiv(hi, m)
		}
		return Add(whole, A(internAtom(&Atom{kind: "div", m: m, args: []*Poly{rest}, lo: alo, hi: ahi, key: "div:" + m.Text(62) + ":" + rest.key})))
	})
}

func floorDiv(a, m *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, m, new(big.Int))
	if r.Sign() < 0 {
		q.Sub(q, one)
	}
	return q
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(one, uint(k)) }

// ShrP is p >> k.
func ShrP(p *Poly, k int) *Poly { return DivP(p, pow2(k)) }

// LowP is p mod 2^k as p - 2^k*(p>>k).
func LowP(p *Poly, k int) *Poly {
	if within(p, zero, new(big.Int).Sub(pow2(k), one)) {
		return p
	}
	if lowMode {
		return lowOf(p, pow2(k))
	}
	return Sub(p, Scale(ShrP(p, k), pow2(k)))
}

// lowOf is p mod m as an atom of its own.
func lowOf(p *Poly, m *big.Int) *Poly {
	return distribute([]*Poly{p}, func(ps []*Poly) *Poly {
		var r []Term
		for _, t := range ps[0].t {
			if new(big.Int).Mod(t.c, m).Sign() != 0 {
				r = append(r, t)
			}
		}
		rest := mkPoly(r)
		if c, ok := rest.isConst(); ok {
			return CB(new(big.Int).Mod(c, m))
		}
		if within(rest, zero, new(big.Int).Sub(m, one)) {
			return rest
		}
		if m.Cmp(bi(2)) == 0 {
			// parities: all coefficients count as 1, and an odd constant turns the parity around
			turn := false
			for i := range r {
				if len(r[i].m) == 0 {
					turn = true
				}
				r[i].c = one
			}
			if turn {
				var q []Term
				for _, t := range r {
					if len(t.m) > 0 {
						q = append(q, t)
					}
				}
				return Sub(C(1), lowOf(mkPoly(q), m))
			}
			rest = mkPoly(r)
			if within(rest, zero, one) {
				return rest
			}
		}
		return A(internAtom(&Atom{kind: "low", m: m, args: []*Poly{rest}, lo: zero, hi: new(big.Int).Sub(m, one), key: "low:" + m.Text(62) + ":" + rest.key}))
	})
}

// splitMod writes residues of numbers in at most two periods of the modulus as differences.
var splitMod bool

// lowMode keeps low-order bits as atoms of their own instead of writing them as differences.
var lowMode bool

func init() {
	resetHooks = append(resetHooks, func() { lowMode, maxDistribute, indWide = false, 4, false; bitsC = map[*Poly][]Bdd{} })
}

// bitEq decomposes comparisons of bitwise combinations.
func bitEq(d *Poly) (Bdd, bool) {
	var a *Atom
	k := new(big.Int)
	for _, t := range d.t {
		switch {
		case len(t.m) == 0:
			k = t.c
		case len(t.m) == 1 && t.m[0].e == 1 && a == nil && t.c.CmpAbs(one) == 0:
			a = atoms[t.m[0].a]
		default:
			return 0, false
		}
	}
	if a == nil || a.kind != "app" || len(a.args) != 2 {
		return 0, false
	}
	v := new(big.Int).Abs(k)
	switch a.name {
	case "or":
		if v.Sign() == 0 && a.lo != nil && a.lo.Sign() >= 0 {
			return And(EqP(a.args[0], C(0)), EqP(a.args[1], C(0))), true
		}
	case "xor":
		if v.Sign() == 0 {
			return EqP(a.args[0], a.args[1]), true
		}
	case "and":
		if v.Sign() > 0 && new(big.Int).And(v, new(big.Int).Add(v, one)).Sign() == 0 && within(a.args[0], zero, v) && within(a.args[1], zero, v) {
			return And(EqP(a.args[0], CB(v)), EqP(a.args[1], CB(v))), true
		}
	}
	return 0, false
}

// App is an uninterpreted application.
func App(name string, lo, hi *big.Int, args ...*Poly) *Poly {
	return distribute(args, func(as []*Poly) *Poly {
		ks := make([]string, len(as))
		for i, a := range as {
			ks[i] = a.key
		}
		return A(internAtom(&Atom{kind: "app", name: name, args: append([]*Poly{}, as...), lo: lo, hi: hi, key: "app:" + name + "(" + strings.Join(ks, ",") + ")"}))
	})
}

// ---- printing ----

func (a *Atom) String() string {
	switch a.kind {
	case "sym":
		return a.name
	case "ind":
		return "[" + condStr(a.bdd) + "]"
	case "mod":
		return "(" + a.args[0].String() + ") mod " + modName(a.m)
	case "inv":
		return "inv(" + a.args[0].String() + ")"
	case "low":
		return "low" + modName(a.m) + "(" + a.args[0].String() + ")"
	case "div":
		return "(" + a.args[0].String() + ")/" + a.m.String()
	case "X", "Y":
		return a.pt.String() + "." + a.kind
	case "int":
		return "int(" + a.seq.String() + ")"
	case "len":
		return "len(" + a.args[0].String() + ")"
	}
	s := []string{}
	for _, x := range a.args {
		s = append(s, x.String())
	}
	if a.seq != nil {
		s = append(s, a.seq.String())
	}
	if a.kind == "app" {
		return a.name + "(" + strings.Join(s, ", ") + ")"
	}
	return a.kind + ":" + a.name + "(" + strings.Join(s, ", ") + ")"
}

func modName(m *big.Int) string {
	if m.Cmp(hexN) == 0 {
		return "N"
	}
	if m.Cmp(hexP) == 0 {
		return "P"
	}
	return m.String()
}

func coefStr(c *big.Int) string {
	if c.Cmp(hexN) == 0 {
		return "N"
	}
	for _, m := range []struct {
		n string
		v *big.Int
	}{{"N", hexN}, {"P", hexP}} {
		d := new(big.Int).Sub(c, m.v)
		if d.Sign() < 0 && d.BitLen() < 64 {
			return d.String() // residue close to the modulus: print as negative
		}
	}
	return c.String()
}

func (p *Poly) String() string {
	if p == nil {
		return "<nil>"
	}
	if len(p.t) == 0 {
		return "0"
	}
	var parts []string
	for i, t := range p.t {
		if i > 12 {
			parts = append(parts, fmt.Sprintf("…(%d terms)", len(p.t)))
			break
		}
		var fs []string
		for _, f := range t.m {
			s := atoms[f.a].String()
			if f.e > 1 {
				s += "^" + strconv.Itoa(int(f.e))
			}
			fs = append(fs, s)
		}
		cs := coefStr(t.c)
		if len(fs) == 0 {
			parts = append(parts, cs)
		} else if cs == "1" {
			parts = append(parts, strings.Join(fs, "*"))
		} else {
			parts = append(parts, cs+"*"+strings.Join(fs, "*"))
		}
	}
	r := strings.Join(parts, " + ")
	if len(r) > 600 {
		r = clip(r, 600)
	}
	return r
}

// ---- comparisons as conditions ----

// LeC is the condition p <= 0.
func LeC(p *Poly) Bdd {
	if c, ok := p.isConst(); ok {
		if c.Sign() <= 0 {
			return True
		}
		return False
	}
	lo, hi := p.interval()
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	if inds := p.indicators(); len(inds) > 0 {
		a := atoms[inds[0]]
		if len(inds) <= 10 {
			return B.ite(a.bdd, LeC(p.setInd(a.id, true)), LeC(p.setInd(a.id, false)))
		}
	}
	// split constant
	k := new(big.Int)
	ts := p.t
	if len(ts[0].m) == 0 {
		k.Neg(ts[0].c)
		ts = ts[1:]
	}
	// t <= k ; normalise by gcd and sign of leading coefficient
	g := new(big.Int)
	for _, t := range ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	neg := ts[len(ts)-1].c.Sign() < 0
	nt := make([]Term, len(ts))
	for i, t := range ts {
		c := new(big.Int).Quo(t.c, g)
		if neg {
			c.Neg(c)
		}
		nt[i] = Term{t.m, c}
	}
	kk := floorDiv(k, g)
	tp := mkPoly(nt)
	if neg {
		// -tp <= kk  <=>  tp >= -kk  <=> not (tp <= -kk-1)
		return Not(leVar(tp, new(big.Int).Sub(new(big.Int).Neg(kk), one)))
	}
	return leVar(tp, kk)
}

func leVar(t *Poly, k *big.Int) Bdd {
	lo, hi := t.interval()
	if hi != nil && hi.Cmp(k) <= 0 {
		return True
	}
	if lo != nil && lo.Cmp(k) > 0 {
		return False
	}
	if k.Sign() == 0 && lo != nil && lo.Sign() == 0 && t.isAtom() != nil {
		if r, ok := coordEq(t); ok {
			return r
		}
	}
	if lowMode {
		if a := t.isAtom(); a != nil && a.kind == "div" {
			// floor(q/m) <= k  <=>  q <= m*(k+1)-1
			b := new(big.Int).Add(k, one)
			return LeC(Sub(a.args[0], CB(b.Sub(b.Mul(b, a.m), one))))
		}
	}
	key := "le:" + t.key + "<=" + k.Text(62)
	if v, ok := B.byKey[key]; ok {
		return B.varNode(v)
	}
	v := newVar(&CondAtom{kind: "le", t: t, k: new(big.Int).Set(k)}, key)
	ch := B.chains[t.key]
	if ch == nil {
		ch = &chain{t: t}
		B.chains[t.key] = ch
	}
	i := sort.Search(len(ch.vars), func(i int) bool { return B.vars[ch.vars[i]].k.Cmp(k) >= 0 })
	ch.vars = append(ch.vars, 0)
	copy(ch.vars[i+1:], ch.vars[i:])
	ch.vars[i] = v
	if len(ch.vars) > 1 {
		B.axGen++
	}
	return B.varNode(v)
}

// LeqP: a <= b ; LtP: a < b ; EqP: a == b
func LeqP(a, b *Poly) Bdd { return LeC(Sub(a, b)) }
func LtP(a, b *Poly) Bdd  { return LeC(Add(Sub(a, b), C(1))) }
func EqP(a, b *Poly) Bdd {
	d := Sub(a, b)
	if d.isZero() {
		return True
	}
	if c, ok := d.isConst(); ok {
		if c.Sign() == 0 {
			return True
		}
		return False
	}
	if inds := d.indicators(); len(inds) > 0 && len(inds) <= 10 {
		x := atoms[inds[0]]
		return B.ite(x.bdd, EqP(d.setInd(x.id, true), C(0)), EqP(d.setInd(x.id, false), C(0)))
	}
	if r, ok := coordEq(d); ok {
		return r
	}
	if r, ok := bitEq(d); ok {
		return r
	}
	if q, m := wrapOf(d); q != nil && within(q, new(big.Int).Sub(one, m), new(big.Int).Sub(m, one)) {
		return EqP(q, C(0)) // q mod m = 0 with |q| < m
	}
	if c, ok := sumZero(d); ok {
		return c
	}
	// gcd infeasibility: all non-constant coefficients divisible by g but constant not
	g := new(big.Int)
	for _, t := range d.t {
		if len(t.m) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
		}
	}
	if len(d.t[0].m) == 0 && g.Sign() > 0 && new(big.Int).Mod(d.t[0].c, g).Sign() != 0 {
		return False
	}
	return And(LeC(d), LeC(Neg(d)))
}

// wrapOf recognises q - m*div(q,m), up to sign.
func wrapOf(d *Poly) (*Poly, *big.Int) {
	if m := lowBitsOf(d); m != nil {
		for _, t := range d.t {
			if len(t.m) == 1 && atoms[t.m[0].a].kind == "div" && new(big.Int).Neg(t.c).Cmp(m) == 0 {
				if q := Add(d, Scale(A(atoms[t.m[0].a]), m)); q == atoms[t.m[0].a].args[0] {
					return q, m
				}
			}
		}
	}
	if n := Neg(d); lowBitsOf(n) != nil {
		return wrapOf(n)
	}
	return nil, nil
}

// sumZero: a sum of non-negative atoms is zero exactly when each of them is.
func sumZero(d *Poly) (Bdd, bool) {
	if !lowMode || len(d.t) < 2 {
		return 0, false
	}
	r := True
	for _, t := range d.t {
		if len(t.m) != 1 || t.c.Sign() < 0 {
			return 0, false
		}
		if a := atoms[t.m[0].a]; a.lo == nil || a.lo.Sign() < 0 {
			return 0, false
		}
	}
	for _, t := range d.t {
		r = And(r, EqP(A(atoms[t.m[0].a]), C(0)))
	}
	return r, true
}

// coordEq recognises X(P)-X(Q), Y(P)-Y(Q) and relates them to point equality.
func coordEq(d *Poly) (Bdd, bool) {
	if len(d.t) < 1 || len(d.t) > 2 {
		return 0, false
	}
	var as []*Atom
	for _, t := range d.t {
		if len(t.m) != 1 || t.m[0].e != 1 {
			return 0, false
		}
		a := atoms[t.m[0].a]
		as = append(as, a)
	}
	if len(as) == 1 {
		// X(P) == 0 / Y(P) == 0 : secp256k1 has no affine point with X=0 or Y=0
		if as[0].kind == "X" || as[0].kind == "Y" {
			return PEq(as[0].pt), true
		}
		if as[0].kind == "mod" && as[0].m.Cmp(hexP) == 0 {
			// -Y mod P
			if q := as[0].args[0]; len(q.t) == 1 && len(q.t[0].m) == 1 && q.t[0].m[0].e == 1 && new(big.Int).Mod(q.t[0].c, hexP).Sign() != 0 {
				if b := atoms[q.t[0].m[0].a]; b.kind == "Y" {
					return PEq(b.pt), true
				}
			}
		}
		return 0, false
	}
	if new(big.Int).Add(d.t[0].c, d.t[1].c).Sign() != 0 || d.t[0].c.CmpAbs(one) != 0 {
		return 0, false
	}
	kindOf := func(a *Atom) (string, *Pt) {
		if a.kind == "X" || a.kind == "Y" {
			return a.kind, a.pt
		}
		if a.kind == "mod" && a.m.Cmp(hexP) == 0 {
			q := a.args[0]
			if len(q.t) == 1 && len(q.t[0].m) == 1 && q.t[0].m[0].e == 1 && new(big.Int).Add(q.t[0].c, one).Cmp(hexP) == 0 {
				b := atoms[q.t[0].m[0].a]
				if b.kind == "Y" {
					return "Y", PtNeg(b.pt)
				}
			}
		}
		return "", nil
	}
	k0, p0 := kindOf(as[0])
	k1, p1 := kindOf(as[1])
	if k0 == "" || k0 != k1 {
		return 0, false
	}
	same := PEq(PtSub(p0, p1))
	opp := PEq(PtAdd(p0, p1))
	if k0 == "X" {
		return Or(same, opp), true
	}
	ka, kb := p0.key, p1.key
	if kb < ka {
		ka, kb = kb, ka
	}
	name := "yeq:" + ka + "|" + kb
	if _, ok := B.byKey["sym:"+name]; !ok {
		y := symCond(name)
		addAxiom(Or(Not(same), y))
		addAxiom(Or(Not(And(opp, y)), same))
	}
	return symCond(name), true
}

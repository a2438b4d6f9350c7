package main

// Elliptic-curve points as linear combinations of point atoms with polynomial
// coefficients modulo the group order N.

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type PAtom struct {
	id   int32
	name string
	x, y *Poly // coordinates when the point was built from raw integers
	key  string
}

var (
	patoms  []*PAtom
	patomBy = map[string]*PAtom{}
)

func pAtom(name string) *PAtom {
	k := "p:" + name
	if a, ok := patomBy[k]; ok {
		return a
	}
	a := &PAtom{id: int32(len(patoms)), name: name, key: k}
	patoms = append(patoms, a)
	patomBy[k] = a
	return a
}

type pterm struct {
	a *PAtom
	c *Poly
}
type Pt struct {
	t   []pterm
	key string
}

var ptIntern = map[string]*Pt{}

func mkPt(m map[int32]*Poly) *Pt {
	var ids []int
	for id, c := range m {
		if !c.isZero() {
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	var sb strings.Builder
	ts := make([]pterm, 0, len(ids))
	for _, id := range ids {
		c := m[int32(id)]
		ts = append(ts, pterm{patoms[id], c})
		sb.WriteString(strconv.Itoa(id))
		sb.WriteByte(':')
		sb.WriteString(c.key)
		sb.WriteByte(';')
	}
	k := sb.String()
	if p, ok := ptIntern[k]; ok {
		return p
	}
	p := &Pt{ts, k}
	ptIntern[k] = p
	return p
}

func PtSym(name string) *Pt { return mkPt(map[int32]*Poly{pAtom(name).id: C(1)}) }
func PtZero() *Pt           { return mkPt(nil) }

func ptComb(ps []*Pt, cs []*Poly) *Pt {
	m := map[int32]*Poly{}
	for i, p := range ps {
		for _, t := range p.t {
			c := Mul(t.c, cs[i])
			if o, ok := m[t.a.id]; ok {
				c = Add(o, c)
			}
			m[t.a.id] = c
		}
	}
	for k, c := range m {
		m[k] = canonMod(c, hexN)
	}
	return mkPt(m)
}
func PtAdd(a, b *Pt) *Pt       { return ptComb([]*Pt{a, b}, []*Poly{C(1), C(1)}) }
func PtSub(a, b *Pt) *Pt       { return ptComb([]*Pt{a, b}, []*Poly{C(1), C(-1)}) }
func PtNeg(a *Pt) *Pt          { return ptComb([]*Pt{a}, []*Poly{C(-1)}) }
func PtMul(k *Poly, a *Pt) *Pt { return ptComb([]*Pt{a}, []*Poly{k}) }
func (p *Pt) isZero() bool     { return len(p.t) == 0 }
func IteT(c Bdd, a, b *Pt) *Pt {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	i := Ind(c)
	return ptComb([]*Pt{ptUnder(a, c), ptUnder(b, Not(c))}, []*Poly{i, Sub(C(1), i)})
}
func ptUnder(p *Pt, c Bdd) *Pt {
	m := map[int32]*Poly{}
	for _, t := range p.t {
		m[t.a.id] = canonMod(underCond(t.c, c), hexN)
	}
	return mkPt(m)
}
func (p *Pt) setInd(a int32, v bool) *Pt {
	m := map[int32]*Poly{}
	for _, t := range p.t {
		m[t.a.id] = canonMod(t.c.setInd(a, v), hexN)
	}
	return mkPt(m)
}
func (p *Pt) indicators() []int32 {
	m := map[int32]bool{}
	for _, t := range p.t {
		for _, a := range t.c.indicators() {
			m[a] = true
		}
	}
	var out []int32
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var halfN = new(big.Int).Rsh(hexN, 1)

// canonSign returns p or -p, whichever is canonical, and whether it was negated.
func (p *Pt) canonSign() (*Pt, bool) {
	if p.isZero() {
		return p, false
	}
	t := p.t[0].c.t
	if t[len(t)-1].c.Cmp(halfN) > 0 {
		return PtNeg(p), true
	}
	return p, false
}
func (p *Pt) canonKey() string { q, _ := p.canonSign(); return q.key }

func (p *Pt) String() string {
	if p.isZero() {
		return "0"
	}
	var s []string
	for _, t := range p.t {
		cs := t.c.String()
		if cs == "1" {
			s = append(s, t.a.name)
		} else {
			s = append(s, "("+cs+")·"+t.a.name)
		}
	}
	return strings.Join(s, " + ")
}

// PEq is the condition "p is the identity".
func PEq(p *Pt) Bdd {
	if p.isZero() {
		return True
	}
	if inds := p.indicators(); len(inds) > 0 && len(inds) <= 8 {
		a := atoms[inds[0]]
		return B.ite(a.bdd, PEq(p.setInd(a.id, true)), PEq(p.setInd(a.id, false)))
	}
	q, _ := p.canonSign()
	// a fixed generator combination with a nonzero constant coefficient is not the identity
	if len(q.t) == 1 {
		if c, ok := q.t[0].c.isConst(); ok && c.Sign() != 0 && (q.t[0].a.name == "G" || q.t[0].a.name == "H") {
			return False
		}
	}
	key := "peq:" + q.key
	return B.varNode(newVar(&CondAtom{kind: "peq", pt: q}, key))
}

func coordP(kind string, p *Pt) *Poly {
	if p.isZero() {
		return C(0)
	}
	if inds := p.indicators(); len(inds) > 0 && len(inds) <= maxDistribute {
		a := inds[0]
		h, l := coordP(kind, p.setInd(a, true)), coordP(kind, p.setInd(a, false))
		if h == l {
			return h
		}
		return Add(l, Mul(A(atoms[a]), Sub(h, l)))
	}
	q, neg := p.canonSign()
	if len(q.t) == 1 && q.t[0].a.x != nil {
		if c, ok := q.t[0].c.isConst(); ok && c.Cmp(one) == 0 {
			if kind == "X" {
				return q.t[0].a.x
			}
			if neg {
				return ModP(Neg(q.t[0].a.y), hexP)
			}
			return q.t[0].a.y
		}
	}
	a := A(internAtom(&Atom{kind: kind, pt: q, lo: zero, hi: new(big.Int).Sub(hexP, one), key: kind + ":" + q.key}))
	if kind == "Y" && neg {
		return ModP(Neg(a), hexP)
	}
	return a
}
func XofP(p *Pt) *Poly { return coordP("X", p) }
func YofP(p *Pt) *Poly { return coordP("Y", p) }

// PtFromXY recognises the point with the given coordinates.
func PtFromXY(x, y *Poly) *Pt {
	inds := map[int32]bool{}
	for _, a := range x.indicators() {
		inds[a] = true
	}
	for _, a := range y.indicators() {
		inds[a] = true
	}
	if len(inds) > 0 && len(inds) <= 6 {
		a := int32(1 << 30)
		for i := range inds {
			if i < a {
				a = i
			}
		}
		h := PtFromXY(x.setInd(a, true), y.setInd(a, true))
		l := PtFromXY(x.setInd(a, false), y.setInd(a, false))
		if h == l {
			return h
		}
		i := A(atoms[a])
		return ptComb([]*Pt{h, l}, []*Poly{i, Sub(C(1), i)})
	}
	if x.isZero() && y.isZero() {
		return PtZero()
	}
	if xa := x.isAtom(); xa != nil && xa.kind == "X" {
		p := xa.pt
		if ya := y.isAtom(); ya != nil {
			if ya.kind == "Y" && ya.pt == p {
				return p
			}
		}
		if y == YofP(PtNeg(p)) {
			return PtNeg(p)
		}
		if ya := Sub(CB(hexP), y).isAtom(); ya != nil {
			n := YofP(PtNeg(p)).isAtom()
			var q *Pt
			if ya.kind == "Y" && ya.pt == p {
				q = PtNeg(p)
			} else if n == ya {
				q = p
			}
			if q != nil {
				// P - y is not the coordinate of the identity
				i := Ind(PEq(p))
				return ptComb([]*Pt{rawPt(x, y), q}, []*Poly{i, Sub(C(1), i)})
			}
		}
	}
	if ya := y.isAtom(); ya != nil && ya.kind == "mod" && ya.m.Cmp(hexP) == 0 {
		q := canonMod(Neg(ya.args[0]), hexP)
		if q.isAtom() != nil {
			return PtNeg(PtFromXY(x, q))
		}
	}
	if lowMode && len(y.t) > 1 {
		if d := Sub(CB(hexP), y); d.isAtom() != nil && within(d, one, new(big.Int).Sub(hexP, one)) {
			return PtNeg(PtFromXY(x, d))
		}
	}
	return rawPt(x, y)
}

func rawPt(x, y *Poly) *Pt {
	k := "xy:" + x.key + "|" + y.key
	if a, ok := patomBy[k]; ok {
		return mkPt(map[int32]*Poly{a.id: C(1)})
	}
	a := &PAtom{id: int32(len(patoms)), name: "pt(" + x.String() + "," + y.String() + ")", x: x, y: y, key: k}
	// negation of an already known raw point
	patoms = append(patoms, a)
	patomBy[k] = a
	return mkPt(map[int32]*Poly{a.id: C(1)})
}

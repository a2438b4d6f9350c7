package main

// Scalar multiplication: the coefficient of every base point that the add and
// double sequence accumulates, as an integer polynomial over the bits of the
// scalar, compared with the scalar.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
)

// bitBlob is a big-endian byte string of n bytes whose bits are free.
type bitBlob struct {
	name string
	n    int
	bits []Bdd // least significant first
	val  *Poly // the integer it must encode, nil: free
}

func newBlob(name string, n int) *bitBlob {
	b := &bitBlob{name: name}
	for i := 0; i < 8*n; i++ {
		b.bits = append(b.bits, symCond(fmt.Sprintf("%s.%d", name, i)))
	}
	return b
}

func (b *bitBlob) bytes() []*Poly {
	n := len(b.bits) / 8
	out := make([]*Poly, n)
	for i := range out {
		p := C(0)
		for j := 0; j < 8; j++ {
			p = Add(p, Scale(Ind(b.bits[8*i+j]), pow2(j)))
		}
		out[n-1-i] = p
	}
	return out
}

func (b *bitBlob) sum() *Poly {
	p := C(0)
	for j, v := range b.bits {
		p = Add(p, Scale(Ind(v), pow2(j)))
	}
	return p
}

func (b *bitBlob) digits() coeff {
	var out coeff
	for j, v := range b.bits {
		out = append(out, weighted{pow2(j), v})
	}
	return out
}

// ---- sums of weighted conditions ----

type weighted struct {
	c *big.Int
	f Bdd
}

// linInd reads a polynomial that is linear in indicators.
func linInd(p *Poly) (k *big.Int, ws []weighted, ok bool) {
	k = zero
	for _, t := range p.t {
		switch {
		case len(t.m) == 0:
			k = t.c
		case len(t.m) == 1 && t.m[0].e == 1 && atoms[t.m[0].a].kind == "ind":
			ws = append(ws, weighted{t.c, atoms[t.m[0].a].bdd})
		default:
			return nil, nil, false
		}
	}
	return k, ws, true
}

// adder sums weighted conditions (nonnegative weights) into binary digits.
func adder(ws []weighted) []Bdd {
	cols := map[int][]Bdd{}
	top := 0
	put := func(c *big.Int, f Bdd) {
		for i := 0; i < c.BitLen(); i++ {
			if c.Bit(i) == 1 {
				cols[i] = append(cols[i], f)
				if i > top {
					top = i
				}
			}
		}
	}
	for _, w := range ws {
		put(w.c, w.f)
	}
	var out []Bdd
	for i := 0; i <= top || len(cols[i]) > 0; i++ {
		col := cols[i]
		sort.Slice(col, func(a, b int) bool { return col[a] < col[b] })
		for len(col) > 1 {
			if len(col) == 2 {
				a, b := col[0], col[1]
				col = []Bdd{Xor(a, b)}
				if c := And(a, b); c != False {
					cols[i+1] = append(cols[i+1], c)
				}
				continue
			}
			a, b, d := col[0], col[1], col[2]
			col = append([]Bdd{Xor(Xor(a, b), d)}, col[3:]...)
			if c := Or(And(a, b), And(d, Or(a, b))); c != False {
				cols[i+1] = append(cols[i+1], c)
			}
		}
		if len(col) == 1 {
			out = append(out, col[0])
		} else {
			out = append(out, False)
		}
	}
	return out
}

// zeroUnder decides that a linear combination of conditions is the integer zero wherever pc holds.
func zeroUnder(p *Poly, pc Bdd) (bool, string) {
	k, ws, ok := linInd(p)
	if !ok {
		return false, "the coefficient is " + p.String()
	}
	return coeff(append(ws, weighted{k, True})).zeroUnder(pc)
}

func (a coeff) zeroUnder(pc Bdd) (bool, string) {
	var pos, neg []weighted
	for _, w := range a {
		if w.c.Sign() > 0 {
			pos = append(pos, w)
		} else {
			neg = append(neg, weighted{new(big.Int).Neg(w.c), w.f})
		}
	}
	l, r := adder(pos), adder(neg)
	for i := 0; i < len(l) || i < len(r); i++ {
		x, y := False, False
		if i < len(l) {
			x = l[i]
		}
		if i < len(r) {
			y = r[i]
		}
		if d := And(pc, Xor(x, y)); d != False && feasible(d) {
			return false, fmt.Sprintf("bit %d of the result differs when %s", i, condStr(d))
		}
	}
	return true, ""
}

func byteVals(r *Run, v Val) ([]*Poly, bool) {
	s := r.I.bytesOf(r.st, v, token.NoPos)
	if len(s.alts) != 1 {
		return nil, false
	}
	return explode(s.alts[0].s)
}

func (r *Run) blobArg(b *bitBlob) Val {
	return r.I.newBytes(r.st, mkSeqV(fromBytes(b.bytes())), token.NoPos)
}

// ---- points as combinations of base points ----

type scPt struct {
	id int
	co map[string]coeff
}

// coeff is a sum of weights, each counted where its condition holds.
type coeff []weighted

func (a coeff) add(b coeff) coeff {
	out := append(coeff{}, a...)
	for _, w := range b {
		out = append(out, w)
	}
	return out.clean()
}

// clean joins the terms that have the same condition.
func (a coeff) clean() coeff {
	at := map[Bdd]int{}
	var out coeff
	for _, w := range a {
		if w.f == False {
			continue
		}
		if i, ok := at[w.f]; ok {
			out[i].c = new(big.Int).Add(out[i].c, w.c)
			continue
		}
		at[w.f] = len(out)
		out = append(out, w)
	}
	n := 0
	for _, w := range out {
		if w.c.Sign() != 0 {
			out[n] = w
			n++
		}
	}
	return out[:n]
}

func (a coeff) scale(k *big.Int) coeff {
	out := make(coeff, len(a))
	for i, w := range a {
		out[i] = weighted{new(big.Int).Mul(w.c, k), w.f}
	}
	return out
}

func (a coeff) under(pc Bdd) coeff {
	out := make(coeff, len(a))
	for i, w := range a {
		out[i] = weighted{w.c, restrictTo(w.f, pc)}
	}
	return out.clean()
}

func (a coeff) number() (*big.Int, bool) {
	k := new(big.Int)
	for _, w := range a {
		if w.f != True {
			return nil, false
		}
		k.Add(k, w.c)
	}
	return k, true
}

func (a coeff) String() string {
	if k, ok := a.number(); ok {
		return k.String()
	}
	return "a scalar"
}

// coeffOf reads a polynomial that is linear in conditions.
func coeffOf(p *Poly) (coeff, bool) {
	k, ws, ok := linInd(p)
	if !ok {
		return nil, false
	}
	return append(coeff(ws), weighted{k, True}).clean(), true
}

var scN int

func (p *scPt) coordinate(i int) *Poly {
	name := fmt.Sprintf("%s of point #%d", []string{"x", "y"}[i], p.id)
	scCoord[name] = p
	return App(name, zero, new(big.Int).Sub(hexP, one))
}

var scCoord = map[string]*scPt{}

func init() {
	resetHooks = append(resetHooks, func() { scCoord, scN, tabC = map[string]*scPt{}, 0, map[string]*ArrV{} })
}

func scZero() *scPt { return &scPt{co: map[string]coeff{}} }

func scSum(a, b *scPt) *scPt {
	r := scZero()
	for n, c := range a.co {
		r.co[n] = c
	}
	for n, c := range b.co {
		r.co[n] = r.co[n].add(c)
	}
	return r.clean()
}

func (p *scPt) clean() *scPt {
	for n, c := range p.co {
		if len(c) == 0 {
			delete(p.co, n)
		}
	}
	return p
}

func (p *scPt) String() string {
	if len(p.co) == 0 {
		return "the identity"
	}
	var ns []string
	for n := range p.co {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	out := ""
	for i, n := range ns {
		if i > 0 {
			out += " + "
		}
		out += "(" + p.co[n].String() + ")*" + n
	}
	return out
}

// affine arithmetic on numbers, for the endomorphism's eigenvalue
type numPt struct{ x, y *big.Int }

func (a *numPt) add(b *numPt) *numPt {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	var n, d *big.Int
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 {
			return nil
		}
		n, d = new(big.Int).Mul(bi(3), new(big.Int).Mul(a.x, a.x)), new(big.Int).Lsh(a.y, 1)
	} else {
		n, d = new(big.Int).Sub(b.y, a.y), new(big.Int).Sub(b.x, a.x)
	}
	l := new(big.Int).Mul(n, new(big.Int).ModInverse(d.Mod(d, hexP), hexP))
	l.Mod(l, hexP)
	x := new(big.Int).Sub(new(big.Int).Sub(new(big.Int).Mul(l, l), a.x), b.x)
	x.Mod(x, hexP)
	y := new(big.Int).Sub(new(big.Int).Mul(l, new(big.Int).Sub(a.x, x)), a.y)
	y.Mod(y, hexP)
	return &numPt{x, y}
}

func (a *numPt) mul(k *big.Int) *numPt {
	var r *numPt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(a)
		}
	}
	return r
}

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex")
	}
	return n
}

var (
	stdG = &numPt{hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	// a cube root of unity modulo N
	cubeN = hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
)

// eigen is the scalar by which (x, y) -> (b*x, y) multiplies every point, for b^3 = 1.
func eigen(b *big.Int) (*big.Int, bool) {
	if b.Cmp(one) == 0 {
		return one, true
	}
	k := b.Text(16)
	l, ok := eigenC[k]
	if !ok {
		l = eigenOf(b)
		eigenC[k] = l
	}
	return l, l != nil
}

var eigenC = map[string]*big.Int{}

func eigenOf(b *big.Int) *big.Int {
	for _, l := range []*big.Int{cubeN, new(big.Int).Sub(new(big.Int).Sub(hexN, one), cubeN)} {
		q := stdG.mul(l)
		x := new(big.Int).Mul(b, stdG.x)
		if x.Mod(x, hexP).Cmp(q.x) == 0 && q.y.Cmp(stdG.y) == 0 {
			return l
		}
	}
	return nil
}

// baseName names the image of a base point under multiplication of its x coordinate by b.
func baseName(n string, b *big.Int) (string, bool) {
	if b.Cmp(one) == 0 {
		return n, true
	}
	if _, ok := eigen(b); !ok {
		return "", false
	}
	return n + "~" + b.Text(16), true
}

func baseWeight(n string) (string, *big.Int) {
	for i := range n {
		if n[i] == '~' {
			w, _ := eigen(hexInt(n[i+1:]))
			return n[:i], w
		}
	}
	return n, one
}

// monoVar reads c*v.
func monoVar(p *GP) (*big.Int, int) {
	if len(p.t) != 1 {
		return nil, -1
	}
	for m, c := range p.t {
		if len(m) == 4 {
			if v, e := monVE(m, 0); e == 1 {
				return c, v
			}
		}
	}
	return nil, -1
}

// scTriple reads a Jacobian triple in one case.
func scTriple(x, y, z *gfAlt) (*scPt, bool) {
	for _, a := range []*gfAlt{x, y, z} {
		if d, ok := a.den.isConst(); !ok || d.Cmp(one) != 0 {
			return nil, false
		}
	}
	if z.num.isZero() || x.num.isZero() && y.num.isZero() {
		return scZero(), true
	}
	cx, vx := monoVar(x.num)
	cy, vy := monoVar(y.num)
	if vx < 0 || vy < 0 {
		return nil, false
	}
	sign := int64(1)
	if cy.Cmp(one) != 0 {
		if new(big.Int).Add(cy, one).Cmp(hexP) != 0 {
			return nil, false
		}
		sign = -1
	}
	a, b := gf.vars[vx], gf.vars[vy]
	if a.tag == nil || a.tag != b.tag || a.op != b.op || a.coord != 0 || b.coord != 1 {
		return nil, false
	}
	if k, ok := z.num.isConst(); ok {
		if k.Cmp(one) != 0 || a.poly == nil {
			return nil, false
		}
	} else if v := z.num.isVar(); v < 0 || gf.vars[v].tag != a.tag || gf.vars[v].op != a.op || gf.vars[v].coord != 2 {
		return nil, false
	}
	r := scZero()
	for n, c := range a.tag.co {
		m, ok := n, true
		if cx.Cmp(one) != 0 {
			if base, w := baseWeight(n); w.Cmp(one) != 0 {
				_ = base
				return nil, false
			}
			m, ok = baseName(n, cx)
		}
		if !ok {
			return nil, false
		}
		if sign < 0 {
			c = c.scale(bi(-1))
		}
		r.co[m] = c
	}
	return r, true
}

func scTag(p *scPt, px, py *Poly) [3]*GP {
	scN++
	p.id = scN
	op := len(gf.vars)
	var out [3]*GP
	for i, n := range []string{"X", "Y", "Z"} {
		var q *Poly
		if i == 0 {
			q = px
		} else if i == 1 {
			q = py
		}
		v := gfNewVar(fmt.Sprintf("%s#%d", n, p.id), q)
		gf.vars[v].tag, gf.vars[v].coord, gf.vars[v].op = p, i, op
		out[i] = gpV(v)
	}
	return out
}

// scRead is the point a Jacobian triple stands for, with guarded coefficients.
func (I *Interp) scRead(st *State, x, y, z Val, pos token.Pos, what string) *scPt {
	var g [3]*GFV
	for i, v := range []Val{x, y, z} {
		g[i] = I.gfGet(st, v, pos)
	}
	return I.scOf(st, g, pos, what)
}

func (I *Interp) scOf(st *State, g [3]*GFV, pos token.Pos, what string) *scPt {
	var alts []scAlt
	for i := range g[0].alts {
		for j := range g[1].alts {
			cxy := And(g[0].alts[i].c, g[1].alts[j].c)
			if And(cxy, st.pc) == False {
				continue
			}
			for k := range g[2].alts {
				a, b, d := &g[0].alts[i], &g[1].alts[j], &g[2].alts[k]
				c := And(cxy, d.c)
				if And(c, st.pc) == False || !feasible(And(c, st.pc)) {
					continue
				}
				p, ok := scTriple(a, b, d)
				if !ok {
					I.event(Event{kind: "field", what: fmt.Sprintf("%s: (%s, %s, %s) is not a point of the curve built from the operands", what, a.num, b.num, d.num), pos: pos, cond: And(st.pc, c)})
					p = scZero()
				}
				if a.mag > 2 || b.mag > 2 || d.mag > 1 {
					I.gfNeed(st, c, pos, fmt.Sprintf("%s: coordinates of magnitude %d, %d, %d (at most 2, 2, 1 are allowed)", what, a.mag, b.mag, d.mag))
				}
				alts = append(alts, scAlt{c, p})
			}
		}
	}
	return scMerge(alts)
}

type scAlt struct {
	c Bdd
	p *scPt
}

// scMerge is the point that equals each alternative under its (disjoint) condition.
func scMerge(alts []scAlt) *scPt {
	if len(alts) == 0 {
		return scZero()
	}
	if len(alts) == 1 {
		return &scPt{co: alts[0].p.co}
	}
	r := scZero()
	names := map[string]bool{}
	for _, a := range alts {
		for n := range a.p.co {
			names[n] = true
		}
	}
	for n := range names {
		r.co[n] = mergeTerms(n, alts)
	}
	return r.clean()
}

// mergeTerms keeps what all alternatives have in common and joins terms of equal weight, so
// that a digit added on some of the paths remains one digit.
func mergeTerms(n string, alts []scAlt) coeff {
	type key struct {
		c string
		f Bdd
	}
	count := map[key]int{}
	for _, a := range alts {
		for _, w := range a.p.co[n] {
			count[key{w.c.String(), w.f}]++
		}
	}
	type slot struct {
		c string
		i int
	}
	var out coeff
	at := map[slot]int{}
	for i, a := range alts {
		used := map[string]int{}
		for _, w := range a.p.co[n] {
			c := w.c.String()
			if count[key{c, w.f}] == len(alts) {
				if i == 0 {
					out = append(out, w)
				}
				continue
			}
			k := slot{c, used[c]}
			used[c]++
			f := And(a.c, w.f)
			if j, ok := at[k]; ok {
				out[j].f = Or(out[j].f, f)
				continue
			}
			at[k] = len(out)
			out = append(out, weighted{w.c, f})
		}
	}
	return out.clean()
}

func (I *Interp) scPut(st *State, p *scPt, x, y, z Val, pos token.Pos) {
	t := scTag(p, nil, nil)
	for i, v := range []Val{x, y, z} {
		mag := 2
		if i == 2 {
			mag = 1
		}
		I.gfPut(st, v, gfVal(t[i], mag, false), pos)
	}
}

// useJacobian installs the contracts of the Jacobian operations (established by the group law's check).
func (I *Interp) useJacobian() {
	I.sum[kc+"addJacobian"] = func(I *Interp, st *State, c *callCtx) Val {
		a := c.args
		p := I.scRead(st, a[1], a[2], a[3], c.pos, "first operand of addJacobian")
		q := I.scRead(st, a[4], a[5], a[6], c.pos, "second operand of addJacobian")
		I.scPut(st, scSum(p, q), a[7], a[8], a[9], c.pos)
		return &TupleV{}
	}
	I.sum[kc+"doubleJacobian"] = func(I *Interp, st *State, c *callCtx) Val {
		a := c.args
		p := I.scRead(st, a[1], a[2], a[3], c.pos, "operand of doubleJacobian")
		I.scPut(st, scSum(p, p), a[4], a[5], a[6], c.pos)
		return &TupleV{}
	}
}

var tabC map[string]*ArrV

// TabV is a table of 32 rows of 256 Jacobian points: entry (i, j) is j*256^(31-i) times the base point.
type TabV struct {
	base string
	row  *Poly
}

func (t *TabV) at(I *Interp, st *State, idx *Poly) Val {
	if t.row == nil {
		return &TabV{t.base, idx}
	}
	r, ok := t.row.constInt()
	if !ok || r < 0 || r > 31 {
		I.event(Event{kind: "unmodelled", what: "row of the table of multiples is " + t.row.String(), pos: token.NoPos, cond: st.pc})
		return &Opaque{name: "table"}
	}
	key := fmt.Sprintf("%s/%d/%s", t.base, r, idx.String())
	if a := tabC[key]; a != nil {
		return a
	}
	p := scZero()
	if !idx.isZero() {
		v, ok := coeffOf(idx)
		if !ok {
			I.event(Event{kind: "unmodelled", what: "column of the table of multiples is " + idx.String(), pos: token.NoPos, cond: st.pc})
			return &Opaque{name: "table"}
		}
		p.co[t.base] = v.scale(pow2(int(8 * (31 - r))))
	}
	g := scTag(p, nil, nil)
	a := &ArrV{}
	for i := range g {
		a.e = append(a.e, &StructV{[]Val{gfVal(g[i], 1, i < 2)}}) // C23 checks the form of the entries
	}
	tabC[key] = a
	return a
}

// ---- scalars whose bytes are looked at ----

type scRun struct {
	*Run
	lens  []int // lengths of the successive byte strings taken of integers
	blobs []*bitBlob
	iv    *linEnv
	picks []bool // choices between lengths
	used  int
	more  bool // a choice beyond the script came up
	curve Val
	over  string
	maxN  []int
}

func (c *Check) scalarRun() *scRun {
	r := &scRun{Run: c.fieldRun()}
	indWide, maxDistribute = true, 1
	return r
}

func (c *Check) mulRun(lens []int, picks []bool) *scRun {
	r := c.scalarRun()
	r.lens, r.picks = lens, picks
	I, st := r.I, r.st
	I.useJacobian()
	// the curve object as the package's own initialisation leaves it, tables aside
	delete(I.sum, repoPrefix+"/btcec.S256")
	for _, n := range []string{"loadS256BytePoints", "loadS256BytePointsH"} {
		I.sum[repoPrefix+"/btcec."+n] = func(I *Interp, st *State, c *callCtx) Val { return nilIface() }
	}
	I.fromZero = func(t types.Type) bool { return namedKey(t) == repoPrefix+"/btcec.KoblitzCurve" }
	I.suppress++
	r.curve = r.call(c.btcFn("S256"))
	I.suppress--
	kt := I.P.namedType("btcec", "KoblitzCurve").Underlying().(*types.Struct)
	for i := 0; i < kt.NumFields(); i++ {
		f := kt.Field(i)
		p, ok := f.Type().(*types.Pointer)
		if !ok {
			continue
		}
		if at, ok := p.Elem().Underlying().(*types.Array); !ok || at.Len() != 32 {
			continue
		}
		base := "G"
		if f.Name() == "bytePointsH" {
			base = "H"
		}
		tab := ptrTo(I.newObj(st, p.Elem(), &TabV{base: base}, "global:table", token.NoPos))
		I.store(st, addStep(r.curve.(*PtrV), Step{f: i}), tab, token.NoPos)
	}
	old := I.sum["(*math/big.Int).Bytes"]
	I.sum["(*math/big.Int).Bytes"] = func(I *Interp, st *State, cc *callCtx) Val {
		p := I.bigAt(st, cc.args[0], cc.pos)
		a := p.isAtom()
		if _, isC := p.isConst(); isC || a != nil && !r.bitwise(a) {
			return old(I, st, cc)
		}
		return r.takeBytes(st, p, cc.pos)
	}
	I.decide = func(st *State, c Bdd) bool {
		if r.used < len(r.picks) {
			r.used++
			return r.picks[r.used-1]
		}
		r.used++
		r.more = true
		return true
	}
	return r
}

// bitwise: the bytes of a reduced scalar are looked at one by one where the tables are used.
func (r *scRun) bitwise(a *Atom) bool { return a.kind == "mod" && r.over == "all" }

func (r *scRun) takeBytes(st *State, p *Poly, pos token.Pos) Val {
	for _, b := range r.blobs {
		if b.val == p {
			return r.I.newBytes(st, mkSeqV(fromBytes(b.bytes())), pos)
		}
	}
	i := len(r.blobs)
	n := 0
	if i < len(r.lens) {
		n = r.lens[i]
	}
	env := &linEnv{atom: map[int32][2]*big.Int{}, busy: map[int32]bool{}}
	lo, hi := env.iv(p, 3)
	mx := -1
	if lo != nil && hi != nil {
		m := new(big.Int).Abs(lo)
		if hi.CmpAbs(m) > 0 {
			m = new(big.Int).Abs(hi)
		}
		mx = (m.BitLen() + 7) / 8
	}
	r.maxN = append(r.maxN, mx)
	b := newBlob(fmt.Sprintf("bit of scalar %d", i+1), n)
	b.val, b.n = p, i+1
	r.blobs = append(r.blobs, b)
	return r.I.newBytes(st, mkSeqV(fromBytes(b.bytes())), pos)
}

func (c *Check) naf() {
	fn := c.btcFn("NAF")
	max := 17
	if c.tier == "thorough" {
		max = 33
	}
	for n := 0; n <= max; n++ {
		n := n
		c.sub(fmt.Sprintf("NAF of %d bytes", n), func() {
			r := c.scalarRun()
			b := newBlob("k", n)
			res := r.call(fn, r.blobArg(b)).(*TupleV)
			c.absorb(r.I)
			what := fmt.Sprintf("NAF of %d bytes", n)
			w := c.where(fn)
			tot := Neg(b.sum())
			for i, v := range res.v {
				p := r.I.bytesOf(r.st, v, token.NoPos).liftP(r.st.pc, intOf)
				if i == 1 {
					p = Neg(p)
				}
				tot = Add(tot, p)
			}
			ok, why := zeroUnder(tot, r.st.pc)
			c.ob(ok, what+": the positive minus the negative digits is the input", w, "%s", why)
			c.nonAdjacent(r, b, res, what, w)
			ln := EqP(r.I.lenOf(r.st, res.v[0]), r.I.lenOf(r.st, res.v[1]))
			c.ob(!feasible(AndNot(r.st.pc, ln)), what+": both strings have the same length", w, "the lengths differ")
			c.noPanics(r.Run, what)
			c.understood(r.Run, what)
		})
	}
}

// nonAdjacent decides that no digit is both 1 and -1 and that no two neighbours are nonzero.
func (c *Check) nonAdjacent(r *scRun, b *bitBlob, res *TupleV, what, w string) {
	var d [2][]Bdd
	for i := range d {
		p := r.I.bytesOf(r.st, res.v[i], token.NoPos).liftP(r.st.pc, intOf)
		co, ok := coeffOf(p)
		if !ok {
			c.ob(false, what+": the digits are not adjacent", w, "the digits are %s", p)
			return
		}
		d[i] = adder(co)
	}
	at := func(v []Bdd, i int) Bdd {
		if i < len(v) {
			return v[i]
		}
		return False
	}
	prev, bad := False, False
	for i := 0; i < len(d[0]) || i < len(d[1]); i++ {
		x, y := at(d[0], i), at(d[1], i)
		bad = Or(bad, And(x, y))
		nz := Or(x, y)
		bad = Or(bad, And(prev, nz))
		prev = nz
	}
	bad = And(bad, r.st.pc)
	c.ob(!feasible(bad), what+": the digits are not adjacent", w, "two neighbouring digits are set when %s", condStr(bad))
}

// scResult reads the returned coordinates as one point.
func (r *scRun) scResult(res Val) (*scPt, string) {
	t := res.(*TupleV)
	px := r.I.bigAt(r.st, t.v[0], token.NoPos)
	py := r.I.bigAt(r.st, t.v[1], token.NoPos)
	var alts []scAlt
	for _, l := range leavesOf([]*Poly{px, py}, r.st.pc) {
		var q [2]*scPt
		for i, p := range l.ps {
			if p.isZero() {
				q[i] = scZero()
			} else if a := p.isAtom(); a != nil && a.kind == "app" && scCoord[a.name] != nil && a.name == scName(i, scCoord[a.name]) {
				q[i] = scCoord[a.name]
			} else {
				return nil, "the coordinates are (" + l.ps[0].String() + ", " + l.ps[1].String() + ")"
			}
		}
		if q[0] != q[1] && !(len(q[0].co) == 0 && len(q[1].co) == 0) {
			return nil, "the coordinates belong to different points"
		}
		alts = append(alts, scAlt{l.c, q[0]})
	}
	if len(alts) == 0 {
		return nil, "nothing is returned"
	}
	return scMerge(alts), ""
}

func scName(i int, p *scPt) string {
	return fmt.Sprintf("%s of point #%d", []string{"x", "y"}[i], p.id)
}

// checkMultiple decides that the point is k times the base, whatever the bits are.
func (c *Check) checkMultiple(r *scRun, what, w string, p *scPt, base string, k *Poly) {
	rule := what + ": the result is the scalar times the point"
	mine := map[int32]int{}
	for i, b := range r.blobs {
		for _, f := range b.bits {
			mine[support(f)[0]] = i
		}
	}
	// the conditions that are not bits of the scalars
	var other []int32
	seen := map[int32]bool{}
	note := func(f Bdd) {
		for _, v := range support(f) {
			if _, ok := mine[v]; !ok && !seen[v] {
				seen[v] = true
				other = append(other, v)
			}
		}
	}
	note(r.st.pc)
	for _, co := range p.co {
		for _, t := range co {
			note(t.f)
		}
	}
	if len(other) > 8 {
		c.ob(false, rule, w, "the result depends on %d further conditions", len(other))
		return
	}
	n := 0
	var walk func(i int, pc, lits Bdd)
	walk = func(i int, pc, lits Bdd) {
		if And(pc, lits) == False {
			return
		}
		if i < len(other) {
			v := B.varNode(other[i])
			walk(i+1, And(pc, v), And(lits, v))
			walk(i+1, AndNot(pc, v), AndNot(lits, v))
			return
		}
		if !feasibleLin(lits) {
			return
		}
		n++
		c.oneMultiple(r, rule, w, p, base, k, And(r.st.pc, lits), lits)
	}
	walk(0, r.st.pc, True)
	c.ob(n > 0, rule, w, "no case is reachable")
}

func (c *Check) oneMultiple(r *scRun, rule, w string, p *scPt, base string, k *Poly, pc, lits Bdd) {
	total := C(0)
	fail := func(f string, args ...interface{}) {
		c.ob(false, rule, w, "when %s: "+f, append([]interface{}{condStr(lits)}, args...)...)
	}
	cs, ok := cubes(withAxioms(lits), 50)
	if !ok || len(cs) == 0 {
		fail("undecided")
		return
	}
	env, _ := linFactsOf(cs[0])
	for _, b := range r.blobs {
		if b.val == nil {
			continue
		}
		if lo, hi := env.iv(b.val, 3); lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			return // the case does not occur
		}
	}
	for name, co := range p.co {
		bn, wt := baseWeight(name)
		if bn != base {
			fail("the result has a component along %s", bn)
			return
		}
		co = co.under(pc)
		var kept *Poly
		if b := r.mainBlob(co); b != nil {
			sum := b.digits()
			eq, wy := co.add(sum.scale(bi(-1))).zeroUnder(pc)
			neg := false
			if !eq {
				eq, _ = co.add(sum).zeroUnder(pc)
				neg = eq
			}
			if !eq {
				fail("the multiple of %s is not part %d of the scalar: %s", name, b.n, wy)
				return
			}
			kept = b.sum()
			if b.val != nil {
				if kept = absUnder(env, b.val); kept == nil {
					fail("the sign of %s is not determined", b.val)
					return
				}
			}
			if neg {
				kept = Neg(kept)
			}
		}
		if kept == nil {
			v, ok := co.number()
			if !ok {
				fail("the multiple of %s is none of the parts of the scalar", name)
				return
			}
			kept = CB(v)
		}
		total = Add(total, Scale(kept, wt))
	}
	off := func(t *Poly) *Poly { return canonMod(env.simplify(Sub(t, k)), hexN) }
	d := off(total)
	// an empty byte string stands for zero
	totals := []*Poly{total}
	for _, b := range r.blobs {
		if b.val == nil || len(b.bits) > 0 || d.isZero() || len(totals) > 100 {
			continue
		}
		for _, t := range totals {
			for _, wt := range r.weights(base) {
				totals = append(totals, Add(t, Scale(b.val, wt)), Sub(t, Scale(b.val, wt)))
			}
		}
		for _, t := range totals {
			if e := off(t); e.isZero() {
				d = e
			}
		}
	}
	c.ob(d.isZero(), rule, w, "when %s the multiple of %s is off by %s", condStr(lits), base, d)
}

// weights are the multiples of the base that the endomorphism gives.
func (r *scRun) weights(base string) []*big.Int {
	out := []*big.Int{one}
	if base == "B" {
		out = append(out, cubeN, new(big.Int).Sub(new(big.Int).Sub(hexN, one), cubeN))
	}
	return out
}

// mainBlob is the byte string whose bits most of the conditions depend on.
func (r *scRun) mainBlob(co coeff) *bitBlob {
	own := map[int32]*bitBlob{}
	for _, b := range r.blobs {
		for _, f := range b.bits {
			own[support(f)[0]] = b
		}
	}
	n := map[*bitBlob]int{}
	for _, t := range co {
		for _, v := range support(t.f) {
			if b := own[v]; b != nil {
				n[b]++
			}
		}
	}
	var best *bitBlob
	for _, b := range r.blobs {
		if n[b] > 0 && (best == nil || n[b] > n[best]) {
			best = b
		}
	}
	return best
}

func absUnder(e *linEnv, p *Poly) *Poly {
	lo, hi := e.iv(p, 3)
	if lo != nil && lo.Sign() >= 0 {
		return p
	}
	if hi != nil && hi.Sign() <= 0 {
		return Neg(p)
	}
	return nil
}

// scripts runs f with every sequence of length choices.
func scripts(f func(picks []bool) *scRun) {
	work := [][]bool{nil}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		r := f(p)
		if r == nil {
			return
		}
		for i := r.used - 1; i >= len(p); i-- {
			q := append([]bool{}, p...)
			for len(q) < i {
				q = append(q, true)
			}
			work = append(work, append(q, false))
		}
	}
}

// scalarArg is a byte string standing for k with an arbitrary number (in [lo, hi]) of bytes.
func (r *scRun) scalarArg(k *Poly, lo, hi int64) Val {
	n := Sym("length of k", bi(lo), bi(hi))
	return r.I.newBytes(r.st, mkSeqV(mkSeq([]Seg{{k: "pad", p: k, n: n}})), token.NoPos)
}

// multCase is one shape of input of a multiplication.
type multCase struct {
	fn    string
	base  string // "B": the point given, "": the identity
	long  bool   // more than 32 bytes
	short bool   // fewer than 32 bytes
	bytes int    // length of the scalar's byte string where its bits are looked at directly, or -1
	lens  []int  // lengths of byte strings taken of integers
	max   int    // the longest one examined
}

func (m multCase) String() string {
	s := m.fn
	switch {
	case m.bytes >= 0:
		s += fmt.Sprintf(" of a scalar of %d bytes", m.bytes)
	case m.long:
		s += " of a scalar of more than 32 bytes"
	default:
		s += " of a scalar of " + map[bool]string{true: "fewer than 32 bytes", false: "32 bytes"}[m.short]
	}
	if m.base == "" {
		s += " and the identity"
	}
	if len(m.lens) > 0 {
		s += fmt.Sprintf(", parts of %v bytes", m.lens)
	}
	return s
}

func (c *Check) multiple(m multCase) {
	fn := c.btcMethod("KoblitzCurve", m.fn)
	what := m.String()
	w := c.where(fn)
	c.sub(what, func() {
		var bounds []int
		scripts(func(picks []bool) *scRun {
			resetEngine()
			r := c.mulRun(m.lens, picks)
			var k *Poly
			var arg Val
			switch {
			case m.bytes >= 0:
				b := newBlob("bit of the scalar", m.bytes)
				r.blobs = append(r.blobs, b)
				k, arg = b.sum(), r.blobArg(b)
			case m.long:
				k = Sym("k", zero, new(big.Int).Sub(pow2(1<<15), one))
				arg = r.scalarArg(k, 33, 1<<12)
			case m.short:
				k = Sym("k", zero, new(big.Int).Sub(pow2(248), one))
				arg = r.scalarArg(k, 0, 31)
			default:
				k = Sym("k", zero, new(big.Int).Sub(pow2(256), one))
				arg = r.scalarArg(k, 32, 32)
			}
			args := []Val{r.curve}
			if m.fn == "ScalarMult" {
				px, py := C(0), C(0)
				if m.base == "B" {
					pm := new(big.Int).Sub(hexP, one)
					px, py = Sym("Bx", one, pm), Sym("By", one, pm)
					bp := scZero()
					bp.co["B"] = coeff{{one, True}}
					scTag(bp, px, py)
				}
				args = append(args, r.scalar("Bx", px), r.scalar("By", py))
			} else {
				r.over = "all"
			}
			res := r.call(fn, append(args, arg)...)
			c.absorb(r.I)
			for i, m := range r.maxN {
				for len(bounds) <= i {
					bounds = append(bounds, 0)
				}
				bounds[i] = m
			}
			p, why := r.scResult(res)
			if !c.ob(p != nil, what+": a multiple of the point is returned", w, "%s", why) {
				return nil
			}
			if m.base == "" {
				c.ob(len(p.co) == 0, what+": the result is the identity", w, "the result is %s", p)
			} else {
				c.checkMultiple(r, what, w, p, m.base, k)
			}
			c.fieldDiscipline(r.Run, what)
			c.noPanics(r.Run, what)
			c.understood(r.Run, what)
			return r
		})
		if m.bytes >= 0 && m.lens == nil && len(bounds) > 0 && bounds[0] >= 0 && bounds[0] <= 32 {
			// the scalar is reduced first: every length of the result
			for n := 0; n <= bounds[0]; n++ {
				e := m
				e.lens, e.max = []int{n}, bounds[0]
				c.multiple(e)
			}
			return
		}
		for _, b := range bounds {
			c.ob(b >= 0 && b <= m.max, what+": the parts of the scalar are within the lengths examined", w, "a part of the scalar may have %d bytes", b)
		}
	})
}

func init() {
	register(&checkDef{id: "C22", run: func(c *Check) {
		var parts []part
		add := func(m multCase) {
			parts = append(parts, part{m.String(), func() { c.multiple(m) }})
		}
		half := func(a, b int) {
			m := multCase{fn: "ScalarMult", base: "B", bytes: -1, lens: []int{a, b}, max: 17}
			add(m)
			if a+b < 20 || c.tier == "thorough" {
				m.short = true
				add(m)
			}
		}
		// the slowest first
		half(17, 17)
		half(17, 16)
		half(16, 17)
		half(16, 16)
		if c.tier == "thorough" {
			for a := 17; a >= 0; a-- {
				for b := 17; b >= 0; b-- {
					if d := a - b; (d >= -1 && d <= 1 || a == 0 || b == 0 || a == 17 || b == 17) && a+b < 32 {
						half(a, b)
					}
				}
			}
		} else {
			for _, l := range [][2]int{{17, 0}, {0, 17}, {9, 8}, {3, 1}, {1, 3}, {2, 1}, {1, 2}, {1, 1}, {1, 0}, {0, 1}, {0, 0}} {
				half(l[0], l[1])
			}
		}
		for _, l := range [][]int{{0, 1}, {2, 1}, {1, 2}, {5, 5}} {
			add(multCase{fn: "ScalarMult", base: "B", long: true, bytes: -1, lens: l, max: 17})
			add(multCase{fn: "ScalarMult", bytes: -1, lens: l, max: 17})
		}
		for _, f := range []string{"ScalarBaseMult", "ScalarBaseMultH"} {
			base := "G"
			if f == "ScalarBaseMultH" {
				base = "H"
			}
			for i := 0; i < 6; i++ {
				i := i
				parts = append(parts, part{f, func() {
					for n := i; n <= 32; n += 6 {
						c.multiple(multCase{fn: f, base: base, bytes: n})
						c.multiple(multCase{fn: f, base: base, long: true, bytes: -1, lens: []int{n}, max: 32})
					}
				}})
			}
		}
		parts = append(parts, part{"NAF", c.naf})
		c.parallel(parts)
	}})
}

package main

// The group law: affine and Jacobian point arithmetic of the curve, decided as
// identities of rational functions over GF(P) modulo the curve equation.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (c *Check) btcFn(name string) *ssa.Function {
	f := c.P.fn("btcec", name)
	if f == nil {
		panic("function btcec." + name + " not found")
	}
	return f
}

func (c *Check) btcMethod(typ, name string) *ssa.Function {
	t := c.P.namedType("btcec", typ)
	if t == nil {
		panic("type btcec." + typ + " not found")
	}
	ms := c.P.ssa.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Pkg() == t.(*types.Named).Obj().Pkg() && len(ms.At(i).Index()) == 1 {
			return c.P.ssa.MethodValue(ms.At(i))
		}
	}
	panic("method btcec." + typ + "." + name + " not found")
}

// fieldRun is a run in which field methods are used through their contracts
// and the curve operations are interpreted from source.
func (c *Check) fieldRun() *Run {
	r := newRun(c.P, false)
	r.I.useField()
	for _, n := range []string{"Add", "Double", "ScalarMult", "ScalarBaseMult", "ScalarBaseMultH", "IsOnCurve"} {
		delete(r.I.sum, kc+n)
	}
	return r
}

// affine is a finite point with coordinates on the curve.
type affine struct {
	inf  bool
	x, y *GP
	px   *Poly
	py   *Poly
}

func finitePt(name string) affine {
	pm := new(big.Int).Sub(hexP, one)
	px, py := Sym("x"+name, one, pm), Sym("y"+name, one, pm) // no point has x = 0 (7 is not a square) or y = 0 (the order is odd)
	x, y := gfNewVar("x"+name, px), gfNewVar("y"+name, py)
	gx := gpV(x)
	gf.vars[y].sq = gpAdd(gpPow(gx, 3), gpI(7))
	gf.nonzero = append(gf.nonzero, gx, gpV(y), gf.vars[y].sq)
	return affine{x: gx, y: gpV(y), px: px, py: py}
}

func (a affine) neg() affine {
	if a.inf {
		return a
	}
	return affine{x: a.x, y: gpScale(a.y, bi(-1)), px: a.px, py: Sub(CB(hexP), a.py)}
}

// ratPt is an expected sum: x = xn/xd, y = yn/yd.
type ratPt struct {
	inf            bool
	xn, xd, yn, yd *GP
}

func (a affine) rat() ratPt {
	if a.inf {
		return ratPt{inf: true}
	}
	return ratPt{false, a.x, gpI(1), a.y, gpI(1)}
}

func chord(a, b affine) ratPt {
	d, e := gpSub(b.x, a.x), gpSub(b.y, a.y)
	return line(a, b.x, e, d)
}
func tangent(a affine) ratPt {
	return line(a, a.x, gpScale(gpMul(a.x, a.x), bi(3)), gpScale(a.y, bi(2)))
}
func line(a affine, x2, e, d *GP) ratPt {
	d2 := gpMul(d, d)
	d3 := gpMul(d2, d)
	xn := gpSub(gpMul(e, e), gpMul(gpAdd(a.x, x2), d2))
	yn := gpSub(gpMul(e, gpSub(gpMul(a.x, d2), xn)), gpMul(a.y, d3))
	return ratPt{false, xn, d2, yn, d3}
}

// relCase is one case of the group law.
type relCase struct {
	name string
	mk   func() (a, b affine, want ratPt)
}

func relCases() []relCase {
	inf := affine{inf: true}
	return []relCase{
		{"two different points", func() (affine, affine, ratPt) {
			a, b := finitePt("1"), finitePt("2")
			gf.nonzero = append(gf.nonzero, gpSub(b.x, a.x))
			return a, b, chord(a, b)
		}},
		{"a point and itself", func() (affine, affine, ratPt) {
			a := finitePt("1")
			return a, a, tangent(a)
		}},
		{"a point and its negation", func() (affine, affine, ratPt) {
			a := finitePt("1")
			return a, a.neg(), ratPt{inf: true}
		}},
		{"the identity and a point", func() (affine, affine, ratPt) {
			b := finitePt("2")
			return inf, b, b.rat()
		}},
		{"a point and the identity", func() (affine, affine, ratPt) {
			a := finitePt("1")
			return a, inf, a.rat()
		}},
		{"the identity and itself", func() (affine, affine, ratPt) { return inf, inf, ratPt{inf: true} }},
	}
}

func (r *Run) affineArgs(name string, a affine) (Val, Val) {
	if a.inf {
		return r.scalar(name+".x", C(0)), r.scalar(name+".y", C(0))
	}
	return r.scalar(name+".x", a.px), r.scalar(name+".y", a.py)
}

// eqRat: under the facts, n/d = wn/wd.
func eqRat(subs []gfSub, n, d, wn, wd *GP) bool {
	p := gpSub(gpMul(n, wd), gpMul(wn, d))
	for _, s := range subs {
		p = gpSubst(p, s.v, s.by)
	}
	return p.isZero()
}

func ratOfPoly(p *Poly) (*GP, *GP, bool) {
	if c, ok := p.isConst(); ok {
		if c.Sign() < 0 || c.Cmp(hexP) >= 0 {
			return nil, nil, false
		}
		return gpC(c), gpI(1), true
	}
	if a := p.isAtom(); a != nil && a.kind == "app" {
		if r, ok := gf.rat[a.name]; ok {
			return r[0], r[1], true
		}
	}
	lo, hi := p.interval()
	if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(hexP) >= 0 {
		return nil, nil, false
	}
	return gpFrom(p), gpI(1), true
}

// checkAffine decides that the returned big integers are the expected affine point.
func (c *Check) checkAffine(r *Run, what, w string, res Val, want ratPt) {
	t := res.(*TupleV)
	for _, v := range t.v {
		n := nilCond(v)
		c.ob(!feasible(And(r.st.pc, n)), what+": coordinates are returned", w, "a nil coordinate is returned")
	}
	px := underPc(r.I.bigAt(r.st, t.v[0], token.NoPos), r.st.pc)
	py := underPc(r.I.bigAt(r.st, t.v[1], token.NoPos), r.st.pc)
	n := 0
	for _, l := range leavesOf([]*Poly{px, py}, r.st.pc) {
		cs, ok := cubesOf(l.c, 4000)
		if !ok {
			c.ob(false, what, w, "too many cases")
			return
		}
		for _, cube := range cs {
			subs, ok := gfFacts(cube)
			if !ok {
				continue
			}
			n++
			xn, xd, ok1 := ratOfPoly(l.ps[0])
			yn, yd, ok2 := ratOfPoly(l.ps[1])
			good := ok1 && ok2
			if good && want.inf {
				good = xn.isZero() && yn.isZero()
			} else if good {
				good = eqRat(subs, xn, xd, want.xn, want.xd) && eqRat(subs, yn, yd, want.yn, want.yd)
			}
			if !c.ob(good, what+": the result is the group sum, with coordinates in [0, P)", w, "when %s the result is (%s, %s)", cubeStr(cube), ratStr(l.ps[0]), ratStr(l.ps[1])) {
				return
			}
		}
	}
	c.ob(n > 0, what+": some case is reachable", w, "no reachable case")
}

func ratStr(p *Poly) string {
	if n, d, ok := ratOfPoly(p); ok {
		if x, isC := d.isConst(); isC && x.Cmp(one) == 0 {
			return n.String()
		}
		return "(" + n.String() + ")/(" + d.String() + ")"
	}
	return p.String()
}

// fieldDiscipline reports magnitude and normalisation violations found on the way.
func (c *Check) fieldDiscipline(r *Run, what string) {
	n := 0
	for _, e := range r.I.events {
		if e.kind == "field" {
			n++
			c.ob(false, what+": field values are normalised before comparison and stay within their magnitude", c.P.pos(e.pos), "%s when %s", e.what, condStr(e.cond))
		}
	}
	if n == 0 {
		c.ob(true, what+": field values are normalised before comparison and stay within their magnitude", "btcec", "")
	}
}

func (c *Check) groupLaw() {
	add := c.btcMethod("KoblitzCurve", "Add")
	dbl := c.btcMethod("KoblitzCurve", "Double")
	for _, rc := range relCases() {
		rc := rc
		c.sub("Add: "+rc.name, func() {
			r := c.fieldRun()
			a, b, want := rc.mk()
			x1, y1 := r.affineArgs("p", a)
			x2, y2 := r.affineArgs("q", b)
			res := r.call(add, r.I.s256(r.st), x1, y1, x2, y2)
			c.absorb(r.I)
			c.checkAffine(r, "Add of "+rc.name, c.where(add), res, want)
			c.fieldDiscipline(r, "Add of "+rc.name)
			c.noPanics(r, "Add of "+rc.name)
			c.understood(r, "Add of "+rc.name)
		})
	}
	c.sub("Add: one point passed twice", func() {
		r := c.fieldRun()
		a := finitePt("1")
		x1, y1 := r.affineArgs("p", a)
		res := r.call(add, r.I.s256(r.st), x1, y1, x1, y1)
		c.checkAffine(r, "Add of a point and the same object", c.where(add), res, tangent(a))
		c.fieldDiscipline(r, "Add of a point and the same object")
		c.noPanics(r, "Add")
		c.understood(r, "Add")
	})
	for _, inf := range []bool{false, true} {
		inf := inf
		c.sub(fmt.Sprint("Double: identity=", inf), func() {
			r := c.fieldRun()
			a := affine{inf: true}
			want := ratPt{inf: true}
			if !inf {
				a = finitePt("1")
				want = tangent(a)
			}
			x1, y1 := r.affineArgs("p", a)
			res := r.call(dbl, r.I.s256(r.st), x1, y1)
			c.absorb(r.I)
			c.checkAffine(r, "Double", c.where(dbl), res, want)
			c.fieldDiscipline(r, "Double")
			c.noPanics(r, "Double")
			c.understood(r, "Double")
		})
	}
	on := c.btcMethod("KoblitzCurve", "IsOnCurve")
	c.sub("IsOnCurve", func() {
		r := c.fieldRun()
		pm := new(big.Int).Sub(hexP, one)
		px, py := Sym("x", zero, pm), Sym("y", zero, pm)
		x, y := gpV(gfNewVar("x", px)), gpV(gfNewVar("y", py))
		res := r.call(on, r.I.s256(r.st), r.scalar("x", px), r.scalar("y", py)).(Bdd)
		c.absorb(r.I)
		want := gpZero(gpSub(gpMul(y, y), gpAdd(gpPow(x, 3), gpI(7))))
		c.ob(!feasible(And(r.st.pc, Xor(res, want))), "IsOnCurve holds exactly for y^2 = x^3 + 7", c.where(on), "it returns %s", condStr(res))
		c.fieldDiscipline(r, "IsOnCurve")
		c.noPanics(r, "IsOnCurve")
		c.understood(r, "IsOnCurve")
	})
}

// ---- Jacobian level ----

type jac struct {
	p       affine
	z       *GP
	zero    bool // identity as (0, 0, 0) rather than (0, 0, 1)
	zOne    bool
	mag     int
	normXYZ bool
}

func (r *Run) fieldObj(name string, g *GFV) Val {
	t := r.I.P.namedType("btcec", "fieldVal")
	return ptrTo(r.I.newObj(r.st, t, &StructV{[]Val{g}}, "param:"+name, token.NoPos))
}

func gfVal(num *GP, mag int, norm bool) *GFV {
	return &GFV{[]gfAlt{{c: True, num: num, den: gpI(1), mag: mag, norm: norm}}}
}

// jacobian builds a Jacobian triple of the point with an arbitrary z.
func (r *Run) jacobian(name string, a affine, infZ int64) ([3]Val, *GP) {
	if a.inf && infZ == 2 {
		x, y := gpV(gfNewVar("x"+name, nil)), gpV(gfNewVar("y"+name, nil))
		return [3]Val{r.fieldObj(name, gfVal(x, 1, true)), r.fieldObj(name, gfVal(y, 1, true)), r.fieldObj(name, gfConst(zero, 1, true))}, nil
	}
	if a.inf && infZ == 3 {
		z := gpV(gfNewVar("z"+name, nil))
		gf.nonzero = append(gf.nonzero, z)
		return [3]Val{r.fieldObj(name, gfConst(zero, 2, false)), r.fieldObj(name, gfConst(zero, 2, false)), r.fieldObj(name, gfVal(z, 1, false))}, nil
	}
	if a.inf {
		z := gfConst(bi(infZ), 1, true)
		return [3]Val{r.fieldObj(name, gfConst(zero, 1, true)), r.fieldObj(name, gfConst(zero, 1, true)), r.fieldObj(name, z)}, nil
	}
	z := gpV(gfNewVar("z"+name, nil))
	gf.nonzero = append(gf.nonzero, z)
	z2 := gpMul(z, z)
	return [3]Val{
		r.fieldObj(name, gfVal(gpMul(a.x, z2), 2, false)),
		r.fieldObj(name, gfVal(gpMul(a.y, gpMul(z2, z)), 2, false)),
		r.fieldObj(name, gfVal(z, 1, false))}, z
}

func (c *Check) checkJacobian(r *Run, what, w string, out [3]Val, want ratPt) {
	c.checkJac(r, what, w, out, want, false)
}

// checkJac: loose also accepts the identity as (0, 0, z) with zeros that are not normalised,
// which occurs only where every operand is the identity.
func (c *Check) checkJac(r *Run, what, w string, out [3]Val, want ratPt, loose bool) {
	var g [3]*GFV
	for i := range g {
		g[i] = r.I.gfGet(r.st, out[i], token.NoPos)
	}
	n := 0
	for _, x := range g[0].alts {
		for _, y := range g[1].alts {
			for _, z := range g[2].alts {
				cc := And(r.st.pc, And(x.c, And(y.c, z.c)))
				if cc == False {
					continue
				}
				cs, ok := cubesOf(cc, 4000)
				if !ok {
					c.ob(false, what, w, "too many cases")
					return
				}
				for _, cube := range cs {
					subs, ok := gfFacts(cube)
					if !ok {
						continue
					}
					n++
					app := func(p *GP) *GP {
						for _, s := range subs {
							p = gpSubst(p, s.v, s.by)
						}
						return p
					}
					var good bool
					zn := app(z.num)
					if want.inf {
						good = zn.isZero() && z.norm || app(x.num).isZero() && app(y.num).isZero() && (loose || x.norm && y.norm)
					} else if zc, isC := gpStrip(zn).isConst(); isC && zc.Sign() != 0 {
						zd2 := gpMul(z.den, z.den)
						zn2 := gpMul(z.num, z.num)
						good = eqRat(subs, gpMul(x.num, zd2), gpMul(x.den, zn2), want.xn, want.xd) &&
							eqRat(subs, gpMul(y.num, gpMul(zd2, z.den)), gpMul(y.den, gpMul(zn2, z.num)), want.yn, want.yd)
					}
					if !c.ob(good, what+": the result represents the group sum", w, "when %s the result is (%s, %s, %s)", cubeStr(cube), x.num, y.num, z.num) {
						return
					}
					if !c.ob(x.mag <= 2 && y.mag <= 2 && z.mag <= 1, what+": the result has the magnitude the next operation allows", w, "when %s the magnitudes are %d, %d, %d", cubeStr(cube), x.mag, y.mag, z.mag) {
						return
					}
				}
			}
		}
	}
	c.ob(n > 0, what+": some case is reachable", w, "no reachable case")
}

func (c *Check) jacobianLaw() {
	add := c.btcMethod("KoblitzCurve", "addJacobian")
	dbl := c.btcMethod("KoblitzCurve", "doubleJacobian")
	for _, rc := range relCases() {
		for _, alias := range []string{"separate result", "result replaces the first operand"} {
			for _, infZ := range []int64{0, 1, 2} {
				rc, alias, infZ := rc, alias, infZ
				what := fmt.Sprintf("addJacobian of %s, %s", rc.name, alias)
				if infZ == 1 {
					what += ", identity as (0,0,1)"
				}
				if infZ == 2 {
					what += ", identity as (x,y,0)"
				}
				c.sub(what, func() {
					r := c.fieldRun()
					a, b, want := rc.mk()
					if infZ > 0 && !a.inf && !b.inf {
						return
					}
					p, _ := r.jacobian("1", a, infZ)
					q, _ := r.jacobian("2", b, infZ)
					out := p
					if alias == "separate result" {
						out = [3]Val{r.fieldObj("3", gfConst(zero, 1, true)), r.fieldObj("3", gfConst(zero, 1, true)), r.fieldObj("3", gfConst(zero, 1, true))}
					}
					r.call(add, r.I.s256(r.st), p[0], p[1], p[2], q[0], q[1], q[2], out[0], out[1], out[2])
					c.absorb(r.I)
					c.checkJacobian(r, what, c.where(add), out, want)
					if !b.inf {
						c.checkJacobian(r, what+": the second operand afterwards", c.where(add), q, b.rat())
					}
					if !a.inf && alias == "separate result" {
						c.checkJacobian(r, what+": the first operand afterwards", c.where(add), p, a.rat())
					}
					c.fieldDiscipline(r, what)
					c.noPanics(r, what)
					c.understood(r, what)
				})
			}
		}
	}
	for _, f1 := range []int64{0, 1, 3} {
		for _, f2 := range []int64{0, 1, 3} {
			f1, f2 := f1, f2
			what := fmt.Sprintf("addJacobian of the identity to itself, forms %d and %d", f1, f2)
			c.sub(what, func() {
				r := c.fieldRun()
				p, _ := r.jacobian("1", affine{inf: true}, f1)
				q, _ := r.jacobian("2", affine{inf: true}, f2)
				r.call(add, r.I.s256(r.st), p[0], p[1], p[2], q[0], q[1], q[2], p[0], p[1], p[2])
				c.absorb(r.I)
				c.checkJac(r, what, c.where(add), p, ratPt{inf: true}, true)
				c.fieldDiscipline(r, what)
				c.noPanics(r, what)
				c.understood(r, what)
			})
		}
	}
	for _, infZ := range []int64{-1, 0, 1, 2, 3} {
		for _, alias := range []bool{false, true} {
			infZ, alias := infZ, alias
			inf := infZ >= 0
			what := fmt.Sprintf("doubleJacobian (identity: %v, in place: %v)", inf, alias)
			c.sub(what, func() {
				r := c.fieldRun()
				a := affine{inf: true}
				want := ratPt{inf: true}
				if !inf {
					a = finitePt("1")
					want = tangent(a)
				}
				p, _ := r.jacobian("1", a, infZ)
				out := p
				if !alias {
					out = [3]Val{r.fieldObj("3", gfConst(zero, 1, true)), r.fieldObj("3", gfConst(zero, 1, true)), r.fieldObj("3", gfConst(zero, 1, true))}
				}
				r.call(dbl, r.I.s256(r.st), p[0], p[1], p[2], out[0], out[1], out[2])
				c.absorb(r.I)
				c.checkJac(r, what, c.where(dbl), out, want, infZ == 3)
				if !inf && !alias {
					c.checkJacobian(r, what+": the operand afterwards", c.where(dbl), p, a.rat())
				}
				c.fieldDiscipline(r, what)
				c.noPanics(r, what)
				c.understood(r, what)
			})
		}
	}
}

func init() {
	register(&checkDef{id: "C20", run: func(c *Check) {
		c.groupLaw()
		c.jacobianLaw()
	}})
}

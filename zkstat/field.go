package main

// Field arithmetic: the contracts used by the group-law check, established from
// the limb-level source of the field methods.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// A field value has magnitude m when limb i is at most m times limbCap(i).
func limbCap(i int) *big.Int {
	if i == 9 {
		return new(big.Int).Add(pow2(22), pow2(16))
	}
	return new(big.Int).Add(pow2(26), pow2(20))
}

func limbMax(i int) *big.Int { // largest limb of a normalised value
	if i == 9 {
		return new(big.Int).Sub(pow2(22), one)
	}
	return new(big.Int).Sub(pow2(26), one)
}

func (r *Run) limbs(name string, mag int, norm bool) (Val, []*Poly) {
	t := r.I.P.namedType("btcec", "fieldVal")
	a := &ArrV{}
	var ps []*Poly
	for i := 0; i < 10; i++ {
		hi := new(big.Int).Mul(limbCap(i), bi(int64(mag)))
		if norm {
			hi = limbMax(i)
		}
		p := Sym(fmt.Sprintf("%s.n[%d]≤%v", name, i, hi), zero, hi)
		ps = append(ps, p)
		a.e = append(a.e, p)
	}
	return ptrTo(r.I.newObj(r.st, t, &StructV{[]Val{a}}, "param:"+name, token.NoPos)), ps
}

func (r *Run) limbsOf(p Val) []*Poly {
	t := r.I.P.namedType("btcec", "fieldVal")
	v := r.I.load(r.st, p, t, token.NoPos)
	s, ok := v.(*StructV)
	if !ok || len(s.f) != 1 {
		return nil
	}
	a, ok := s.f[0].(*ArrV)
	if !ok || len(a.e) != 10 {
		return nil
	}
	var out []*Poly
	for _, e := range a.e {
		out = append(out, underPc(r.I.asPoly(r.st, e, types.Typ[types.Uint32]), r.st.pc))
	}
	return out
}

func limbValue(ps []*Poly) *Poly {
	r := C(0)
	for i, p := range ps {
		r = Add(r, Scale(p, pow2(26*i)))
	}
	return r
}

// expandLow writes low-order bits as differences again.
func expandLow(p *Poly) *Poly {
	for {
		var hit *Atom
		for _, t := range p.t {
			for _, f := range t.m {
				if a := atoms[f.a]; a.kind == "low" && (hit == nil || a.id > hit.id) {
					hit = a
				}
			}
		}
		if hit == nil {
			return p
		}
		p = substTop(p, hit.id, Sub(hit.args[0], Scale(DivP(hit.args[0], hit.m), hit.m)))
	}
}

// substTop replaces an atom in the monomials of p, not inside other atoms.
func substTop(p *Poly, id int32, by *Poly) *Poly {
	var keep []Term
	r := C(0)
	for _, t := range p.t {
		hit := -1
		for i, f := range t.m {
			if f.a == id {
				hit = i
			}
		}
		if hit < 0 {
			keep = append(keep, t)
			continue
		}
		q := by
		for e := int32(1); e < t.m[hit].e; e++ {
			q = Mul(q, by)
		}
		m := append(append([]fac{}, t.m[:hit]...), t.m[hit+1:]...)
		r = Add(r, Mul(q, mkPoly([]Term{{m, t.c}})))
	}
	return Add(mkPoly(keep), r)
}

// residue reduces the coefficients modulo P.
func residue(p *Poly) *Poly {
	var ts []Term
	for _, t := range p.t {
		c := new(big.Int).Mod(t.c, hexP)
		if c.Sign() != 0 {
			ts = append(ts, Term{t.m, c})
		}
	}
	return mkPoly(ts)
}

func congruent(a, b *Poly) (*Poly, bool) {
	d := residue(expandLow(Sub(a, b)))
	return d, d.isZero()
}

// fieldResult decides that the limbs hold want modulo P within the magnitude.
func (c *Check) fieldResult(r *Run, what string, fn *ssa.Function, out Val, want *Poly, mag int, norm bool) {
	w := c.where(fn)
	ls := r.limbsOf(out)
	if ls == nil {
		c.ob(false, what+": the result is computed", w, "the limbs of the result are not known")
		return
	}
	d, ok := congruent(limbValue(ls), want)
	c.ob(ok, what+": the limbs hold the exact result modulo P (no limb or carry overflows)", w, "difference %s", clip(d.String(), 600))
	for i, l := range ls {
		hi := new(big.Int).Mul(limbCap(i), bi(int64(mag)))
		if norm {
			hi = limbMax(i)
		}
		lo, h := l.interval()
		c.ob(lo != nil && h != nil && lo.Sign() >= 0 && h.Cmp(hi) <= 0, fmt.Sprintf("%s: the result has magnitude %d", what, mag), w, "limb %d ranges over [%v, %v], allowed up to %v", i, lo, h, hi)
	}
}

func (c *Check) limbRun() *Run {
	r := newRun(c.P, false)
	lowMode, maxDistribute = true, 12
	return r
}

func (c *Check) fieldOps() {
	m := func(name string) *ssa.Function { return c.btcMethod("fieldVal", name) }
	done := func(r *Run, what string, res Val, f Val) {
		c.absorb(r.I)
		c.noPanics(r, what)
		c.understood(r, what)
		if res != nil {
			c.ob(sameVal(res, f), what+": returns its receiver", what, "another value is returned")
		}
	}
	// multiplication: every aliasing of receiver and operands
	for _, al := range []string{"f=a*b", "f=f*b", "f=a*f", "f=f*f"} {
		al := al
		c.sub("Mul2 "+al, func() {
			r := c.limbRun()
			a, pa := r.limbs("a", 8, false)
			b, pb := r.limbs("b", 8, false)
			f, pf := r.limbs("f", 8, false)
			switch al[2] {
			case 'f':
				a, pa = f, pf
			}
			if al[4] == 'f' {
				b, pb = f, pf
			}
			res := r.call(m("Mul2"), f, a, b)
			c.fieldResult(r, "Mul2 ("+al+")", m("Mul2"), f, Mul(limbValue(pa), limbValue(pb)), 1, false)
			done(r, "Mul2", res, f)
			for i, q := range []Val{a, b} {
				if q.(*PtrV) != f.(*PtrV) {
					c.ob(samePolys(r.limbsOf(q), [][]*Poly{pa, pb}[i]), "Mul2: operands are unchanged", c.where(m("Mul2")), "an operand is modified")
				}
			}
		})
	}
	for _, al := range []bool{false, true} {
		al := al
		c.sub(fmt.Sprint("SquareVal in place=", al), func() {
			r := c.limbRun()
			a, pa := r.limbs("a", 8, false)
			f, _ := r.limbs("f", 8, false)
			if al {
				f = a
			}
			res := r.call(m("SquareVal"), f, a)
			c.fieldResult(r, "SquareVal", m("SquareVal"), f, Mul(limbValue(pa), limbValue(pa)), 1, false)
			done(r, "SquareVal", res, f)
		})
	}
	c.sub("Mul", func() {
		r := c.limbRun()
		f, pf := r.limbs("f", 8, false)
		a, pa := r.limbs("a", 8, false)
		res := r.call(m("Mul"), f, a)
		c.fieldResult(r, "Mul", m("Mul"), f, Mul(limbValue(pa), limbValue(pf)), 1, false)
		done(r, "Mul", res, f)
	})
	c.sub("Square", func() {
		r := c.limbRun()
		f, pf := r.limbs("f", 8, false)
		res := r.call(m("Square"), f)
		c.fieldResult(r, "Square", m("Square"), f, Mul(limbValue(pf), limbValue(pf)), 1, false)
		done(r, "Square", res, f)
	})
	for _, ms := range [][2]int{{1, 31}, {31, 1}, {16, 16}, {1, 1}, {8, 24}} {
		ms := ms
		c.sub(fmt.Sprint("Add ", ms), func() {
			r := c.limbRun()
			f, pf := r.limbs("f", ms[0], false)
			a, pa := r.limbs("a", ms[1], false)
			res := r.call(m("Add"), f, a)
			c.fieldResult(r, "Add", m("Add"), f, Add(limbValue(pa), limbValue(pf)), ms[0]+ms[1], false)
			done(r, "Add", res, f)
			g, _ := r.limbs("g", 1, false)
			f, pf = r.limbs("f2", ms[0], false)
			res = r.call(m("Add2"), g, f, a)
			c.fieldResult(r, "Add2", m("Add2"), g, Add(limbValue(pa), limbValue(pf)), ms[0]+ms[1], false)
			done(r, "Add2", res, g)
			res = r.call(m("Add2"), a, f, a)
			c.fieldResult(r, "Add2 in place", m("Add2"), a, Add(limbValue(pa), limbValue(pf)), ms[0]+ms[1], false)
		})
	}
	c.sub("Add to itself", func() {
		r := c.limbRun()
		f, pf := r.limbs("f", 16, false)
		r.call(m("Add"), f, f)
		c.fieldResult(r, "Add of a value to itself", m("Add"), f, Scale(limbValue(pf), bi(2)), 32, false)
	})
	c.sub("NegateVal", func() {
		for k := 1; k < maxMag; k++ {
			r := c.limbRun()
			f, _ := r.limbs("f", 1, false)
			a, pa := r.limbs("a", k, false)
			res := r.call(m("NegateVal"), f, a, C(int64(k)))
			c.fieldResult(r, fmt.Sprintf("NegateVal at magnitude %d", k), m("NegateVal"), f, Neg(limbValue(pa)), k+1, false)
			c.ob(samePolys(r.limbsOf(a), pa), "NegateVal: the operand is unchanged", c.where(m("NegateVal")), "the operand is modified")
			r.call(m("Negate"), a, C(int64(k)))
			c.fieldResult(r, fmt.Sprintf("Negate at magnitude %d", k), m("Negate"), a, Neg(limbValue(pa)), k+1, false)
			done(r, "NegateVal", res, f)
		}
	})
	c.sub("MulInt", func() {
		for k := 0; k <= maxMag; k++ {
			r := c.limbRun()
			mag := maxMag
			if k > 0 {
				mag = maxMag / k
			}
			f, pf := r.limbs("f", mag, false)
			res := r.call(m("MulInt"), f, C(int64(k)))
			c.fieldResult(r, fmt.Sprintf("MulInt by %d", k), m("MulInt"), f, Scale(limbValue(pf), bi(int64(k))), maxMag, false)
			done(r, "MulInt", res, f)
		}
	})
	c.sub("SetInt and AddInt", func() {
		r := c.limbRun()
		n := Sym("ui", zero, new(big.Int).Sub(pow2(26), one))
		f, pf := r.limbs("f", 31, false)
		res := r.call(m("AddInt"), f, n)
		c.fieldResult(r, "AddInt", m("AddInt"), f, Add(limbValue(pf), n), 32, false)
		done(r, "AddInt", res, f)
		res = r.call(m("SetInt"), f, n)
		c.fieldResult(r, "SetInt", m("SetInt"), f, n, 1, true)
		done(r, "SetInt", res, f)
		f, _ = r.limbs("f", 31, false)
		r.call(m("Zero"), f)
		c.fieldResult(r, "Zero", m("Zero"), f, C(0), 1, true)
		g, pg := r.limbs("g", 31, false)
		res = r.call(m("Set"), f, g)
		c.ob(samePolys(r.limbsOf(f), pg), "Set copies every limb", c.where(m("Set")), "limbs differ")
		done(r, "Set", res, f)
	})
	bt := types.NewArray(types.Typ[types.Uint8], 32)
	c.sub("SetBytes", func() {
		r := c.limbRun()
		f, _ := r.limbs("f", 31, false)
		v, bs := symBytes(32)
		b := ptrTo(r.I.newObj(r.st, bt, mkSeqV(fromBytes(bs)), "param:b", token.NoPos))
		res := r.call(m("SetBytes"), f, b)
		c.fieldResult(r, "SetBytes", m("SetBytes"), f, v, 1, true)
		done(r, "SetBytes", res, f)
	})
	c.sub("SetByteSlice", func() {
		for n := 0; n <= 32; n++ {
			r := c.limbRun()
			f, _ := r.limbs("f", 31, false)
			v, bs := symBytes(n)
			res := r.call(m("SetByteSlice"), f, r.I.newBytes(r.st, mkSeqV(fromBytes(bs)), token.NoPos))
			c.fieldResult(r, fmt.Sprintf("SetByteSlice of %d bytes", n), m("SetByteSlice"), f, v, 1, true)
			done(r, "SetByteSlice", res, f)
		}
	})
	c.sub("PutBytes", func() {
		r := c.limbRun()
		f, pf := r.limbs("f", 1, true)
		b := ptrTo(r.I.newObj(r.st, bt, r.I.zero(r.st, bt), "param:b", token.NoPos))
		r.call(m("PutBytes"), f, b)
		check := func(p Val, what string) {
			s, ok := r.I.load(r.st, p, bt, token.NoPos).(*SeqV)
			if !ok {
				c.ob(false, what, what, "bytes not known")
				return
			}
			v := C(0)
			for i := 0; i < 32; i++ {
				x := s.liftP(r.st.pc, func(q *Seq) *Poly { return byteAt(q, C(int64(i))) })
				c.ob(within(x, zero, bi(255)), what+": bytes", what, "byte %d out of range", i)
				v = Add(Scale(v, bi(256)), x)
			}
			d := expandLow(Sub(v, limbValue(pf)))
			c.ob(d.isZero(), what+": the 32 bytes are the big-endian value", c.where(m("PutBytes")), "difference %s", clip(d.String(), 600))
		}
		check(b, "PutBytes")
		check(r.call(m("Bytes"), f), "Bytes")
		done(r, "PutBytes", nil, f)
	})
	c.sub("comparisons", func() {
		r := c.limbRun()
		f, pf := r.limbs("f", 1, true)
		g, pg := r.limbs("g", 1, true)
		z, e := True, True
		for i := range pf {
			z = And(z, EqP(pf[i], C(0)))
			e = And(e, EqP(pf[i], pg[i]))
		}
		iz := r.call(m("IsZero"), f).(Bdd)
		c.ob(iz == z, "IsZero holds exactly for ten zero limbs", c.where(m("IsZero")), "it returns %s", condStr(iz))
		eq := r.call(m("Equals"), f, g).(Bdd)
		c.ob(eq == e, "Equals holds exactly for equal limbs", c.where(m("Equals")), "it returns %s", condStr(eq))
		odd := r.call(m("IsOdd"), f).(Bdd)
		c.ob(odd == EqP(LowP(limbValue(pf), 1), C(1)), "IsOdd is the lowest bit", c.where(m("IsOdd")), "it returns %s", condStr(odd))
		done(r, "comparisons", nil, f)
	})
	c.sub("Normalize", func() {
		for _, mag := range []int{1, 2, 8, maxMag} {
			r := c.limbRun()
			f, pf := r.limbs("f", mag, false)
			res := r.call(m("Normalize"), f)
			c.normalized(r, fmt.Sprintf("Normalize at magnitude %d", mag), m("Normalize"), f, limbValue(pf))
			done(r, "Normalize", res, f)
		}
	})
	c.sub("Inverse", func() {
		r := c.fieldRun()
		delete(r.I.sum, fv+"Inverse")
		g := gfVal(gpV(gfNewVar("a", nil)), 8, false)
		g.alts[0].exp = bi(1)
		f := r.fieldObj("f", g)
		res := r.call(m("Inverse"), f)
		out := r.I.gfGet(r.st, f, token.NoPos)
		want := new(big.Int).Sub(hexP, bi(2))
		ok := len(out.alts) == 1 && out.alts[0].exp != nil && out.alts[0].exp.Cmp(want) == 0
		d := ""
		if !ok && len(out.alts) == 1 && out.alts[0].exp != nil {
			d = out.alts[0].exp.Text(16)
		}
		c.ob(ok, "Inverse raises its argument to the power P-2", c.where(m("Inverse")), "the exponent is %s", d)
		c.fieldDiscipline(r, "Inverse")
		done(r, "Inverse", res, f)
	})
}

func samePolys(a, b []*Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func symBytes(n int) (*Poly, []*Poly) {
	v := C(0)
	var bs []*Poly
	for i := 0; i < n; i++ {
		b := Sym(fmt.Sprintf("b[%d]", i), zero, bi(255))
		bs = append(bs, b)
		v = Add(Scale(v, bi(256)), b)
	}
	return v, bs
}

func init() {
	register(&checkDef{id: "C21", run: func(c *Check) {
		c.fieldOps()
	}})
}

// normalized decides that the limbs are the canonical representation of want modulo P.
func (c *Check) normalized(r *Run, what string, fn *ssa.Function, out Val, want *Poly) {
	w := c.where(fn)
	ls := r.limbsOf(out)
	if ls == nil {
		c.ob(false, what+": the result is computed", w, "the limbs of the result are not known")
		return
	}
	n := 0
	ok := linSplit(r.st.pc, ls, 400, func(cube map[int32]bool, vals []*Poly) {
		e, _ := linFactsOf(cube)
		if e.infeasible() {
			return
		}
		n++
		fails := e.canonical(vals, want, 1)
		seen := map[string]bool{}
		for _, f := range fails {
			seen[f[0]] = true
			c.ob(false, what+": "+f[0], w, "when %s: %s", clip(cubeStr(cube), 500), f[1])
		}
		for _, rule := range canonRules {
			if !seen[rule] {
				c.ob(true, what+": "+rule, w, "")
			}
		}
	})
	c.ob(ok && n > 0, what+": the cases are enumerated", w, "too many cases")
}

func hexOf(n *big.Int) string {
	if n == nil {
		return "infinity"
	}
	return n.Text(16)
}

var canonRules = []string{"the value is unchanged modulo P", "every limb is reduced to its base", "the value is below P"}

// canonical lists what fails of the limbs being want modulo P in canonical form;
// depth is the number of two-valued quotients that may be split upon.
func (e *linEnv) canonical(vals []*Poly, want *Poly, depth int) (fails [][2]string) {
	if e.infeasible() {
		return nil
	}
	raw := vals
	vals = append([]*Poly{}, vals...)
	for i, l := range vals {
		vals[i] = e.simplify(l)
	}
	v := limbValue(vals)
	if d, ok := e.zeroModP(Sub(v, want)); !ok {
		if _, ok = e.zeroModP(Sub(limbValue(raw), want)); !ok {
			fails = append(fails, [2]string{canonRules[0], "difference " + clip(d.String(), 400)})
		}
	}
	for i, l := range vals {
		if lo, hi := e.iv(l, 2); lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(limbMax(i)) > 0 {
			fails = append(fails, [2]string{canonRules[1], fmt.Sprintf("limb %d ranges over [%v, %v]", i, lo, hi)})
			break
		}
	}
	if _, hi := e.iv(v, 3); hi == nil || hi.Cmp(hexP) >= 0 {
		fails = append(fails, [2]string{canonRules[2], "the value may reach " + hexOf(hi)})
	}
	if len(fails) == 0 || depth == 0 {
		return
	}
	for _, a := range atomIds(vals...) {
		lo, hi := e.atomIv(a)
		if a.kind != "div" || lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(one) != 0 {
			continue
		}
		if len(e.with(linFact{A(a), lo, lo}).canonical(raw, want, depth-1)) == 0 && len(e.with(linFact{A(a), hi, hi}).canonical(raw, want, depth-1)) == 0 {
			return nil
		}
	}
	return
}

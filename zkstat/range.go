package main

import (
	"fmt"
	"go/types"
	"strings"
)

// tuple type of RangeProof.ProofTuples: field indices of the commitment and the response
func (c *Check) rangeFields() (agg, e, tup, tc, ts int, elem *types.Struct) {
	t := c.P.namedType("", "RangeProof").Underlying().(*types.Struct)
	agg, e, tup = fieldIndex(t, "ProofAggregate", 0), fieldIndex(t, "ProofE", 1), fieldIndex(t, "ProofTuples", 2)
	elem = t.Field(tup).Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	tc, ts = -1, -1
	for i := 0; i < elem.NumFields(); i++ {
		ft := elem.Field(i).Type()
		if namedKey(ft) == repoPrefix+".ECPoint" && tc < 0 {
			tc = i
		} else if namedKey(deref(ft)) == "math/big.Int" && ts < 0 {
			ts = i
		}
	}
	if tc < 0 || ts < 0 {
		panic("range tuple shape not recognised")
	}
	return
}

func (c *Check) rangeSym(n *Poly, lifo bool) (*Run, Bdd, Bdd) {
	r := newRun(c.P, true)
	r.I.lifo = lifo
	z := r.params()
	o := &symOpts{origin: "param:proof", sliceLen: func(path string, t types.Type) *Poly {
		if strings.HasSuffix(path, "ProofTuples") {
			return n
		}
		return nil
	}}
	p := r.havocProof("RangeProof", o)
	v := r.call(c.verifyFn("RangeProof"), p, z, r.point("comm", PtSym("comm")))
	c.absorb(r.I)
	acc, en := verdict(v)
	return r, And(acc, r.st.pc), And(en, r.st.pc)
}

func (c *Check) rangeSound(n int, lifo bool) {
	c.sub(fmt.Sprintf("RangeProof.Verify n=%d", n), func() {
		fn := c.verifyFn("RangeProof")
		w := c.where(fn)
		r, acc, _ := c.rangeSym(C(int64(n)), lifo)
		nm := fmt.Sprintf("RangeProof with %d entries", n)
		c.noPanics(r, nm)
		if !c.ob(feasible(acc), nm+": some proof is accepted", w, "nothing is accepted") {
			return
		}
		t := c.P.namedType("", "RangeProof").Underlying().(*types.Struct)
		ia, ie, it, tc, ts, elem := c.rangeFields()
		pre := "proof."
		e0 := Sym(pre+t.Field(ie).Name(), nil, nil)
		agg := PtSym(pre + t.Field(ia).Name())
		cs, ok := cubesOf(acc, 2000)
		if !ok {
			c.ob(false, nm, w, "too many cases")
			return
		}
		for _, cu := range cs {
			f := factsOf(cu, preferProof)
			sum := PtZero()
			segs := []*Seq{}
			for i := 0; i < n; i++ {
				b := fmt.Sprintf("%s%s[%d].", pre, t.Field(it).Name(), i)
				ci := PtSym(b + elem.Field(tc).Name())
				si := Sym(b+elem.Field(ts).Name(), nil, nil)
				sum = PtAdd(sum, ci)
				in := lc(si, H(), Neg(e0), ci, Mul(e0, CB(pow2(i))), G())
				ei := intOf(seqHash("sha256", ptBytes(in), 32))
				segs = append(segs, ptBytes(PtMul(ei, ci)))
			}
			h := intOf(seqHash("sha256", seqCat(segs...), 32))
			// e0 = H(R_0‖…) as an integer reduced mod N: the equation must be among the integer facts
			want := Sub(e0, ModP(h, hexN))
			found := false
			for _, e := range f.eqs {
				if e == want || e == Neg(want) {
					found = true
				}
			}
			if !c.ob(found, nm+": acceptance implies e0 = H(R_0‖…‖R_{n-1}) mod N with R_i = H(s_i·H − e0·(C_i − 2^i·G))·C_i", w, "accepted without the ring equation, e.g. %s", f) {
				return
			}
			g := &Facts{pts: f.pts}
			if !c.ob(g.entailsPt(PtSub(sum, PtSym("comm"))), nm+": acceptance implies ΣC_i = commitment", w, "accepted without it, e.g. %s", f) {
				return
			}
			if !c.ob(g.entailsPt(PtSub(sum, agg)), nm+": acceptance implies ΣC_i = aggregate in the proof", w, "accepted without it, e.g. %s", f) {
				return
			}
		}
	})
}

func ptBytes(p *Pt) *Seq { return seqCat(seqPad(XofP(p), 32), seqPad(YofP(p), 32)) }

func (c *Check) rangeTooLong() {
	c.sub("RangeProof.Verify n>64", func() {
		w := c.where(c.verifyFn("RangeProof"))
		r := newRun(c.P, true)
		z := r.params()
		n := Sym("n", bi(65), bi(1<<40))
		o := &symOpts{origin: "param:proof", sliceLen: func(path string, t types.Type) *Poly {
			if strings.HasSuffix(path, "ProofTuples") {
				return n
			}
			return nil
		}}
		p := r.havocProof("RangeProof", o)
		v := r.call(c.verifyFn("RangeProof"), p, z, r.point("comm", PtSym("comm")))
		c.absorb(r.I)
		acc, _ := verdict(v)
		c.ob(!feasible(And(acc, r.st.pc)), "a range proof with more entries than there are powers of two is rejected", w, "accepted under %s", condStr(acc))
		c.noPanics(r, "over-long range proof")
	})
}

// rangeHonest: every value in [0, 2^40) yields an accepted proof whose total blinding opens the commitment.
func (c *Check) rangeHonest(lifo bool) {
	c.sub("NewRangeProof", func() {
		r := newRun(c.P, true)
		r.I.noRandErr = true
		r.I.lifo = lifo
		z := r.params()
		val := C(0)
		for i := 0; i < 40; i++ {
			val = Add(val, Scale(Ind(symCond(fmt.Sprintf("bit%d", i))), pow2(i)))
		}
		fn := c.fnOf("NewRangeProof")
		w := c.where(fn)
		v := r.call(fn, z, r.scalar("value", val)).(*TupleV)
		c.absorb(r.I)
		en := nilCond(v.v[2])
		c.ob(implies(True, And(r.st.pc, en)), "NewRangeProof succeeds for every value in [0, 2^40)", w, "fails under %s", condStr(Not(And(r.st.pc, en))))
		c.noPanics(r, "NewRangeProof")
		bl := r.I.bigAt(r.st, v.v[1], fn.Pos())
		comm := lc(val, G(), bl, H())
		v2 := r.call(c.verifyFn("RangeProof"), v.v[0], z, r.point("comm", comm))
		acc, en2 := verdict(v2)
		c.ob(implies(True, And(r.st.pc, And(acc, en2))), "the proof verifies against value·G + blinding·H", c.where(c.verifyFn("RangeProof")), "rejected under %s", condStr(Not(And(acc, en2))))
		c.noPanics(r, "NewRangeProof then Verify")
	})
}

func (c *Check) rangeRefuse() {
	c.sub("NewRangeProof out of range", func() {
		for _, cs := range []struct {
			name   string
			lo, hi bigPtr
		}{{"value ≥ 2^40", pow2(40), nil}, {"value < 0", nil, bi(-1)}} {
			r := newRun(c.P, true)
			r.I.noRandErr = true
			z := r.params()
			fn := c.fnOf("NewRangeProof")
			v := r.call(fn, z, r.scalar("value", Sym("value:"+cs.name, cs.lo, cs.hi))).(*TupleV)
			c.absorb(r.I)
			ok := And(r.st.pc, nilCond(v.v[2]))
			c.ob(!feasibleDeep(ok), "NewRangeProof refuses "+cs.name, c.where(fn), "a proof is returned under %s", condStr(ok))
			c.noPanics(r, "NewRangeProof "+cs.name)
		}
	})
}

func init() {
	register(&checkDef{id: "C03", run: func(c *Check) {
		ns := []int{0, 1, 2, 3, 40, 64}
		if c.tier == "thorough" {
			ns = nil
			for n := 0; n <= 64; n++ {
				ns = append(ns, n)
			}
		}
		for _, n := range ns {
			c.rangeSound(n, false)
			if n == 3 || c.tier == "thorough" {
				c.rangeSound(n, true)
			}
		}
		c.rangeTooLong()
		c.premises()
	}})
	register(&checkDef{id: "C05", run: func(c *Check) {
		c.rangeHonest(false)
		c.rangeHonest(true)
		c.rangeRefuse()
		c.premises()
	}})
}

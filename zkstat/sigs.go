package main

// C26: encoding of signatures.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

var hexHalf = new(big.Int).Rsh(hexN, 1)

// topBit is an arbitrary number of n bytes whose first bit is set (or not), at most max; nil when there is none.
func topBit(name string, n int, set bool, max *big.Int) *Poly {
	lo, hi := new(big.Int).Lsh(one, uint(8*n-8)), new(big.Int).Sub(new(big.Int).Lsh(one, uint(8*n-1)), one)
	if set {
		lo = new(big.Int).Lsh(one, uint(8*n-1))
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(8*n)), one)
	}
	if hi.Cmp(max) > 0 {
		hi = max
	}
	if lo.Cmp(hi) > 0 {
		return nil
	}
	return Sym(name, lo, hi)
}

func derLen(n int, set bool) int {
	if set {
		return n + 1
	}
	return n
}

func (r *Run) sigVal(R, S *Poly) Val {
	t := r.I.P.namedType("btcec", "Signature")
	v := r.I.zero(r.st, t).(*StructV)
	u := t.Underlying().(*types.Struct)
	v.f[fieldIndex(u, "R", -1)] = ptrTo(r.I.newObj(r.st, r.I.bigT(), &BigV{R}, "param:sig", token.NoPos))
	v.f[fieldIndex(u, "S", -1)] = ptrTo(r.I.newObj(r.st, r.I.bigT(), &BigV{S}, "param:sig", token.NoPos))
	return ptrTo(r.I.newObj(r.st, t, v, "param:sig", token.NoPos))
}

// sigOf reads a signature under pc.
func (r *Run) sigOf(pc Bdd, v Val) (R, S *Poly, why string) {
	p, ok := v.(*PtrV)
	if !ok || feasible(And(pc, nilCond(p))) {
		return nil, nil, "no signature is returned"
	}
	st := *r.st
	st.pc = pc
	t := r.I.P.namedType("btcec", "Signature")
	s, ok := r.I.load(&st, p, t, token.NoPos).(*StructV)
	if !ok {
		return nil, nil, "the signature is not a structure"
	}
	for _, n := range []string{"R", "S"} {
		q, ok := s.f[fieldIndex(t.Underlying().(*types.Struct), n, -1)].(*PtrV)
		if !ok || feasible(And(pc, nilCond(q))) {
			return nil, nil, n + " is nil"
		}
	}
	R = r.I.bigAt(&st, s.f[fieldIndex(t.Underlying().(*types.Struct), "R", -1)], token.NoPos)
	S = r.I.bigAt(&st, s.f[fieldIndex(t.Underlying().(*types.Struct), "S", -1)], token.NoPos)
	return underCond(R, pc), underCond(S, pc), ""
}

// sigCase: an encoding of numbers of these lengths and top bits; high: S is above half the order and written as N-S.
type sigCase struct {
	nr, ns int
	tr, ts bool
	high   bool
}

func (c *Check) sigRoundTrip(k sigCase) {
	what := fmt.Sprintf("Serialize and parse, R of %d bytes (top bit %v), S of %d bytes (top bit %v)", k.nr, k.tr, k.ns, k.ts)
	if k.high {
		what = fmt.Sprintf("Serialize and parse, R of %d bytes (top bit %v), N-S of %d bytes (top bit %v)", k.nr, k.tr, k.ns, k.ts)
	}
	nm := new(big.Int).Sub(hexN, one)
	if topBit("R", k.nr, k.tr, nm) == nil || topBit("t", k.ns, k.ts, hexHalf) == nil {
		return
	}
	c.sub(what, func() {
		r := c.keyRun()
		I, st := r.I, r.st
		R, t := topBit("R", k.nr, k.tr, nm), topBit("S", k.ns, k.ts, hexHalf)
		S := t
		if k.high {
			S = Sub(CB(hexN), t)
		}
		fn := c.btcMethod("Signature", "Serialize")
		w := c.where(fn)
		sg := r.sigVal(R, S)
		v := r.call(fn, sg)
		lr, ls := derLen(k.nr, k.tr), derLen(k.ns, k.ts)
		n := func(k, v int) num { return num{k, C(int64(v))} }
		same, why := layout(st.pc, I.bytesOf(st, v, token.NoPos), n(1, 0x30), n(1, 4+lr+ls), n(1, 2), n(1, lr), num{lr, R}, n(1, 2), n(1, ls), num{ls, t})
		c.ob(same, what+": the encoding is DER with low S", w, "%s", why)
		r2, s2, why := r.sigOf(st.pc, sg)
		c.ob(r2 != nil && sameUnder(st.pc, r2, R) && sameUnder(st.pc, s2, S), what+": the signature is left as it was", w, "%s (%s, %s)", why, r2, s2)
		c.noPanics(r, what)
		b := func(v int) *Seq { return seqByte(C(int64(v))) }
		want := seqCat(b(0x30), b(4+lr+ls), b(2), b(lr), seqPad(R, lr), b(2), b(ls), seqPad(t, ls))
		for _, pn := range []string{"ParseDERSignature", "ParseSignature"} {
			pf := c.btcFn(pn)
			w := c.where(pf)
			res := r.call(pf, I.newBytes(st, mkSeqV(want), token.NoPos), r.curveIface()).(*TupleV)
			bad := And(st.pc, Not(nilCond(res.v[1])))
			if !c.ob(!feasible(bad), what+": "+pn+" accepts it", w, "refused when %s", condStr(bad)) {
				continue
			}
			pr, ps, why := r.sigOf(st.pc, res.v[0])
			if c.ob(pr != nil, what+": "+pn+" returns a signature", w, "%s", why) {
				c.ob(sameUnder(st.pc, pr, R) && sameUnder(st.pc, ps, t), what+": "+pn+" reads the same signature", w, "(%s, %s)", pr, ps)
			}
		}
		c.absorb(I)
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func (c *Check) sigArbitrary(name string, der bool, n int) {
	what := fmt.Sprintf("%s of %s bytes", name, lenName(n))
	c.sub(what, func() {
		r := c.keyRun()
		I, st := r.I, r.st
		fn := c.btcFn(name)
		w := c.where(fn)
		ln := C(int64(n))
		if n < 0 {
			ln = Sym("length", bi(8), bi(maxLen))
		}
		s := seqSym("sig", C(0), ln)
		o := I.newObj(st, nil2bytes, mkSeqV(s), "param:sigStr", token.NoPos)
		arg := &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: ln, cap: ln}}}
		res := r.call(fn, arg, r.curveIface()).(*TupleV)
		c.absorb(I)
		ok := And(st.pc, nilCond(res.v[1]))
		none := And(st.pc, nilCond(res.v[0]))
		c.ob(!feasible(Xor(ok, And(st.pc, Not(none)))), what+": a signature is returned exactly when there is no error", w, "nil error %s, no signature %s", condStr(ok), condStr(none))
		c.noPanics(r, what)
		c.understood(r, what)
		if n >= 0 && n < 8 {
			c.ob(!feasible(ok), what+": refused", w, "accepted when %s", condStr(ok))
			return
		}
		at := func(i *Poly) *Poly { return byteAt(s, i) }
		l, rl := at(C(1)), at(C(3))
		sl := at(Add(C(5), rl))
		rb, sb := seqSym("sig", C(4), rl), seqSym("sig", Add(C(6), rl), sl)
		R, S := intOf(rb), intOf(sb)
		type fact struct {
			name string
			c    Bdd
		}
		facts := []fact{
			{"the first byte is 0x30", EqP(at(C(0)), C(0x30))},
			{"the length byte is within the input", LeqP(Add(l, C(2)), ln)},
			{"R has an integer marker", EqP(at(C(2)), C(2))},
			{"R is not empty", LeqP(C(1), rl)},
			{"S has an integer marker", EqP(at(Add(C(4), rl)), C(2))},
			{"S is not empty", LeqP(C(1), sl)},
			{"R and S fill the announced length", EqP(Add(Add(rl, sl), C(4)), l)},
			{"1 <= R", LeqP(C(1), R)},
			{"R < N", LtP(R, CB(hexN))},
			{"1 <= S", LeqP(C(1), S)},
			{"S < N", LtP(S, CB(hexN))},
		}
		if der {
			for _, q := range []struct {
				n   string
				off *Poly
				l   *Poly
			}{{"R", C(4), rl}, {"S", Add(C(6), rl), sl}} {
				f, g := at(q.off), at(Add(q.off, C(1)))
				facts = append(facts, fact{q.n + " is not negative", LtP(f, C(128))},
					fact{q.n + " is not padded", Not(And(LeqP(C(2), q.l), And(EqP(f, C(0)), LtP(g, C(128)))))})
			}
		}
		all := True
		for _, f := range facts {
			bad := AndNot(ok, f.c)
			c.ob(!feasibleDeep(bad), what+": accepted only when "+f.name, w, "accepted when %s", condStr(bad))
			all = And(all, f.c)
		}
		bad := AndNot(And(st.pc, all), ok)
		c.ob(!feasibleDeep(bad), what+": everything well-formed is accepted", w, "refused when %s", condStr(bad))
		pr, ps, why := r.sigOf(ok, res.v[0])
		if c.ob(pr != nil, what+": a signature is returned", w, "%s", why) {
			c.ob(sameUnder(ok, pr, R) && sameUnder(ok, ps, S), what+": R and S are the encoded numbers", w, "(%s, %s)", pr, ps)
		}
	})
}

func (c *Check) sigEqual() {
	what := "Signature.IsEqual"
	c.sub(what, func() {
		r := c.keyRun()
		v := func(n string) *Poly { return Sym(n, nil, nil) }
		r1, s1, r2, s2 := v("r1"), v("s1"), v("r2"), v("s2")
		fn := c.btcMethod("Signature", "IsEqual")
		b, _ := r.call(fn, r.sigVal(r1, s1), r.sigVal(r2, s2)).(Bdd)
		c.absorb(r.I)
		want := And(EqP(r1, r2), EqP(s1, s2))
		c.ob(!feasible(And(r.st.pc, Xor(b, want))), what+": true exactly when both numbers agree", c.where(fn), "is %s", condStr(b))
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func init() {
	register(&checkDef{id: "C26", run: func(c *Check) {
		c.sigEqual()
		for _, p := range []string{"ParseSignature", "ParseDERSignature"} {
			for n := 0; n < 8; n++ {
				c.sigArbitrary(p, p == "ParseDERSignature", n)
			}
			c.sigArbitrary(p, p == "ParseDERSignature", -1)
		}
		seen := map[sigCase]bool{}
		do := func(k sigCase) {
			if !seen[k] {
				seen[k] = true
				c.sigRoundTrip(k)
			}
		}
		bs := []bool{false, true}
		for i := 1; i <= 32; i++ {
			for j := 1; j <= 32; j++ {
				if c.tier != "thorough" && i != j && i != 32 && j != 32 && j != 1 {
					continue
				}
				for _, tr := range bs {
					for _, ts := range bs {
						do(sigCase{i, j, tr, ts, false})
						do(sigCase{i, j, tr, ts, true})
					}
				}
			}
		}
	}})
}

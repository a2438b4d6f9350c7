package main

// C28: compact signatures and key recovery.

import (
	"fmt"
	"go/token"
	"math/big"
)

// recover calls RecoverCompact.
func (c *Check) recover(r *Run, s *Seq, h Val) *TupleV {
	st := r.st
	l := s.length()
	o := r.I.newObj(st, nil2bytes, mkSeqV(s), "param:signature", token.NoPos)
	arg := &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: l, cap: l}}}
	return r.call(c.btcFn("RecoverCompact"), r.I.s256(st), arg, h).(*TupleV)
}

func (c *Check) recoverForm(r *Run, what, w string, res *TupleV) (ok Bdd) {
	ok = And(r.st.pc, nilCond(res.v[2]))
	none := And(r.st.pc, nilCond(res.v[0]))
	c.ob(!feasible(Xor(ok, And(r.st.pc, Not(none)))), what+": a key is returned exactly when there is no error", w, "nil error %s, no key %s", condStr(ok), condStr(none))
	c.noPanics(r, what)
	c.understood(r, what)
	return ok
}

func (c *Check) recoverWrongLength() {
	what := "RecoverCompact of a number of bytes other than 65"
	c.sub(what, func() {
		w := c.where(c.btcFn("RecoverCompact"))
		for _, n := range []int{0, 1, 64, 66, -1} {
			resetEngine()
			r := c.keyRun()
			l := C(int64(n))
			if n < 0 {
				l = Sym("length", zero, bi(maxLen))
				r.st.pc = Not(EqP(l, C(65)))
			}
			_, h := r.hashArg(32)
			res := c.recover(r, seqSym("sig", C(0), l), h)
			c.absorb(r.I)
			ok := c.recoverForm(r, what, w, res)
			c.ob(!feasible(ok), what+": refused", w, "accepted when %s", condStr(ok))
		}
	})
}

// recoverAny: arbitrary contents after a given header.
func (c *Check) recoverAny(hdr int) {
	what := fmt.Sprintf("RecoverCompact of arbitrary bytes after header %d", hdr)
	c.sub(what, func() {
		w := c.where(c.btcFn("RecoverCompact"))
		r := c.keyRun()
		_, h := r.hashArg(32)
		s := seqCat(seqByte(C(int64(hdr))), seqSym("sig", C(0), C(64)))
		res := c.recover(r, s, h)
		c.absorb(r.I)
		ok := c.recoverForm(r, what, w, res)
		if hdr < 27 || hdr > 34 {
			c.ob(!feasible(ok), what+": refused", w, "accepted when %s", condStr(ok))
			return
		}
		x := intOf(subSeq(s, C(1), C(32)))
		if (hdr-27)&2 != 0 {
			x = Add(x, CB(hexN))
		}
		zero := EqP(ModP(intOf(subSeq(s, C(1), C(32))), hexN), C(0))
		c.ob(!feasibleDeep(And(ok, zero)), what+": R is not 0 modulo the order", w, "accepted when %s", condStr(And(ok, zero)))
		c.ob(!feasibleDeep(AndNot(ok, LtP(x, CB(hexP)))), what+": the x coordinate of the nonce's point is below P", w, "accepted when %s", condStr(AndNot(ok, LtP(x, CB(hexP)))))
	})
}

func (c *Check) recoverPoint(hdr, hash int) {
	what := fmt.Sprintf("RecoverCompact, header %d, hash of %s bytes", hdr, hashName(hash))
	c.sub(what, func() {
		w := c.where(c.btcFn("RecoverCompact"))
		r, _, _, k, R := c.noncePoint(hdr-27, 0, new(big.Int).Sub(hexP, one))
		r.st.pc = And(r.st.pc, Not(EqP(R, CB(hexN))))
		S := Sym("S", zero, new(big.Int).Sub(new(big.Int).Lsh(one, 256), one))
		hs, h := r.hashArg(hash)
		e := C(0)
		if hash != 0 {
			e = leftmost(hs, hash)
		}
		res := c.recover(r, seqCat(seqByte(C(int64(hdr))), seqPad(R, 32), seqPad(S, 32)), h)
		c.absorb(r.I)
		ok := c.recoverForm(r, what, w, res)
		inv := InvP(R, hexN)
		q := PtAdd(PtMul(Mul(inv, S), k), PtMul(Neg(Mul(inv, e)), PtSym("G")))
		none := PEq(q)
		c.ob(!feasible(Xor(ok, And(r.st.pc, Not(none)))), what+": fails exactly when the key would be the identity", w, "succeeds when %s, key is the identity when %s", condStr(ok), condStr(none))
		c.ob(feasible(ok), what+": a key can be recovered", w, "always fails")
		px, py, cv, why := r.coordsOf(ok, res.v[0], "PublicKey")
		if c.ob(px != nil, what+": a key is returned", w, "%s", why) {
			c.ob(sameUnder(ok, px, XofP(q)) && sameUnder(ok, py, YofP(q)), what+": the key is (S·K - hash·G)/R", w, "it is (%s, %s) instead of %s", px, py, q)
			c.ob(r.isCurve(ok, cv), what+": the key has its curve", w, "Curve is another value")
		}
		b, _ := res.v[1].(Bdd)
		want := False
		if hdr >= 31 {
			want = True
		}
		c.ob(!feasible(And(ok, Xor(b, want))), what+": compressed exactly for headers 31 to 34", w, "compressed when %s", condStr(b))
	})
}

// noncePoint sets up a point K with coordinates (x, y) for iteration it: x = R + (it/2)·N, parity it%2.
func (c *Check) noncePoint(it, rlen int, max *big.Int) (r *Run, x, y *Poly, k *Pt, R *Poly) {
	it &= 3
	r = c.keyRun()
	if it&2 == 0 {
		R = ofLen("R", rlen, max)
		x = R
	} else {
		R = ofLen("R", rlen, new(big.Int).Sub(new(big.Int).Sub(hexP, hexN), one))
		x = Add(R, CB(hexN))
	}
	y = Sym("y", one, new(big.Int).Sub(hexP, one))
	if squareRel == nil {
		squareRel = map[int32]*Poly{}
	}
	squareRel[y.isAtom().id] = Add(Mul(Mul(x, x), x), C(7))
	knownPts = append(knownPts, [2]*Poly{x, y})
	odd := oddOf(y)
	if it&1 == 0 {
		odd = Not(odd)
	}
	k = PtFromXY(x, y)
	r.st.pc = And(And(r.st.pc, odd), Not(PEq(k)))
	return r, x, y, k, R
}

func (c *Check) recoverNoPoint(hdr int) {
	what := fmt.Sprintf("RecoverCompact, header %d, no point has the x coordinate", hdr)
	c.sub(what, func() {
		w := c.where(c.btcFn("RecoverCompact"))
		r := c.keyRun()
		R := Sym("R", one, new(big.Int).Sub(new(big.Int).Sub(hexP, hexN), one))
		x := R
		if (hdr-27)&2 != 0 {
			x = Add(R, CB(hexN))
		} else {
			R = Sym("R", one, new(big.Int).Sub(hexP, one))
			x = R
		}
		r.aNonPoint(x)
		_, h := r.hashArg(32)
		res := c.recover(r, seqCat(seqByte(C(int64(hdr))), seqPad(R, 32), seqSym("S", C(0), C(32))), h)
		c.absorb(r.I)
		ok := c.recoverForm(r, what, w, res)
		c.ob(!feasible(ok), what+": refused", w, "accepted when %s", condStr(ok))
	})
}

// signCompact: the signature (R, S) recovers to the signer's key at iteration it only.
func (c *Check) signCompact(it, rlen, slen int, compressed, other bool) {
	what := fmt.Sprintf("SignCompact, solution %d, compressed %v, R of %d bytes, S of %d bytes", it, compressed, rlen, slen)
	if it >= 2 && rlen > 17 {
		return
	}
	if other {
		what += ", a point with x coordinate R"
	}
	c.sub(what, func() {
		fn := c.btcFn("SignCompact")
		w := c.where(fn)
		r, _, _, k, R := c.noncePoint(it, rlen, new(big.Int).Sub(hexN, one))
		I, st := r.I, r.st
		S := ofLen("S", slen, hexHalf)
		hs, h := r.hashArg(32)
		e := leftmost(hs, 32)
		inv := InvP(R, hexN)
		q := PtAdd(PtMul(Mul(inv, S), k), PtMul(Neg(Mul(inv, e)), PtSym("G")))
		// the key: its public part is the recovered point; its secret is not needed
		kt := I.P.namedType("btcec", "PrivateKey")
		kv := r.ecdsaKey(kt, r.curveIface(), Sym("d", one, new(big.Int).Sub(hexN, one)))
		key := ptrTo(I.newObj(st, kt, kv, "param:key", token.NoPos))
		pub := I.P.namedType("btcec", "PrivateKey")
		r.setPub(kv, pub, XofP(q), YofP(q))
		st.pc = And(st.pc, Not(PEq(q)))
		apart := func(o *Pt) {
			st.pc = AndNot(st.pc, And(EqP(XofP(o), XofP(q)), EqP(YofP(o), YofP(q))))
		}
		if other {
			// the points with x coordinate R give other keys
			y2 := Sym("y2", one, new(big.Int).Sub(hexP, one))
			squareRel[y2.isAtom().id] = Add(Mul(Mul(R, R), R), C(7))
			knownPts = append(knownPts, [2]*Poly{R, y2})
			k2 := PtFromXY(R, y2)
			st.pc = AndNot(st.pc, PEq(k2))
			for _, v := range []*Poly{Mul(inv, S), Neg(Mul(inv, S))} {
				apart(PtAdd(PtMul(v, k2), PtMul(Neg(Mul(inv, e)), PtSym("G"))))
			}
		} else if it >= 2 {
			// no point has x coordinate R
			r.aNonPoint(R)
		}
		if it&1 == 1 {
			// the opposite point gives another key
			apart(PtAdd(PtMul(Neg(Mul(inv, S)), k), PtMul(Neg(Mul(inv, e)), PtSym("G"))))
		}
		fail := symCond("signing fails")
		calls := 0
		sum := func(I *Interp, s *State, cc *callCtx) Val {
			calls++
			sg := (&Run{I, s}).sigVal(R, S)
			return tup(iteVal(fail, nilPtr(), sg), I.errIf(fail, I.errGlobal("err!sign")))
		}
		I.sum["(*"+repoPrefix+"/btcec.PrivateKey).Sign"] = sum
		I.sum[repoPrefix+"/btcec.signRFC6979"] = sum
		cb := False
		if compressed {
			cb = True
		}
		res := r.call(fn, I.s256(st), key, h, cb).(*TupleV)
		c.absorb(I)
		ok := And(st.pc, nilCond(res.v[1]))
		c.ob(!feasible(Xor(ok, AndNot(st.pc, fail))), what+": fails exactly when signing does", w, "succeeds when %s", condStr(ok))
		c.ob(feasible(ok), what+": a signature can be made", w, "always fails")
		hdr := int64(27 + it)
		if compressed {
			hdr += 4
		}
		s2 := *st
		s2.pc = ok
		same, why := layout(ok, I.bytesOf(&s2, res.v[0], token.NoPos), num{1, C(hdr)}, num{32, R}, num{32, S})
		c.ob(same, what+": header, R and S in 65 bytes", w, "%s", why)
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func init() {
	register(&checkDef{id: "C28", run: func(c *Check) {
		c.recoverWrongLength()
		for h := 0; h < 256; h++ {
			c.recoverAny(h)
		}
		for h := 27; h <= 34; h++ {
			for _, n := range []int{32, 0, 20, 64, -1} {
				c.recoverPoint(h, n)
			}
			c.recoverNoPoint(h)
		}
		for it := 0; it < 4; it++ {
			for _, comp := range []bool{false, true} {
				for n := 1; n <= 32; n++ {
					for m := 1; m <= 32; m++ {
						if c.tier == "thorough" || n == m || n+m == 33 {
							c.signCompact(it, n, m, comp, false)
						}
						if it >= 2 && n+m == 33 {
							c.signCompact(it, n, m, comp, true)
						}
					}
				}
			}
		}
	}})
}

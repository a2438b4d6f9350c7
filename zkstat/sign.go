package main

// C27: signing, nonces and verification.

import (
	"fmt"
	"go/token"
	"math/big"
)

// hashRange bounds the number that a hash value encodes (chosen by a check that enumerates the cases).
var hashRange map[*Seq][2]*big.Int

func init() { resetHooks = append(resetHooks, func() { hashRange = nil }) }

func seqMac(k, m *Seq) *Seq { return seqHash("hmac256", seqCat(k, seqConst("|hmac|"), m), 32) }

// nonceChain is the sequence of nonce candidates of RFC 6979 (SHA-256) for a secret and a hash of 32 octets each.
func nonceChain(d, z *Poly, n int) []*Seq {
	rep := func(b byte) *Seq {
		s := make([]byte, 32)
		for i := range s {
			s[i] = b
		}
		return seqConst(string(s))
	}
	bx := seqCat(seqPad(d, 32), seqPad(z, 32))
	v, k := rep(1), rep(0)
	k = seqMac(k, seqCat(v, seqConst("\x00"), bx))
	v = seqMac(k, v)
	k = seqMac(k, seqCat(v, seqConst("\x01"), bx))
	v = seqMac(k, v)
	var out []*Seq
	for i := 0; i < n; i++ {
		v = seqMac(k, v)
		out = append(out, v)
		k = seqMac(k, seqCat(v, seqConst("\x00")))
		v = seqMac(k, v)
	}
	return out
}

// leftmost is the number in the first 256 bits of a hash.
func leftmost(h *Seq, n int) *Poly {
	if n < 0 || n > 32 {
		return intOf(subSeq(h, C(0), C(32)))
	}
	return intOf(h)
}

// nonceCase fixes the outcome of the candidates: the first are refused (zero or not below N), the last is accepted.
func nonceCase(chain []*Seq, refused string) {
	hashRange = map[*Seq][2]*big.Int{}
	m := new(big.Int).Sub(pow2(256), one)
	for i, s := range chain {
		switch {
		case i == len(chain)-1:
			hashRange[s] = [2]*big.Int{one, new(big.Int).Sub(hexN, one)}
		case refused[i] == '0':
			hashRange[s] = [2]*big.Int{zero, zero}
		default:
			hashRange[s] = [2]*big.Int{hexN, m}
		}
	}
}

// hashArg is a hash of n bytes (any number above 32 for n < 0), in three ranges of its value where it matters.
func (r *Run) hashArg(n int) (*Seq, Val) {
	l := C(int64(n))
	if n < 0 {
		l = Sym("hashlen", bi(33), bi(maxLen))
	}
	s := seqSym("hash", C(0), l)
	o := r.I.newObj(r.st, nil2bytes, mkSeqV(s), "param:hash", token.NoPos)
	return s, &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: l, cap: l}}}
}

func hashName(n int) string {
	if n < 0 {
		return "more than 32"
	}
	return fmt.Sprint(n)
}

func (c *Check) signCase(n, dlen int, refused string, bigHash bool) {
	what := fmt.Sprintf("Sign, hash of %s bytes, secret of %d bytes, %d nonces refused %s", hashName(n), dlen, len(refused), refused)
	if bigHash {
		what += ", hash at or above N"
	}
	c.sub(what, func() {
		r := c.keyRun()
		I, st := r.I, r.st
		d := ofLen("d", dlen, new(big.Int).Sub(hexN, one))
		h, arg := r.hashArg(n)
		// the number in the hash
		hashRange = nil
		first := h
		if n < 0 || n > 32 {
			first = subSeq(h, C(0), C(32))
		}
		z := C(0)
		rng := map[*Seq][2]*big.Int{}
		if n != 0 {
			if bigHash {
				rng[first] = [2]*big.Int{hexN, new(big.Int).Sub(pow2(256), one)}
			} else if n < 0 || n >= 32 {
				rng[first] = [2]*big.Int{zero, new(big.Int).Sub(hexN, one)}
			}
			hashRange = rng
			z = intOf(first)
		}
		e := z
		if bigHash {
			z = Sub(z, CB(hexN))
		}
		chain := nonceChain(d, z, len(refused)+1)
		nonceCase(chain, refused)
		for k, v := range rng {
			hashRange[k] = v
		}
		k := intOf(chain[len(chain)-1])
		fn := c.btcMethod("PrivateKey", "Sign")
		w := c.where(fn)
		key := r.privKey(d)
		res := r.call(fn, key, arg).(*TupleV)
		c.absorb(I)
		ok := And(st.pc, nilCond(res.v[1]))
		none := And(st.pc, nilCond(res.v[0]))
		c.ob(!feasible(Xor(ok, And(st.pc, Not(none)))), what+": a signature is returned exactly when there is no error", w, "nil error %s, no signature %s", condStr(ok), condStr(none))
		c.noPanics(r, what)
		c.understood(r, what)
		R, S, why := r.sigOf(ok, res.v[0])
		if !c.ob(R != nil, what+": a signature is returned", w, "%s", why) {
			return
		}
		x := XofP(PtMul(k, PtSym("G")))
		// assumption: no multiple of G has x coordinate N
		ok = AndNot(ok, EqP(x, CB(hexN)))
		R, S = underCond(R, ok), underCond(S, ok)
		zr := ModP(Sub(R, x), hexN)
		c.ob(sameUnder(ok, zr, C(0)), what+": R is the x coordinate of the nonce's point modulo N, the nonce being the first valid one of RFC 6979", w, "R is %s instead of %s", R, x)
		c.ob(!feasibleDeep(AndNot(ok, LeqP(C(1), R))), what+": 1 <= R", w, "it is not when %s", condStr(AndNot(ok, LeqP(C(1), R))))
		c.ob(!feasibleDeep(AndNot(ok, LtP(R, CB(hexN)))), what+": R < N", w, "it is not when %s", condStr(AndNot(ok, LtP(R, CB(hexN)))))
		c.ob(!feasible(AndNot(ok, And(LeqP(C(1), S), LeqP(S, CB(hexHalf))))), what+": 1 <= S <= (N-1)/2", w, "S is %s when %s", S, condStr(AndNot(ok, And(LeqP(C(1), S), LeqP(S, CB(hexHalf))))))
		want := Mul(InvP(k, hexN), Add(e, Mul(d, R)))
		c.ob(c.eachAlt(ok, S, func(g Bdd, s *Poly) bool {
			a, b := underCond(Sub(s, want), g), underCond(Add(s, want), g)
			return sameUnder(g, ModP(a, hexN), C(0)) || sameUnder(g, ModP(b, hexN), C(0))
		}), what+": S·k = ±(hash + d·R) modulo N", w, "S is %s", S)
		// it fails only for R = 0 or S = 0
		z0 := Or(EqP(x, C(0)), EqP(x, CB(hexN)))
		z1 := EqP(ModP(Add(e, Mul(d, x)), hexN), C(0))
		z2 := EqP(ModP(want, hexN), C(0))
		bad := AndNot(AndNot(AndNot(AndNot(st.pc, nilCond(res.v[1])), z0), z1), z2)
		bad = AndNot(bad, EqP(x, CB(hexN)))
		c.ob(!feasibleDeep(bad), what+": refused only when R or S would be 0", w, "refused when %s", condStr(bad))
	})
}

// eachAlt splits p on its indicators.
func (c *Check) eachAlt(g Bdd, p *Poly, f func(Bdd, *Poly) bool) bool {
	if !feasible(g) {
		return true
	}
	p = underCond(p, g)
	inds := p.indicators()
	if len(inds) == 0 {
		return f(g, p)
	}
	cd := atoms[inds[0]].bdd
	return c.eachAlt(And(g, cd), p.setInd(inds[0], true), f) && c.eachAlt(AndNot(g, cd), p.setInd(inds[0], false), f)
}

func (c *Check) verifySig() {
	what := "Signature.Verify"
	c.sub(what, func() {
		r := c.keyRun()
		I, st := r.I, r.st
		R, S := Sym("R", nil, nil), Sym("S", nil, nil)
		x, y := aPoint("Q", 0, 0)
		v := symCond("the signature is valid")
		h := seqSym("hash", C(0), Sym("hashlen", zero, bi(maxLen)))
		good, calls := True, 0
		why := ""
		fail := func(cond Bdd, s string) {
			if feasible(cond) {
				good, why = False, s
			}
		}
		I.sum["crypto/ecdsa.Verify"] = func(I *Interp, s *State, cc *callCtx) Val {
			calls++
			px, py, cv, wy := (&Run{I, s}).coordsOf(s.pc, cc.args[0], "PublicKey")
			if px == nil {
				fail(s.pc, wy)
				return v
			}
			fail(AndNot(s.pc, And(EqP(px, x), EqP(py, y))), "it checks against another key")
			if !r.isCurve(s.pc, cv) {
				fail(s.pc, "it checks on another curve")
			}
			got := I.bytesOf(s, cc.args[1], cc.pos)
			for _, a := range got.alts {
				fail(AndNot(And(s.pc, a.c), seqEq(a.s, h)), "it checks another hash")
			}
			gr, gs := I.bigAt(s, cc.args[2], cc.pos), I.bigAt(s, cc.args[3], cc.pos)
			fail(AndNot(s.pc, EqP(gr, R)), "it checks another R")
			fail(AndNot(s.pc, EqP(gs, S)), "it checks another S")
			return v
		}
		fn := c.btcMethod("Signature", "Verify")
		w := c.where(fn)
		b, _ := r.call(fn, r.sigVal(R, S), I.newBytes(st, mkSeqV(h), token.NoPos), r.pubKey(x, y)).(Bdd)
		c.absorb(I)
		rng := And(And(LeqP(C(1), R), LtP(R, CB(hexN))), And(LeqP(C(1), S), LtP(S, CB(hexN))))
		c.ob(good == True, what+": hash, R, S and key are those given", w, "%s", why)
		c.ob(!feasible(AndNot(And(st.pc, b), v)), what+": true only for valid signatures", w, "true when %s", condStr(AndNot(b, v)))
		c.ob(!feasible(AndNot(And(st.pc, And(v, rng)), b)), what+": true for every valid signature", w, "false when %s", condStr(AndNot(And(v, rng), b)))
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func init() {
	register(&checkDef{id: "C27", run: func(c *Check) {
		c.verifySig()
		for _, n := range []int{32, 0, 1, 20, 31, 33, 64, -1} {
			c.signCase(n, 32, "", false)
			if n < 0 || n >= 32 {
				c.signCase(n, 32, "", true)
			}
		}
		for d := 1; d < 32; d++ {
			c.signCase(32, d, "", d%2 == 0)
		}
		for _, s := range []string{"0", "N", "0N", "N0", "NN", "NNN"} {
			c.signCase(32, 32, s, false)
		}
	}})
}

package main

// C24, C25: private and public keys.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

// keyRun analyses the key and signature functions: coordinates are integers, the curve equation a polynomial.
func (c *Check) keyRun() *Run {
	r := newRun(c.P, false)
	lowMode, splitMod = true, true
	I := r.I
	I.sum[kc+"IsOnCurve"] = func(I *Interp, st *State, cc *callCtx) Val {
		x, y := I.bigAt(st, cc.args[1], cc.pos), I.bigAt(st, cc.args[2], cc.pos)
		for _, v := range []*Poly{x, y} {
			// coordinates are written into 32-byte fields
			I.panicIf(st, Or(LtP(v, C(0)), LeqP(CB(pow2(256)), v)), cc.pos, "coordinate of more than 32 bytes")
		}
		return onCurveEq(x, y)
	}
	exp := I.sum["(*math/big.Int).Exp"]
	I.sum["(*math/big.Int).Exp"] = func(I *Interp, st *State, cc *callCtx) Val {
		if y := sqrtOf(I.bigAt(st, cc.args[1], cc.pos)); y != nil {
			e, ok := I.bigAt(st, cc.args[2], cc.pos).isConst()
			m, ok2 := I.bigAt(st, cc.args[3], cc.pos).isConst()
			if ok && ok2 && m.Cmp(hexP) == 0 && e.Cmp(new(big.Int).Rsh(new(big.Int).Add(hexP, one), 2)) == 0 {
				return I.setBig(st, cc.args[0], y, cc.pos)
			}
		}
		return exp(I, st, cc)
	}
	sq := I.sum["(*math/big.Int).ModSqrt"]
	I.sum["(*math/big.Int).ModSqrt"] = func(I *Interp, st *State, cc *callCtx) Val {
		if y := sqrtOf(I.bigAt(st, cc.args[1], cc.pos)); y != nil {
			for i := range noPts {
				if y == noRoot(i) {
					return nilPtr()
				}
			}
			if m, ok := I.bigAt(st, cc.args[2], cc.pos).isConst(); ok && m.Cmp(hexP) == 0 {
				return I.setBig(st, cc.args[0], y, cc.pos)
			}
		}
		return sq(I, st, cc)
	}
	I.sum["crypto/ecdsa.GenerateKey"] = func(I *Interp, st *State, cc *callCtx) Val {
		if !I.isRandReader(st, cc.args[1]) {
			I.event(Event{kind: "badrand", what: "ecdsa.GenerateKey from a reader other than crypto/rand.Reader", pos: cc.pos, cond: st.pc})
		}
		kt := deref(cc.sig.Results().At(0).Type())
		d := Sym(I.freshName("d"), one, new(big.Int).Sub(hexN, one))
		v := (&Run{I, st}).ecdsaKey(kt, cc.args[0], d)
		fail := symCond("generr")
		p := ptrTo(I.newObj(st, kt, v, "alloc", cc.pos))
		return tup(iteVal(fail, nilPtr(), p), I.errIf(fail, I.errGlobal("err!gen")))
	}
	return r
}

func onCurveEq(x, y *Poly) Bdd {
	d := Sub(Mul(y, y), Add(Mul(Mul(x, x), x), C(7)))
	return EqP(ModP(d, hexP), C(0))
}

// noPts are x coordinates without a point; the power (P+1)/4 of x^3+7 is then a root of its opposite.
var noPts []*Poly

func noRoot(i int) *Poly {
	return Sym(fmt.Sprintf("root of the opposite %d", i), one, new(big.Int).Sub(hexP, one))
}

// aNonPoint is an x coordinate without a point.
func (r *Run) aNonPoint(x *Poly) {
	noPts = append(noPts, x)
	w := noRoot(len(noPts) - 1)
	if squareRel == nil {
		squareRel = map[int32]*Poly{}
	}
	c := Add(Mul(Mul(x, x), x), C(7))
	squareRel[w.isAtom().id] = Neg(c)
	// 0 is a square, so x^3+7 is not 0, and neither is twice its opposite
	for _, v := range []*Poly{c, Neg(c), Scale(c, bi(2)), Scale(c, bi(-2))} {
		r.st.pc = And(r.st.pc, Not(EqP(ModP(v, hexP), C(0))))
	}
}

// knownPts are points introduced by a check, by their x coordinate.
var knownPts [][2]*Poly

func init() {
	resetHooks = append(resetHooks, func() { knownPts, noPts, lowMode, splitMod = nil, nil, false, false })
}

// ofLen is an arbitrary positive number of n bytes, at most max (any number of bytes for n = 0).
func ofLen(name string, n int, max *big.Int) *Poly {
	if n == 0 {
		return Sym(name, one, max)
	}
	hi := new(big.Int).Sub(pow2(8*n), one)
	if hi.Cmp(max) > 0 {
		hi = max
	}
	return Sym(name, pow2(8*n-8), hi)
}

// aPoint is an arbitrary finite point of the curve.
func aPoint(name string, lx, ly int) (x, y *Poly) {
	pm := new(big.Int).Sub(hexP, one)
	x, y = ofLen(name+".x", lx, pm), ofLen(name+".y", ly, pm)
	if squareRel == nil {
		squareRel = map[int32]*Poly{}
	}
	squareRel[y.isAtom().id] = Add(Mul(Mul(x, x), x), C(7))
	knownPts = append(knownPts, [2]*Poly{x, y})
	return x, y
}

// sqrtOf is a square root of p modulo P when p is the square of a known y coordinate: one of the two.
func sqrtOf(p *Poly) *Poly {
	for i, x := range noPts {
		if ModP(Sub(p, Add(Mul(Mul(x, x), x), C(7))), hexP).isZero() {
			return noRoot(i)
		}
	}
	for i, k := range knownPts {
		if ModP(Sub(p, Add(Mul(Mul(k[0], k[0]), k[0]), C(7))), hexP).isZero() {
			return IteP(symCond(fmt.Sprintf("the root is y of point %d", i)), k[1], Sub(CB(hexP), k[1]))
		}
	}
	return nil
}

func oddOf(p *Poly) Bdd { return EqP(lowOf(p, bi(2)), C(1)) }

func (r *Run) curveIface() Val {
	return &IfaceV{[]IfAlt{{c: True, t: types.NewPointer(r.I.P.namedType("btcec", "KoblitzCurve")), v: r.I.s256(r.st)}}}
}

// pubKeyVal is an ecdsa.PublicKey (or a type defined as one) with these coordinates.
func (r *Run) pubKeyVal(t types.Type, curve Val, x, y *Poly) *StructV {
	s := t.Underlying().(*types.Struct)
	v := r.I.zero(r.st, t).(*StructV)
	set := func(n string, w Val) {
		i := fieldIndex(s, n, -1)
		if i < 0 {
			panic("public key has no field " + n)
		}
		v.f[i] = w
	}
	set("Curve", curve)
	set("X", ptrTo(r.I.newObj(r.st, r.I.bigT(), &BigV{x}, "param:key", token.NoPos)))
	set("Y", ptrTo(r.I.newObj(r.st, r.I.bigT(), &BigV{y}, "param:key", token.NoPos)))
	return v
}

// setPub replaces the public coordinates of a private key.
func (r *Run) setPub(v *StructV, t types.Type, x, y *Poly) {
	i := fieldIndex(t.Underlying().(*types.Struct), "PublicKey", -1)
	f := t.Underlying().(*types.Struct).Field(i).Type()
	v.f[i] = r.pubKeyVal(f, r.curveIface(), x, y)
}

// ecdsaKey is an ecdsa.PrivateKey with secret d.
func (r *Run) ecdsaKey(t types.Type, curve Val, d *Poly) *StructV {
	s := t.Underlying().(*types.Struct)
	v := r.I.zero(r.st, t).(*StructV)
	p := PtMul(d, PtSym("G"))
	v.f[fieldIndex(s, "PublicKey", -1)] = r.pubKeyVal(s.Field(fieldIndex(s, "PublicKey", -1)).Type(), curve, XofP(p), YofP(p))
	v.f[fieldIndex(s, "D", -1)] = ptrTo(r.I.newObj(r.st, r.I.bigT(), &BigV{d}, "param:key", token.NoPos))
	return v
}

func (r *Run) privKey(d *Poly) Val {
	t := r.I.P.namedType("btcec", "PrivateKey")
	return ptrTo(r.I.newObj(r.st, t, r.ecdsaKey(t, r.curveIface(), d), "param:key", token.NoPos))
}

func (r *Run) pubKey(x, y *Poly) Val {
	t := r.I.P.namedType("btcec", "PublicKey")
	return ptrTo(r.I.newObj(r.st, t, r.pubKeyVal(t, r.curveIface(), x, y), "param:key", token.NoPos))
}

// coordsOf reads the coordinates of a key; x is nil when v does not point to one under pc.
func (r *Run) coordsOf(pc Bdd, v Val, typ string) (x, y *Poly, curve Val, why string) {
	p, ok := v.(*PtrV)
	if !ok || feasible(And(pc, nilCond(p))) {
		return nil, nil, nil, "no key is returned"
	}
	st := *r.st
	st.pc = pc
	t := r.I.P.namedType("btcec", typ)
	s, ok := r.I.load(&st, p, t, token.NoPos).(*StructV)
	if !ok {
		return nil, nil, nil, "the key is not a structure"
	}
	su := t.Underlying().(*types.Struct)
	if typ == "PrivateKey" {
		i := fieldIndex(su, "PublicKey", -1)
		su = su.Field(i).Type().Underlying().(*types.Struct)
		s, ok = s.f[i].(*StructV)
		if !ok {
			return nil, nil, nil, "the public part is not a structure"
		}
	}
	for _, n := range []string{"X", "Y"} {
		q, ok := s.f[fieldIndex(su, n, -1)].(*PtrV)
		if !ok || feasible(And(pc, nilCond(q))) {
			return nil, nil, nil, "coordinate " + n + " is nil"
		}
	}
	x = r.I.bigAt(&st, s.f[fieldIndex(su, "X", -1)], token.NoPos)
	y = r.I.bigAt(&st, s.f[fieldIndex(su, "Y", -1)], token.NoPos)
	return underCond(x, pc), underCond(y, pc), s.f[fieldIndex(su, "Curve", -1)], ""
}

// isCurve: v is the shared curve object.
func (r *Run) isCurve(pc Bdd, v Val) bool {
	iv, ok := v.(*IfaceV)
	if !ok {
		return false
	}
	want := r.I.s256(r.st).(*PtrV).alts[0].obj
	for _, a := range iv.alts {
		if !feasible(And(pc, a.c)) {
			continue
		}
		p, ok := a.v.(*PtrV)
		if !ok {
			return false
		}
		for _, b := range p.alts {
			if feasible(And(pc, And(a.c, b.c))) && b.obj != want {
				return false
			}
		}
	}
	return true
}

// num is a big-endian number of n bytes in an encoding.
type num struct {
	n int
	v *Poly
}

// layout decides that s is the concatenation of these numbers.
func layout(pc Bdd, s *SeqV, want ...num) (bool, string) {
	total := 0
	for _, w := range want {
		total += w.n
	}
	for _, a := range s.alts {
		g := And(pc, a.c)
		if !feasible(g) {
			continue
		}
		q := a.s.under(g)
		if l := underCond(q.length(), g); !sameUnder(g, l, C(int64(total))) {
			return false, fmt.Sprintf("%s has %s bytes instead of %d under %s", q, l, total, condStr(g))
		}
		off := 0
		for _, w := range want {
			got := intOf(subSeq(q, C(int64(off)), C(int64(w.n))))
			if !sameUnder(g, underCond(got, g), underCond(w.v, g)) {
				return false, fmt.Sprintf("bytes %d to %d of %s are the number %s instead of %s under %s", off, off+w.n, q, got, w.v, condStr(g))
			}
			off += w.n
		}
	}
	return true, ""
}

func (c *Check) parseArbitrary(n int, first *Poly, label string) {
	what := fmt.Sprintf("ParsePubKey of %s bytes, first byte %s", lenName(n), label)
	c.sub(what, func() {
		r := c.keyRun()
		I, st := r.I, r.st
		fn := c.btcFn("ParsePubKey")
		w := c.where(fn)
		if first == nil {
			first = Sym("first", bi(9), bi(255))
		} else {
			k, _ := first.constInt()
			first = C(k)
		}
		var s *SeqV
		pc := True
		switch {
		case n == 0:
			s = mkSeqV(mkSeq(nil))
		case n > 0:
			s = mkSeqV(seqCat(seqByte(first), seqSym("rest", C(0), C(int64(n-1)))))
		default:
			l := Sym("length", one, bi(maxLen))
			pc = And(Not(EqP(l, C(33))), Not(EqP(l, C(65))))
			s = mkSeqV(seqCat(seqByte(first), seqSym("rest", C(0), Sub(l, C(1)))))
		}
		st.pc = pc
		o := I.newObj(st, nil2bytes, s, "param:pubKeyStr", token.NoPos)
		ln := s.length(pc)
		arg := &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: ln, cap: ln}}}
		res := r.call(fn, arg, I.s256(st)).(*TupleV)
		c.absorb(I)
		ok := And(st.pc, nilCond(res.v[1]))
		none := And(st.pc, nilCond(res.v[0]))
		c.ob(!feasible(Xor(ok, And(st.pc, Not(none)))), what+": a key is returned exactly when there is no error", w, "nil error %s, no key %s", condStr(ok), condStr(none))
		c.noPanics(r, what)
		c.understood(r, what)
		k, isC := first.constInt()
		valid := isC && (n == 33 && (k == 2 || k == 3) || n == 65 && k >= 4 && k <= 7)
		if !valid {
			c.ob(!feasibleDeep(ok), what+": refused", w, "accepted when %s", condStr(ok))
			return
		}
		if !feasible(ok) {
			c.ob(false, what+": valid keys are accepted", w, "never accepted")
			return
		}
		x, y, cv, why := r.coordsOf(ok, res.v[0], "PublicKey")
		if !c.ob(x != nil, what+": the key has coordinates", w, "%s", why) {
			return
		}
		c.ob(r.isCurve(ok, cv), what+": the key is on the curve asked for", w, "Curve is another value")
		seg := func(off int) *Poly { return intOf(seqSym("rest", C(int64(off)), C(32))) }
		c.ob(sameUnder(ok, x, seg(0)), what+": X is the number in bytes 1 to 32", w, "X is %s", x)
		pm := CB(hexP)
		c.ob(!feasible(AndNot(ok, LtP(x, pm))), what+": X is below P", w, "accepted with X >= P")
		c.ob(!feasible(AndNot(ok, LtP(y, pm))), what+": Y is below P", w, "accepted with Y >= P")
		c.ob(!feasible(AndNot(ok, onCurveEq(x, y))), what+": the point is on the curve", w, "accepted when the point need not be on the curve: %s", condStr(AndNot(ok, onCurveEq(x, y))))
		if n == 65 {
			c.ob(sameUnder(ok, y, seg(32)), what+": Y is the number in bytes 33 to 64", w, "Y is %s", y)
		}
		if n == 33 || k >= 6 {
			bad := oddOf(y)
			if k&1 == 1 {
				bad = Not(bad)
			}
			c.ob(!feasible(And(ok, bad)), what+": Y has the parity the first byte says", w, "accepted with the other parity: %s", condStr(And(ok, bad)))
		}
	})
}

func lenName(n int) string {
	if n < 0 {
		return "any other number of"
	}
	return fmt.Sprint(n)
}

func (c *Check) pubRoundTrip(ser string, first int, length, lx, ly int) {
	what := fmt.Sprintf("%s and ParsePubKey, coordinates of %d and %d bytes", ser, lx, ly)
	c.sub(what, func() {
		r := c.keyRun()
		I, st := r.I, r.st
		x, y := aPoint("Q", lx, ly)
		fn := c.btcMethod("PublicKey", ser)
		w := c.where(fn)
		v := r.call(fn, r.pubKey(x, y))
		got := I.bytesOf(st, v, token.NoPos)
		f := C(int64(first))
		if first != 4 {
			f = IteP(oddOf(y), C(int64(first+1)), C(int64(first)))
		}
		want := seqCat(seqByte(f), seqPad(x, 32))
		nums := []num{{1, f}, {32, x}}
		if length == 65 {
			want = seqCat(want, seqPad(y, 32))
			nums = append(nums, num{32, y})
		}
		same, why := layout(st.pc, got, nums...)
		c.ob(same, what+": the encoding is the standard one", w, "%s", why)
		c.noPanics(r, what)
		// read the standard encoding back
		pf := c.btcFn("ParsePubKey")
		res := r.call(pf, I.newBytes(st, mkSeqV(want), token.NoPos), I.s256(st)).(*TupleV)
		c.absorb(I)
		w = c.where(pf)
		bad := And(st.pc, Not(nilCond(res.v[1])))
		c.ob(!feasible(bad), what+": every key is read back", w, "refused when %s", condStr(bad))
		px, py, cv, why := r.coordsOf(st.pc, res.v[0], "PublicKey")
		if c.ob(px != nil, what+": a key is read back", w, "%s", why) {
			c.ob(sameUnder(st.pc, px, x) && sameUnder(st.pc, py, y), what+": the same key is read back", w, "(%s, %s)", px, py)
			c.ob(r.isCurve(st.pc, cv), what+": the key read back has its curve", w, "Curve is another value")
		}
		ic := r.call(c.btcFn("IsCompressedPubKey"), I.newBytes(st, mkSeqV(want), token.NoPos))
		b, _ := ic.(Bdd)
		wantC := False
		if length == 33 {
			wantC = True
		}
		c.ob(!feasible(And(st.pc, Xor(b, wantC))), what+": IsCompressedPubKey recognises the format", c.where(c.btcFn("IsCompressedPubKey")), "it is wrong when %s", condStr(Xor(b, wantC)))
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func (c *Check) compressedTest() {
	what := "IsCompressedPubKey"
	c.sub(what, func() {
		fn := c.btcFn(what)
		for _, n := range []int{-1, 0, 33} {
			resetEngine()
			r := c.keyRun()
			var s *Seq
			first := Sym("first", zero, bi(255))
			switch n {
			case 0:
				s = mkSeq(nil)
			case 33:
				s = seqCat(seqByte(first), seqSym("rest", C(0), C(32)))
			default:
				l := Sym("length", one, bi(maxLen))
				r.st.pc = Not(EqP(l, C(33)))
				s = seqCat(seqByte(first), seqSym("rest", C(0), Sub(l, C(1))))
			}
			b, _ := r.call(fn, r.I.newBytes(r.st, mkSeqV(s), token.NoPos)).(Bdd)
			want := False
			if n == 33 {
				want = Or(EqP(first, C(2)), EqP(first, C(3)))
			}
			c.absorb(r.I)
			nm := fmt.Sprintf("%s of %s bytes", what, lenName(n))
			bad := And(r.st.pc, Xor(b, want))
			c.ob(!feasibleDeep(bad), nm+": true exactly for 33 bytes starting with 2 or 3", c.where(fn), "wrong when %s", condStr(bad))
			c.noPanics(r, nm)
			c.understood(r, nm)
		}
	})
}

func (c *Check) pubEqual() {
	what := "PublicKey.IsEqual"
	c.sub(what, func() {
		r := c.keyRun()
		pm := new(big.Int).Sub(hexP, one)
		v := func(n string) *Poly { return Sym(n, zero, pm) }
		x1, y1, x2, y2 := v("x1"), v("y1"), v("x2"), v("y2")
		fn := c.btcMethod("PublicKey", "IsEqual")
		b, _ := r.call(fn, r.pubKey(x1, y1), r.pubKey(x2, y2)).(Bdd)
		c.absorb(r.I)
		want := And(EqP(x1, x2), EqP(y1, y2))
		c.ob(!feasible(And(r.st.pc, Xor(b, want))), what+": true exactly when both coordinates agree", c.where(fn), "is %s", condStr(b))
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func (c *Check) privKeys() {
	dmax := new(big.Int).Sub(hexN, one)
	checkPair := func(r *Run, what, w string, pc Bdd, priv Val, d *Poly) {
		x, y, cv, why := r.coordsOf(pc, priv, "PrivateKey")
		if !c.ob(x != nil, what+": a private key is returned", w, "%s", why) {
			return
		}
		p := PtMul(d, PtSym("G"))
		c.ob(sameUnder(pc, x, XofP(p)) && sameUnder(pc, y, YofP(p)), what+": the public part is the secret times the generator", w, "(%s, %s)", x, y)
		c.ob(r.isCurve(pc, cv), what+": the key has its curve", w, "Curve is another value")
		st := *r.st
		st.pc = pc
		t := r.I.P.namedType("btcec", "PrivateKey")
		s, _ := r.I.load(&st, priv, t, token.NoPos).(*StructV)
		dv := r.I.bigAt(&st, s.f[fieldIndex(t.Underlying().(*types.Struct), "D", -1)], token.NoPos)
		c.ob(sameUnder(pc, dv, d), what+": the secret is the number given", w, "it is %s", dv)
	}
	for _, n := range []int{0, 32, -1} {
		what := fmt.Sprintf("PrivKeyFromBytes of %s bytes", lenName(n))
		n := n
		c.sub(what, func() {
			r := c.keyRun()
			l := C(int64(n))
			if n < 0 {
				l = Sym("length", zero, bi(maxLen))
			}
			s := seqSym("pk", C(0), l)
			fn := c.btcFn("PrivKeyFromBytes")
			w := c.where(fn)
			res := r.call(fn, r.curveIface(), r.I.newBytes(r.st, mkSeqV(s), token.NoPos)).(*TupleV)
			c.absorb(r.I)
			checkPair(r, what, w, r.st.pc, res.v[0], intOf(s))
			x, y, _, why := r.coordsOf(r.st.pc, res.v[1], "PublicKey")
			p := PtMul(intOf(s), PtSym("G"))
			if c.ob(x != nil, what+": a public key is returned", w, "%s", why) {
				c.ob(sameUnder(r.st.pc, x, XofP(p)) && sameUnder(r.st.pc, y, YofP(p)), what+": the public key belongs to the private key", w, "(%s, %s)", x, y)
			}
			c.noPanics(r, what)
			c.understood(r, what)
		})
	}
	for n := 0; n <= 32; n++ {
		n := n
		what := fmt.Sprintf("PrivateKey.Serialize of a secret of %d bytes", n)
		c.sub(what, func() {
			r := c.keyRun()
			d := ofLen("d", n, dmax)
			if n == 0 {
				d = C(0)
			}
			fn := c.btcMethod("PrivateKey", "Serialize")
			w := c.where(fn)
			v := r.call(fn, r.privKey(d))
			same, why := layout(r.st.pc, r.I.bytesOf(r.st, v, token.NoPos), num{32, d})
			c.ob(same, what+": 32 bytes, big-endian", w, "%s", why)
			pf := c.btcFn("PrivKeyFromBytes")
			res := r.call(pf, r.curveIface(), v).(*TupleV)
			c.absorb(r.I)
			checkPair(r, what+" and PrivKeyFromBytes", c.where(pf), r.st.pc, res.v[0], d)
			c.noPanics(r, what)
			c.understood(r, what)
		})
	}
	c.sub("PubKey and ToECDSA", func() {
		r := c.keyRun()
		d := Sym("d", one, dmax)
		k := r.privKey(d)
		p := PtMul(d, PtSym("G"))
		fn := c.btcMethod("PrivateKey", "PubKey")
		pub := r.call(fn, k)
		x, y, cv, why := r.coordsOf(r.st.pc, pub, "PublicKey")
		if c.ob(x != nil, "PubKey: a key is returned", c.where(fn), "%s", why) {
			c.ob(sameUnder(r.st.pc, x, XofP(p)) && sameUnder(r.st.pc, y, YofP(p)), "PubKey: the key is the public part", c.where(fn), "(%s, %s)", x, y)
			c.ob(r.isCurve(r.st.pc, cv), "PubKey: the key has its curve", c.where(fn), "Curve is another value")
		}
		te := r.call(c.btcMethod("PrivateKey", "ToECDSA"), k)
		checkPair(r, "PrivateKey.ToECDSA", c.where(c.btcMethod("PrivateKey", "ToECDSA")), r.st.pc, te, d)
		if x != nil {
			tp := r.call(c.btcMethod("PublicKey", "ToECDSA"), pub)
			x, y, _, why := r.coordsOf(r.st.pc, tp, "PublicKey")
			if c.ob(x != nil, "PublicKey.ToECDSA: a key is returned", c.where(fn), "%s", why) {
				c.ob(sameUnder(r.st.pc, x, XofP(p)) && sameUnder(r.st.pc, y, YofP(p)), "PublicKey.ToECDSA: the same key", c.where(fn), "(%s, %s)", x, y)
			}
		}
		c.absorb(r.I)
		c.noPanics(r, "PubKey and ToECDSA")
		c.understood(r, "PubKey and ToECDSA")
	})
	c.sub("NewPrivateKey", func() {
		what := "NewPrivateKey"
		r := c.keyRun()
		fn := c.btcFn(what)
		w := c.where(fn)
		res := r.call(fn, r.curveIface()).(*TupleV)
		c.absorb(r.I)
		ok := And(r.st.pc, nilCond(res.v[1]))
		c.ob(!feasible(Xor(ok, And(r.st.pc, Not(nilCond(res.v[0]))))), what+": a key is returned exactly when there is no error", w, "nil error %s", condStr(ok))
		gen := Not(symCond("generr"))
		c.ob(!feasible(Xor(ok, And(r.st.pc, gen))), what+": fails exactly when key generation fails", w, "succeeds when %s", condStr(ok))
		x, y, cv, why := r.coordsOf(ok, res.v[0], "PrivateKey")
		if c.ob(x != nil, what+": a key is returned", w, "%s", why) {
			st := *r.st
			st.pc = ok
			t := r.I.P.namedType("btcec", "PrivateKey")
			s, _ := r.I.load(&st, res.v[0], t, token.NoPos).(*StructV)
			d := r.I.bigAt(&st, s.f[fieldIndex(t.Underlying().(*types.Struct), "D", -1)], token.NoPos)
			a := d.isAtom()
			c.ob(a != nil && contains(a.name, "d"), what+": the secret is the freshly generated one", w, "it is %s", d)
			p := PtMul(d, PtSym("G"))
			c.ob(sameUnder(ok, x, XofP(p)) && sameUnder(ok, y, YofP(p)), what+": the public part is the secret times the generator", w, "(%s, %s)", x, y)
			c.ob(r.isCurve(ok, cv), what+": the key has its curve", w, "Curve is another value")
		}
		for _, e := range r.I.events {
			if e.kind == "badrand" {
				c.ob(false, what+": secrets come from crypto/rand", c.P.pos(e.pos), "%s", e.what)
			}
		}
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func init() {
	register(&checkDef{id: "C24", run: func(c *Check) { c.privKeys() }})
	register(&checkDef{id: "C25", run: func(c *Check) {
		for _, n := range []int{33, 65} {
			for k := 0; k <= 8; k++ {
				c.parseArbitrary(n, C(int64(k)), fmt.Sprint(k))
			}
			c.parseArbitrary(n, nil, "above 8")
		}
		c.parseArbitrary(0, nil, "none")
		for k := 0; k <= 8; k++ {
			c.parseArbitrary(-1, C(int64(k)), fmt.Sprint(k))
		}
		c.parseArbitrary(-1, nil, "above 8")
		rt := func(lx, ly int) {
			c.pubRoundTrip("SerializeCompressed", 2, 33, lx, ly)
			c.pubRoundTrip("SerializeUncompressed", 4, 65, lx, ly)
			c.pubRoundTrip("SerializeHybrid", 6, 65, lx, ly)
		}
		for i := 1; i <= 32; i++ {
			for j := 1; j <= 32; j++ {
				if c.tier == "thorough" || i == 32 || j == 32 || i == j {
					rt(i, j)
				}
			}
		}
		c.compressedTest()
		c.pubEqual()
	}})
}

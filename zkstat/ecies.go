package main

// C29: ECIES encryption and decryption.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

type cbcTerm struct{ key, iv, m *Seq }

// cbcOf finds the operands of AES-CBC terms.
var cbcOf = map[string]cbcTerm{}

// cbc is AES-CBC of m, whose length is a multiple of 16; encryption and decryption are inverses.
func cbc(dir string, key, iv, m *Seq) *Seq {
	if m.length().isZero() {
		return m
	}
	other := "decrypt"
	if dir == other {
		other = "encrypt"
	}
	if len(m.s) == 1 && m.s[0].k == "hash" && m.s[0].name == "aes-cbc-"+other {
		if t, ok := cbcOf[m.s[0].keyStr()]; ok && t.key == key && t.iv == iv {
			return t.m
		}
	}
	g := Seg{k: "hash", name: "aes-cbc-" + dir, sub: seqCat(key, seqConst("|iv|"), iv, seqConst("|text|"), m), n: m.length()}
	cbcOf[g.keyStr()] = cbcTerm{key, iv, m}
	return mkSeq([]Seg{g})
}

type cbcUse struct {
	dir  string
	cond Bdd
	pos  token.Pos
}

// eciesRun adds AES and CBC to the contracts.
func (c *Check) eciesRun() (*Run, *[]cbcUse) {
	r := c.keyRun()
	symRuns = true
	I := r.I
	uses := &[]cbcUse{}
	I.sum["crypto/aes.NewCipher"] = func(I *Interp, st *State, cc *callCtx) Val {
		key := I.bytesOf(st, cc.args[0], cc.pos)
		l := key.length(st.pc)
		bad := Not(Or(EqP(l, C(16)), Or(EqP(l, C(24)), EqP(l, C(32)))))
		o := I.newObj(st, types.Typ[types.Int], &ExtV{kind: "aes", seq: key, n: C(0)}, "alloc", cc.pos)
		b := &IfaceV{[]IfAlt{{c: True, ext: "cipher.Block", v: ptrTo(o)}}}
		return tup(iteVal(bad, nilIface(), b), I.errIf(bad, I.errGlobal("err!aeskey")))
	}
	I.sum["cipher.Block.BlockSize"] = func(I *Interp, st *State, cc *callCtx) Val { return C(16) }
	mode := func(dir string) Summary {
		return func(I *Interp, st *State, cc *callCtx) Val {
			b, ok := cc.args[0].(*IfaceV)
			if !ok {
				I.event(Event{kind: "unmodelled", what: "block cipher", pos: cc.pos, cond: st.pc})
				return I.havocResult(st, cc.sig, "cbc")
			}
			I.panicIf(st, nilCond(b), cc.pos, "nil block cipher")
			var e *ExtV
			for _, a := range b.alts {
				if a.ext == "cipher.Block" {
					e = I.extAt(st, a.v, "aes", cc.pos)
				}
			}
			if e == nil || e.seq == nil {
				I.event(Event{kind: "unmodelled", what: "block cipher", pos: cc.pos, cond: st.pc})
				return I.havocResult(st, cc.sig, "cbc")
			}
			iv := I.bytesOf(st, cc.args[1], cc.pos)
			I.panicIf(st, Not(EqP(iv.length(st.pc), C(16))), cc.pos, "the initialization vector is not a block")
			o := I.newObj(st, types.Typ[types.Int], &ExtV{kind: "cbc", name: dir, seq: iv, vals: []Val{e.seq}, n: C(0)}, "alloc", cc.pos)
			return &IfaceV{[]IfAlt{{c: True, ext: "cipher.BlockMode", v: ptrTo(o)}}}
		}
	}
	I.sum["crypto/cipher.NewCBCEncrypter"] = mode("encrypt")
	I.sum["crypto/cipher.NewCBCDecrypter"] = mode("decrypt")
	I.sum["cipher.BlockMode.BlockSize"] = func(I *Interp, st *State, cc *callCtx) Val { return C(16) }
	I.sum["cipher.BlockMode.CryptBlocks"] = func(I *Interp, st *State, cc *callCtx) Val {
		e := I.extAt(st, cc.args[0], "cbc", cc.pos)
		src := I.bytesOf(st, cc.args[2], cc.pos)
		n := src.length(st.pc)
		I.panicIf(st, LtP(I.lenOf(st, cc.args[1]), n), cc.pos, "the output is shorter than the input")
		I.panicIf(st, Not(EqP(ModP(n, bi(16)), C(0))), cc.pos, "the input is not a number of blocks")
		*uses = append(*uses, cbcUse{e.name, st.pc, cc.pos})
		key := e.vals[0].(*SeqV)
		out := key.lift(st.pc, func(k Bdd, ks *Seq) *SeqV {
			return e.seq.lift(And(st.pc, k), func(v Bdd, ivs *Seq) *SeqV {
				return src.lift(And(st.pc, And(k, v)), func(_ Bdd, m *Seq) *SeqV { return mkSeqV(cbc(e.name, ks, ivs, m)) })
			})
		})
		I.writeBytes(st, cc.args[1], out, n, cc.pos)
		// the last block of ciphertext is the next initialization vector
		ct := out
		if e.name == "decrypt" {
			ct = src
		}
		ne := *e
		ne.seq = ct.lift(st.pc, func(_ Bdd, q *Seq) *SeqV {
			if q.length().isZero() {
				return mkSeqV(seqSym(I.freshName("iv"), C(0), C(16)))
			}
			return mkSeqV(subSeq(q, Sub(q.length(), C(16)), C(16)))
		})
		I.store(st, cc.args[0], &ne, cc.pos)
		return tup()
	}
	return r, uses
}

// lenClass is an arbitrary length with the given remainder modulo 16, at least min, or just min.
func lenClass(rem int, any bool) *Poly {
	if !any {
		return C(int64(rem))
	}
	return Add(Scale(Sym("blocks", zero, bi(1<<24)), bi(16)), C(int64(rem)))
}

var eciesHead = "\x02\xca\x00\x20"

func eciesBody(iv *Seq, x, y *Poly, shared *Pt, m *Seq, pad int) (all *Seq) {
	k := seqHash("sha512", seqBe(XofP(shared)), 64)
	ke, km := subSeq(k, C(0), C(32)), subSeq(k, C(32), C(32))
	ct := cbc("encrypt", ke, iv, seqCat(m, seqFill(C(int64(pad)), C(int64(pad)))))
	all = seqCat(iv, seqConst(eciesHead), seqPad(x, 32), seqConst("\x00\x20"), seqPad(y, 32), ct)
	return seqCat(all, seqMac(km, all))
}

func (r *Run) bytesArg(name string, s *Seq, spare *Seq) (Val, int32) {
	o := r.I.newObj(r.st, nil2bytes, mkSeqV(seqCat(s, spare)), "param:"+name, token.NoPos)
	l := s.length()
	return &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: l, cap: Add(l, spare.length())}}}, int32(o)
}

func (r *Run) bytesKept(o int32, s *Seq) Bdd {
	l := s.length()
	return r.I.valEq(r.st, r.I.bytesOf(r.st, &SliceV{[]SliceAlt{{c: True, obj: int(o), off: C(0), len: l, cap: l}}}, token.NoPos), mkSeqV(s))
}

func textLen(rem int, any bool) string {
	if any {
		return fmt.Sprintf("16n+%d", rem)
	}
	return fmt.Sprint(rem)
}

func (c *Check) encrypt(rem int, any bool, lx, ly int) {
	what := fmt.Sprintf("Encrypt of %s bytes, ephemeral coordinates of %d and %d bytes", textLen(rem, any), lx, ly)
	c.sub(what, func() {
		fn := c.btcFn("Encrypt")
		w := c.where(fn)
		r, uses := c.eciesRun()
		I, st := r.I, r.st
		x, y := aPoint("pub", 0, 0)
		pt := PtFromXY(x, y)
		st.pc = AndNot(st.pc, PEq(pt))
		var d *Poly
		gen := I.sum["crypto/ecdsa.GenerateKey"]
		ex, ey := aPoint("ephemeral", lx, ly)
		I.sum["crypto/ecdsa.GenerateKey"] = func(I *Interp, st *State, cc *callCtx) Val {
			v := gen(I, st, cc).(*TupleV)
			kt := deref(cc.sig.Results().At(0).Type())
			s2 := *st
			s2.pc = And(st.pc, nilCond(v.v[1]))
			if d != nil {
				I.event(Event{kind: "unmodelled", what: "second ephemeral key", pos: cc.pos, cond: st.pc})
			}
			e := I.load(&s2, v.v[0], kt, cc.pos).(*StructV)
			d = I.bigAt(&s2, e.f[fieldIndex(kt.Underlying().(*types.Struct), "D", -1)], cc.pos)
			ne := (&Run{I, st}).ecdsaKey(kt, cc.args[0], d)
			(&Run{I, st}).setPub(ne, kt, ex, ey)
			fail := Not(nilCond(v.v[1]))
			return tup(iteVal(fail, nilPtr(), ptrTo(I.newObj(st, kt, ne, "alloc", cc.pos))), v.v[1])
		}
		n := lenClass(rem, any)
		m := seqSym("plain", C(0), n)
		spare := seqSym("spare", C(0), C(64))
		in, o := r.bytesArg("plaintext", m, spare)
		kt := I.P.namedType("btcec", "PublicKey")
		key := ptrTo(I.newObj(st, kt, r.pubKeyVal(kt, r.curveIface(), x, y), "param:pubkey", token.NoPos))
		res := r.call(fn, key, in).(*TupleV)
		c.absorb(I)
		ok := And(st.pc, nilCond(res.v[1]))
		c.ob(feasible(ok), what+": succeeds", w, "always fails")
		none := And(st.pc, nilCond(res.v[0]))
		c.ob(!feasible(And(none, ok)) && !feasible(AndNot(AndNot(st.pc, ok), none)), what+": bytes are returned exactly when there is no error", w, "no error %s, no bytes %s", condStr(ok), condStr(none))
		for k := 0; k < I.randN; k++ {
			e := symCond(fmt.Sprintf("randerr#%d", k))
			c.ob(!feasible(And(ok, e)), what+": fails when the random vector cannot be read", w, "succeeds when %s", condStr(And(ok, e)))
		}
		c.ob(!feasible(And(ok, symCond("generr"))), what+": fails when no ephemeral key can be made", w, "succeeds")
		c.ob(r.bytesKept(o, seqCat(m, spare)) == True || !feasible(AndNot(st.pc, r.bytesKept(o, seqCat(m, spare)))), what+": the plaintext and the memory behind it are left as they were", w, "it is written to")
		var rnd []*Seq
		for _, e := range I.events {
			if e.kind == "badrand" && feasible(And(st.pc, e.cond)) {
				c.ob(false, what+": randomness from crypto/rand", w, "%s", e.what)
			}
			if e.kind == "rand" {
				if v, k := e.val.(*SeqV); k && v.single() != nil {
					rnd = append(rnd, v.single())
				}
			}
		}
		c.noPanics(r, what)
		c.understood(r, what)
		if !c.ob(d != nil && len(rnd) == 1, what+": one ephemeral key and one random initialization vector", w, "%d random strings", len(rnd)) {
			return
		}
		c.ob(rnd[0].length() == C(16), what+": the initialization vector has 16 bytes", w, "it has %s", rnd[0].length())
		s2 := *st
		s2.pc = ok
		want := eciesBody(rnd[0], ex, ey, PtMul(d, pt), m, 16-rem%16)
		got := I.bytesOf(&s2, res.v[0], token.NoPos)
		ne := AndNot(ok, I.valEq(&s2, got, mkSeqV(want)))
		c.ob(!feasible(ne), what+": vector, ephemeral key, AES-CBC of the padded text and HMAC of all of it", w, "it is %s instead of %s when %s", got, want, condStr(ne))
		for _, u := range *uses {
			c.ob(u.dir == "encrypt", what+": only encrypts", c.P.pos(u.pos), "decrypts")
		}
	})
}

// decryptOwn decrypts what Encrypt writes.
func (c *Check) decryptOwn(rem int, any bool) {
	what := fmt.Sprintf("Decrypt of an encryption of %s bytes", textLen(rem, any))
	c.sub(what, func() {
		w := c.where(c.btcFn("Decrypt"))
		r, _ := c.eciesRun()
		I, st := r.I, r.st
		x, y := aPoint("ephemeral", 0, 0)
		pt := PtFromXY(x, y)
		d := Sym("d", one, new(big.Int).Sub(hexN, one))
		shared := PtMul(d, pt)
		st.pc = AndNot(AndNot(st.pc, PEq(pt)), PEq(shared))
		m := seqSym("plain", C(0), lenClass(rem, any))
		all := eciesBody(seqSym("iv", C(0), C(16)), x, y, shared, m, 16-rem%16)
		res, o := r.decrypt(c, d, all)
		ok := And(st.pc, nilCond(res.v[1]))
		c.ob(!feasible(AndNot(st.pc, ok)), what+": succeeds", w, "fails when %s", condStr(AndNot(st.pc, ok)))
		c.ob(!feasible(AndNot(st.pc, r.bytesKept(o, all))), what+": the ciphertext is left as it was", w, "it is written to")
		s2 := *st
		s2.pc = ok
		got := I.bytesOf(&s2, res.v[0], token.NoPos)
		ne := AndNot(ok, I.valEq(&s2, got, mkSeqV(m)))
		c.ob(!feasible(ne), what+": returns the plaintext", w, "it is %s when %s", got, condStr(ne))
		c.noPanics(r, what)
		c.understood(r, what)
	})
}

func (r *Run) decrypt(c *Check, d *Poly, in *Seq) (*TupleV, int32) {
	I, st := r.I, r.st
	arg, o := r.bytesArg("ciphertext", in, mkSeq(nil))
	kt := I.P.namedType("btcec", "PrivateKey")
	key := ptrTo(I.newObj(st, kt, r.ecdsaKey(kt, r.curveIface(), d), "param:key", token.NoPos))
	res := r.call(c.btcFn("Decrypt"), key, arg).(*TupleV)
	c.absorb(I)
	return res, o
}

// decryptAny decrypts arbitrary bytes.
func (c *Check) decryptAny(rem int, any bool) {
	what := fmt.Sprintf("Decrypt of any %s bytes", textLen(rem, any))
	c.sub(what, func() {
		w := c.where(c.btcFn("Decrypt"))
		r, uses := c.eciesRun()
		st := r.st
		n := lenClass(rem, any)
		in := seqSym("in", C(0), n)
		d := Sym("d", one, new(big.Int).Sub(hexN, one))
		res, o := r.decrypt(c, d, in)
		ok := And(st.pc, nilCond(res.v[1]))
		none := And(st.pc, nilCond(res.v[0]))
		c.ob(!feasible(And(none, ok)) && !feasible(AndNot(AndNot(st.pc, ok), none)), what+": a plaintext is returned exactly when there is no error", w, "no error %s, no plaintext %s", condStr(ok), condStr(none))
		c.ob(!feasible(AndNot(st.pc, r.bytesKept(o, in))), what+": the ciphertext is left as it was", w, "it is written to")
		c.noPanics(r, what)
		c.understood(r, what)
		if rem < 134 || rem%16 != 118%16 {
			c.ob(!feasible(ok), what+": refused", w, "accepted when %s", condStr(ok))
			c.ob(len(*uses) == 0, what+": nothing is decrypted", w, "decrypts")
			return
		}
		x, y := intOf(subSeq(in, C(20), C(32))), intOf(subSeq(in, C(54), C(32)))
		pt := PtFromXY(x, y)
		k := seqHash("sha512", seqBe(XofP(PtMul(d, pt))), 64)
		mac := seqEq(subSeq(in, Sub(n, C(32)), C(32)), seqMac(subSeq(k, C(32), C(32)), subSeq(in, C(0), Sub(n, C(32)))))
		conds := []struct {
			name string
			c    Bdd
		}{
			{"the curve is secp256k1 with 32-byte coordinates", And(seqEq(subSeq(in, C(16), C(4)), seqConst(eciesHead)), seqEq(subSeq(in, C(52), C(2)), seqConst("\x00\x20")))},
			{"the ephemeral key is on the curve", onCurveEq(x, y)},
			{"the MAC is that of everything before it", mac},
		}
		c.ob(feasible(ok), what+": some ciphertext is accepted", w, "all are refused")
		for _, k := range conds {
			c.ob(!feasibleDeep(AndNot(ok, k.c)), what+": accepted only if "+k.name, w, "accepted when %s", condStr(AndNot(ok, k.c)))
		}
		for _, u := range *uses {
			c.ob(u.dir == "decrypt" && !feasible(AndNot(u.cond, mac)), what+": nothing is decrypted before its MAC is verified", c.P.pos(u.pos), "decrypts when %s", condStr(AndNot(u.cond, mac)))
		}
	})
}

func init() {
	resetHooks = append(resetHooks, func() { cbcOf = map[string]cbcTerm{} })
	register(&checkDef{id: "C29", run: func(c *Check) {
		for i := 0; i < 16; i++ {
			c.encrypt(i, false, 32, 32)
			c.encrypt(i, true, 32, 32)
			c.encrypt(i, true, 31, 31)
			c.decryptOwn(i, false)
			c.decryptOwn(i, true)
		}
		for i := 1; i <= 32; i++ {
			c.encrypt(0, true, i, 33-i)
			c.encrypt(0, true, i, 32)
		}
		for _, n := range []int{0, 1, 16, 85, 86, 118, 133} {
			c.decryptAny(n, false)
		}
		for i := 134; i < 150; i++ {
			c.decryptAny(i, true)
		}
	}})
}

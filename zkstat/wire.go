package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C15: the wire encoding of integers and byte strings ----

func (c *Check) wfn(name string) *ssa.Function {
	f := c.P.fn("wire", name)
	if f == nil {
		panic("function wire." + name + " not found")
	}
	return f
}

// stream is a reader holding s that may deliver it in pieces of any size.
func (r *Run) stream(s *SeqV) (Val, *PtrV) {
	p := r.I.newExt(r.st, &ExtV{kind: "stream", seq: s, n: C(0)}, types.Typ[types.Int], token.NoPos)
	return &IfaceV{[]IfAlt{{c: True, ext: "stream", v: p}}}, p
}

// sink is a writer any of whose writes may fail.
func (r *Run) sink() (Val, *PtrV) {
	p := r.I.newExt(r.st, &ExtV{kind: "faultwriter", seq: mkSeqV(mkSeq(nil)), n: C(0), flag: False}, types.Typ[types.Int], token.NoPos)
	return &IfaceV{[]IfAlt{{c: True, ext: "faultwriter", v: p}}}, p
}

func (r *Run) extOf(p *PtrV) *ExtV { return r.I.extAt(r.st, p, "", token.NoPos) }

// seqSame: under pc the two byte strings are equal.
func seqSame(pc Bdd, a, b *SeqV) (bool, string) {
	for _, x := range a.alts {
		for _, y := range b.alts {
			g := And(pc, And(x.c, y.c))
			if !feasible(g) || !feasibleLin(g) {
				continue
			}
			p, q := x.s.under(g), y.s.under(g)
			if p.key == q.key {
				continue
			}
			if feasible(And(g, Not(EqP(p.length(), q.length())))) {
				return false, fmt.Sprintf("%s instead of %s under %s", p, q, condStr(g))
			}
			n, ok := underCond(p.length(), g).constInt()
			if !ok || n > 64 {
				return false, fmt.Sprintf("%s instead of %s under %s", p, q, condStr(g))
			}
			for i := int64(0); i < n; i++ {
				if !sameUnder(g, byteAt(p, C(i)), byteAt(q, C(i))) {
					return false, fmt.Sprintf("byte %d is %s instead of %s under %s", i, byteAt(p, C(i)), byteAt(q, C(i)), condStr(g))
				}
			}
		}
	}
	return true, ""
}

type wireClass struct {
	mark   string
	w      int
	lo, hi *bigInt
}

// the value classes of the encoding: one byte, or a marker and 2, 4 or 8 little-endian bytes
func wireClasses() []wireClass {
	return []wireClass{
		{"", 1, zero, bi(0xfc)},
		{"\xfd", 2, bi(0xfd), bi(0xffff)},
		{"\xfe", 4, bi(0x10000), bi(0xffffffff)},
		{"\xff", 8, pow2(32), bigSub(pow2(64), one)},
	}
}

func (k wireClass) String() string { return fmt.Sprintf("%s..%s", k.lo, k.hi) }
func (k wireClass) enc(v *Poly) *SeqV {
	return mkSeqV(seqCat(seqConst(k.mark), bytesInt(v, k.w, false)))
}

func (c *Check) understood(r *Run, nm string) {
	for _, e := range r.I.events {
		if e.kind == "unmodelled" {
			c.ob(false, nm+": every operation is understood", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
			return
		}
	}
}

func (r *Run) rest() *SeqV {
	return mkSeqV(seqSym("rest", C(0), Sym("len(rest)", zero, bi(maxLen))))
}

// written is what a call wrote, given that no write failed, with its error guard.
func (c *Check) writeOb(r *Run, nm, w string, res Val, p *PtrV, want *SeqV) {
	e := r.extOf(p)
	errc := Not(nilCond(res))
	fail := And(r.st.pc, e.flag)
	c.ob(!feasible(And(fail, Not(errc))), nm+": a failed write is reported", w, "returns no error under %s", condStr(And(fail, Not(errc))))
	okc := And(r.st.pc, Not(e.flag))
	c.ob(!feasible(And(okc, errc)), nm+": no error without a failed write", w, "error under %s", condStr(And(okc, errc)))
	same, why := seqSame(okc, e.seq, want)
	c.ob(same, nm+": exactly the specified bytes are written", w, "%s", why)
	c.noPanics(r, nm)
	c.understood(r, nm)
}

func (c *Check) wireVarInt() {
	for _, k := range wireClasses() {
		k := k
		val := func() *Poly { return Sym("v", k.lo, k.hi) }
		c.sub("WriteVarInt of "+k.String(), func() {
			r := newRun(c.P, true)
			out, p := r.sink()
			f := c.wfn("WriteVarInt")
			res := r.call(f, out, val())
			c.absorb(r.I)
			c.writeOb(r, "WriteVarInt of "+k.String(), c.where(f), res, p, k.enc(val()))
		})
		c.sub("VarIntSerializeSize of "+k.String(), func() {
			r := newRun(c.P, true)
			f := c.wfn("VarIntSerializeSize")
			n := r.call(f, val()).(*Poly)
			c.absorb(r.I)
			want := C(int64(k.w + len(k.mark)))
			c.ob(implies(True, EqP(n, want)), "VarIntSerializeSize of "+k.String()+" is the number of bytes written", c.where(f), "%s instead of %s", n, want)
		})
		c.sub("ReadVarInt of an encoding of "+k.String(), func() {
			r := newRun(c.P, true)
			f := c.wfn("ReadVarInt")
			in, p := r.stream(catV(True, k.enc(val()), r.rest()))
			res := r.call(f, in).(*TupleV)
			c.absorb(r.I)
			w := c.where(f)
			nm := "ReadVarInt of an encoding of " + k.String()
			ok := And(r.st.pc, nilCond(res.v[1]))
			c.ob(implies(True, ok), nm+": succeeds however the reader delivers the bytes", w, "fails under %s", condStr(Not(ok)))
			got := r.I.asPoly(r.st, res.v[0], types.Typ[types.Uint64])
			c.ob(sameUnder(ok, got, val()), nm+": returns the value", w, "returns %s", got)
			same, why := seqSame(ok, r.extOf(p).seq, r.rest())
			c.ob(same, nm+": consumes the encoding and nothing after it", w, "%s", why)
			c.noPanics(r, nm)
			c.understood(r, nm)
		})
		c.sub("ReadVarInt of a truncated encoding of "+k.String(), func() {
			r := newRun(c.P, true)
			f := c.wfn("ReadVarInt")
			for n := 0; n < k.w+len(k.mark); n++ {
				in, _ := r.stream(seqHead(True, k.enc(val()), C(int64(n))))
				res := r.call(f, in).(*TupleV)
				bad := And(r.st.pc, nilCond(res.v[1]))
				nm := fmt.Sprintf("ReadVarInt of the first %d bytes of an encoding of %s", n, k)
				c.ob(!feasible(bad), nm+" is rejected", c.where(f), "accepted under %s", condStr(bad))
			}
			c.absorb(r.I)
			c.noPanics(r, "ReadVarInt truncated")
		})
		if k.mark == "" {
			continue
		}
		c.sub("ReadVarInt of an over-long encoding, "+fmt.Sprint(k.w)+" bytes", func() {
			r := newRun(c.P, true)
			f := c.wfn("ReadVarInt")
			v := Sym("v", zero, bigSub(k.lo, one))
			in, _ := r.stream(catV(True, k.enc(v), r.rest()))
			res := r.call(f, in).(*TupleV)
			c.absorb(r.I)
			bad := And(r.st.pc, nilCond(res.v[1]))
			c.ob(!feasible(bad), fmt.Sprintf("ReadVarInt: a value below %s in %d bytes is rejected (one encoding per value)", k.lo, k.w), c.where(f), "accepted under %s", condStr(bad))
			c.noPanics(r, "ReadVarInt over-long")
		})
	}
}

func (c *Check) wireVarBytes() {
	for _, k := range wireClasses() {
		k := k
		if k.hi.Cmp(bi(maxLen)) > 0 {
			k.hi = bi(maxLen)
		}
		if k.lo.Cmp(k.hi) > 0 {
			continue
		}
		n := func() *Poly { return Sym("len(b)", k.lo, k.hi) }
		body := func() *SeqV { return mkSeqV(seqSym("b", C(0), n())) }
		max := func() *Poly { return Sym("maxAllowed", zero, bigSub(pow2(32), one)) }
		name := func() Val { return mkSeqV(seqSym("fieldName", C(0), Sym("len(fieldName)", zero, bi(maxLen)))) }
		lab := " of " + k.String() + " bytes"
		c.sub("WriteVarBytes"+lab, func() {
			r := newRun(c.P, true)
			out, p := r.sink()
			f := c.wfn("WriteVarBytes")
			res := r.call(f, out, r.I.newBytes(r.st, body(), token.NoPos))
			c.absorb(r.I)
			c.writeOb(r, "WriteVarBytes"+lab, c.where(f), res, p, catV(True, k.enc(n()), body()))
		})
		c.sub("ReadVarBytes"+lab, func() {
			r := newRun(c.P, true)
			f := c.wfn("ReadVarBytes")
			w := c.where(f)
			in, p := r.stream(catV(True, catV(True, k.enc(n()), body()), r.rest()))
			alloc := False
			r.I.allocHook = func(st *State, pos token.Pos, m *Poly, what string) {
				alloc = Or(alloc, And(st.pc, And(LtP(max(), m), LtP(C(16), m))))
			}
			res := r.call(f, in, max(), name()).(*TupleV)
			c.absorb(r.I)
			nm := "ReadVarBytes" + lab
			ok := And(r.st.pc, nilCond(res.v[1]))
			fits := LeC(Sub(n(), max()))
			c.ob(implies(fits, ok), nm+": bytes within the limit are read", w, "fails under %s", condStr(And(fits, Not(ok))))
			c.ob(!feasible(And(ok, Not(fits))), nm+": bytes beyond the limit are rejected", w, "accepted under %s", condStr(And(ok, Not(fits))))
			c.ob(!feasible(And(alloc, Not(fits))), nm+": nothing is allocated beyond the limit", w, "allocates under %s", condStr(And(alloc, Not(fits))))
			r.st.pc = ok
			same, why := seqSame(ok, r.I.bytesOf(r.st, res.v[0], token.NoPos), body())
			c.ob(same, nm+": the bytes come back", w, "%s", why)
			same, why = seqSame(ok, r.extOf(p).seq, r.rest())
			c.ob(same, nm+": consumes the encoding and nothing after it", w, "%s", why)
			c.noPanics(r, nm)
			c.understood(r, nm)
		})
		c.sub("ReadVarBytes"+lab+" truncated", func() {
			r := newRun(c.P, true)
			f := c.wfn("ReadVarBytes")
			cut := Sym("cut", zero, bi(maxLen))
			r.st.pc = LtP(cut, n())
			in, _ := r.stream(catV(True, k.enc(n()), mkSeqV(seqSym("b", C(0), cut))))
			res := r.call(f, in, max(), name()).(*TupleV)
			c.absorb(r.I)
			bad := And(r.st.pc, nilCond(res.v[1]))
			c.ob(!feasible(bad) || !feasibleLin(bad), "ReadVarBytes"+lab+": fewer bytes than announced are rejected", c.where(f), "accepted under %s", condStr(bad))
			c.noPanics(r, "ReadVarBytes truncated")
		})
	}
	c.sub("ReadVarBytes of an announcement beyond memory", func() {
		r := newRun(c.P, true)
		f := c.wfn("ReadVarBytes")
		k := wireClasses()[3]
		in, _ := r.stream(catV(True, k.enc(Sym("v", k.lo, k.hi)), r.rest()))
		max := Sym("maxAllowed", zero, bigSub(pow2(32), one))
		res := r.call(f, in, max, mkSeqV(seqSym("fieldName", C(0), Sym("len(fieldName)", zero, bi(maxLen))))).(*TupleV)
		c.absorb(r.I)
		bad := And(r.st.pc, nilCond(res.v[1]))
		c.ob(!feasible(bad), "ReadVarBytes: an announced length of 2^32 or more is rejected", c.where(f), "accepted under %s", condStr(bad))
		c.noPanics(r, "ReadVarBytes of a huge announcement")
	})
}

// points and integers on the wire, followed by anything
func (c *Check) wirePrims() {
	c.sub("WriteECPoint / ReadECPoint", func() {
		r := newRun(c.P, true)
		x, y := Sym("x", zero, bigSub(pow2(256), one)), Sym("y", zero, bigSub(pow2(256), one))
		pt := &StructV{f: []Val{r.scalar("x", x), r.scalar("y", y)}}
		out, p := r.sink()
		wf, rf := c.fnOf("WriteECPoint"), c.fnOf("ReadECPoint")
		res := r.call(wf, out, pt)
		e := r.extOf(p)
		errc := Not(nilCond(res))
		c.ob(!feasible(And(r.st.pc, And(e.flag, Not(errc)))), "WriteECPoint: a failed write is reported", c.where(wf), "no error under %s", condStr(And(e.flag, Not(errc))))
		c.ob(!feasible(And(r.st.pc, And(errc, Not(e.flag)))), "WriteECPoint: no error without a failed write", c.where(wf), "error under %s", condStr(And(errc, Not(e.flag))))
		r.st.pc = And(r.st.pc, Not(e.flag))
		in, q := r.stream(catV(r.st.pc, e.seq, r.rest()))
		rr := r.call(rf, in).(*TupleV)
		c.absorb(r.I)
		ok := And(r.st.pc, nilCond(rr.v[1]))
		c.ob(implies(Not(e.flag), ok), "ReadECPoint: a written point is read back", c.where(rf), "fails under %s", condStr(Not(ok)))
		r.st.pc = ok
		pv := rr.v[0].(*StructV)
		gx, gy := r.I.bigAt(r.st, pv.f[0], token.NoPos), r.I.bigAt(r.st, pv.f[1], token.NoPos)
		c.ob(sameUnder(ok, gx, x) && sameUnder(ok, gy, y), "ReadECPoint: the point comes back", c.where(rf), "(%s, %s)", gx, gy)
		same, why := seqSame(ok, r.extOf(q).seq, r.rest())
		c.ob(same, "ReadECPoint: consumes the encoding and nothing after it", c.where(rf), "%s", why)
		c.noPanics(r, "WriteECPoint / ReadECPoint")
		c.understood(r, "WriteECPoint / ReadECPoint")
	})
	c.sub("WriteBigInt / ReadBigInt", func() {
		r := newRun(c.P, true)
		x := Sym("x", bigSub(one, pow2(256)), bigSub(pow2(256), one))
		out, p := r.sink()
		wf, rf := c.fnOf("WriteBigInt"), c.fnOf("ReadBigInt")
		res := r.call(wf, out, r.scalar("x", x))
		e := r.extOf(p)
		errc := Not(nilCond(res))
		c.ob(!feasible(And(r.st.pc, And(e.flag, Not(errc)))), "WriteBigInt: a failed write is reported", c.where(wf), "no error under %s", condStr(And(e.flag, Not(errc))))
		c.ob(!feasible(And(r.st.pc, And(errc, Not(e.flag)))), "WriteBigInt: no error without a failed write", c.where(wf), "error under %s", condStr(And(errc, Not(e.flag))))
		r.st.pc = And(r.st.pc, Not(e.flag))
		in, q := r.stream(catV(r.st.pc, e.seq, r.rest()))
		rr := r.call(rf, in).(*TupleV)
		c.absorb(r.I)
		ok := And(r.st.pc, nilCond(rr.v[1]))
		c.ob(implies(Not(e.flag), ok), "ReadBigInt: a written integer is read back", c.where(rf), "fails under %s", condStr(Not(ok)))
		r.st.pc = ok
		g := r.I.bigAt(r.st, rr.v[0], token.NoPos)
		c.ob(sameUnder(ok, g, x), "ReadBigInt: the integer comes back, sign included", c.where(rf), "%s", g)
		same, why := seqSame(ok, r.extOf(q).seq, r.rest())
		c.ob(same, "ReadBigInt: consumes the encoding and nothing after it", c.where(rf), "%s", why)
		c.noPanics(r, "WriteBigInt / ReadBigInt")
		c.understood(r, "WriteBigInt / ReadBigInt")
	})
}

// wireRandom: RandomUint64 is eight bytes of the system's randomness, or an error.
func (c *Check) wireRandom() {
	c.sub("RandomUint64", func() {
		r := newRun(c.P, true)
		f := c.wfn("RandomUint64")
		w := c.where(f)
		res := r.call(f).(*TupleV)
		c.absorb(r.I)
		got := r.I.asPoly(r.st, res.v[0], types.Typ[types.Uint64])
		errc := Not(nilCond(res.v[1]))
		fail := symCond("randerr#0")
		c.ob(implies(r.st.pc, Iff(fail, errc)), "RandomUint64: fails exactly when the randomness source fails", w, "error guard %s", condStr(errc))
		n := 0
		used := map[string]bool{}
		g := underCond(got, And(r.st.pc, Not(errc)))
		for _, t := range g.t {
			for _, m := range t.m {
				if s := atoms[m.a].String(); !used[s] {
					used[s] = true
					n++
				}
			}
		}
		lo, hi := g.interval()
		c.ob(n == 8 && lo != nil && lo.Sign() == 0 && hi != nil && hi.Cmp(bigSub(pow2(64), one)) == 0, "RandomUint64: every bit comes from the randomness source", w, "value %s", g)
		c.noPanics(r, "RandomUint64")
		c.understood(r, "RandomUint64")
	})
}

func init() {
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.readFull(st, c.args[0], c.args[1], c.sig, c.pos)
	}, "stream.ReadFull")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		e := I.extAt(st, c.args[0], "stream", c.pos)
		l := e.seq.length(st.pc)
		n := I.lenOf(st, c.args[1])
		return I.branch2(st, And(EqP(l, C(0)), Not(EqP(n, C(0)))), func(s *State) Val {
			return tup(C(0), I.errGlobal("io.EOF"))
		}, func(s *State) Val {
			k := Sym(I.freshName("got"), zero, bi(maxLen))
			s.pc = And(s.pc, And(And(LeC(Sub(k, l)), LeC(Sub(k, n))), Or(EqP(n, C(0)), LtP(C(0), k))))
			I.writeBytes(s, c.args[1], seqHead(s.pc, e.seq, k), k, c.pos)
			ne := *e
			ne.seq = seqTail(s.pc, e.seq, k)
			I.store(s, c.args[0], &ne, c.pos)
			return tup(k, nilIface())
		}, c.sig)
	}, "stream.Read")
	register(&checkDef{id: "C15", run: func(c *Check) {
		c.wireVarInt()
		c.wireVarBytes()
		c.wirePrims()
		c.wireRandom()
	}})
}

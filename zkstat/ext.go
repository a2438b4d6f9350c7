package main

// Contracts of the standard-library functions the repository uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
)

var stdSummaries map[string]Summary

func reg(f Summary, names ...string) {
	if stdSummaries == nil {
		stdSummaries = map[string]Summary{}
	}
	for _, n := range names {
		stdSummaries[n] = f
	}
}

func (I *Interp) stdType(pkg, name string) types.Type {
	if p := I.P.pkgs[pkg]; p != nil {
		if o := p.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Int]
}

func (I *Interp) bigT() types.Type { return I.stdType("math/big", "Int") }

func (I *Interp) bigAt(st *State, v Val, pos token.Pos) *Poly {
	switch x := I.load(st, v, I.bigT(), pos).(type) {
	case *BigV:
		return x.p
	}
	return Sym(I.freshName("opqbig"), nil, nil)
}

func (I *Interp) setBig(st *State, z Val, p *Poly, pos token.Pos) Val {
	I.store(st, z, &BigV{p}, pos)
	return z
}

func (I *Interp) newBig(st *State, p *Poly, pos token.Pos) *PtrV {
	return ptrTo(I.newObj(st, I.bigT(), &BigV{p}, "alloc", pos))
}

func (I *Interp) errNew(name string) *IfaceV {
	return &IfaceV{[]IfAlt{{c: True, ext: "error", v: &Opaque{name: I.freshName("err!" + name)}}}}
}

func (I *Interp) errIf(c Bdd, e *IfaceV) *IfaceV {
	return iteVal(c, e, nilIface()).(*IfaceV)
}

func (I *Interp) errGlobal(name string) *IfaceV {
	return &IfaceV{[]IfAlt{{c: True, ext: "error", v: &Opaque{name: name}}}}
}

func cmpP(a, b *Poly) *Poly {
	return IteP(EqP(a, b), C(0), IteP(LtP(a, b), C(-1), C(1)))
}

func tup(v ...Val) Val { return &TupleV{v} }

func modAny(p, m *Poly) *Poly {
	if c, ok := m.isConst(); ok && c.Sign() > 0 {
		return ModP(p, c)
	}
	return App("mod", zero, nil, p, m)
}

func divAny(p, m *Poly) *Poly {
	if c, ok := m.isConst(); ok && c.Sign() > 0 {
		return DivP(p, c)
	}
	return App("div", nil, nil, p, m)
}

// bitOfBig is bit i of a non-negative number.
func bitOfBig(p *Poly, i int) *Poly {
	return ShrP(LowP(p, i+1), i)
}

func bin(f func(a, b *Poly) *Poly) Summary {
	return func(I *Interp, st *State, c *callCtx) Val {
		return I.setBig(st, c.args[0], f(I.bigAt(st, c.args[1], c.pos), I.bigAt(st, c.args[2], c.pos)), c.pos)
	}
}
func una(f func(a *Poly) *Poly) Summary {
	return func(I *Interp, st *State, c *callCtx) Val {
		return I.setBig(st, c.args[0], f(I.bigAt(st, c.args[1], c.pos)), c.pos)
	}
}

func init() { regBig(); regIO(); regMisc(); regCrypto() }

func regBig() {
	const m = "(*math/big.Int)."
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.newBig(st, I.asPoly(st, c.args[0], types.Typ[types.Int64]), c.pos)
	}, "math/big.NewInt")
	reg(bin(Add), m+"Add")
	reg(bin(Sub), m+"Sub")
	reg(bin(Mul), m+"Mul")
	div := func(f func(a, b *Poly) *Poly) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			a, b := I.bigAt(st, c.args[1], c.pos), I.bigAt(st, c.args[2], c.pos)
			I.panicIf(st, EqP(b, C(0)), c.pos, "division by zero")
			return I.setBig(st, c.args[0], f(a, b), c.pos)
		}
	}
	reg(div(modAny), m+"Mod")
	reg(div(divAny), m+"Div")
	trunc := func(f func(a, b *Poly) *Poly, name string) func(a, b *Poly) *Poly {
		return func(a, b *Poly) *Poly {
			if lo, _ := a.interval(); lo != nil && lo.Sign() >= 0 {
				return f(a, b)
			}
			return App(name, nil, nil, a, b)
		}
	}
	reg(div(trunc(modAny, "rem")), m+"Rem")
	reg(div(trunc(divAny, "quo")), m+"Quo")
	dm := func(q, r func(a, b *Poly) *Poly) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			a, b := I.bigAt(st, c.args[1], c.pos), I.bigAt(st, c.args[2], c.pos)
			I.panicIf(st, EqP(b, C(0)), c.pos, "division by zero")
			I.setBig(st, c.args[0], q(a, b), c.pos)
			I.setBig(st, c.args[3], r(a, b), c.pos)
			return tup(c.args[0], c.args[3])
		}
	}
	reg(dm(divAny, modAny), m+"DivMod")
	reg(dm(trunc(divAny, "quo"), trunc(modAny, "rem")), m+"QuoRem")
	reg(una(Neg), m+"Neg")
	reg(una(AbsP), m+"Abs")
	reg(una(func(p *Poly) *Poly { return p }), m+"Set")
	setInt := func(I *Interp, st *State, c *callCtx) Val {
		return I.setBig(st, c.args[0], I.asPoly(st, c.args[1], c.sig.Params().At(0).Type()), c.pos)
	}
	reg(setInt, m+"SetInt64", m+"SetUint64")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		s := I.bytesOf(st, c.args[1], c.pos)
		return I.setBig(st, c.args[0], s.liftP(st.pc, intOf), c.pos)
	}, m+"SetBytes")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		s, ok := c.args[1].(*SeqV)
		b, ok2 := I.asPoly(st, c.args[2], types.Typ[types.Int]).constInt()
		if ok && ok2 && s.single() != nil {
			if bs, isC := constBytes(s.single()); isC {
				n, good := new(big.Int).SetString(bs, int(b))
				if !good {
					return tup(nilPtr(), False)
				}
				I.setBig(st, c.args[0], CB(n), c.pos)
				return tup(c.args[0], True)
			}
		}
		okc := symCond(I.freshName("SetString.ok"))
		I.setBig(st, c.args[0], Sym(I.freshName("SetString"), nil, nil), c.pos)
		return tup(iteVal(okc, c.args[0], nilPtr()), okc)
	}, m+"SetString")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[0], c.pos)
		return I.newBytes(st, mkSeqV(seqBe(p)), c.pos)
	}, m+"Bytes")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[0], c.pos)
		n := I.lenOf(st, c.args[1])
		if k, ok := n.constInt(); ok {
			ap := AbsP(p)
			I.panicIf(st, Not(LtP(ap, CB(pow2(int(8*k))))), c.pos, "math/big: buffer too small to fit value")
			I.writeBytes(st, c.args[1], mkSeqV(seqPad(ap, int(k))), n, c.pos)
		} else {
			nm := I.freshName("fillbytes")
			I.writeBytes(st, c.args[1], mkSeqV(seqSym(nm, C(0), n)), n, c.pos)
		}
		return c.args[1]
	}, m+"FillBytes")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return cmpP(I.bigAt(st, c.args[0], c.pos), I.bigAt(st, c.args[1], c.pos))
	}, m+"Cmp")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return cmpP(AbsP(I.bigAt(st, c.args[0], c.pos)), AbsP(I.bigAt(st, c.args[1], c.pos)))
	}, m+"CmpAbs")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return cmpP(I.bigAt(st, c.args[0], c.pos), C(0))
	}, m+"Sign")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[0], c.pos)
		return bitLenP(p)
	}, m+"BitLen")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[0], c.pos)
		i := I.asPoly(st, c.args[1], types.Typ[types.Int])
		I.panicIf(st, LtP(i, C(0)), c.pos, "negative bit index")
		if k, ok := i.constInt(); ok && k < 4096 {
			if lo, _ := p.interval(); lo != nil && lo.Sign() >= 0 {
				return bitOfBig(p, int(k))
			}
			return App(fmt.Sprintf("bit%d", k), zero, one, p)
		}
		return App("bit", zero, one, p, i)
	}, m+"Bit")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[1], c.pos)
		i := I.asPoly(st, c.args[2], types.Typ[types.Int])
		b := I.asPoly(st, c.args[3], types.Typ[types.Uint])
		if k, ok := i.constInt(); ok && k >= 0 && k < 4096 {
			old := bitOfBig(p, int(k))
			return I.setBig(st, c.args[0], Add(p, Scale(Sub(b, old), pow2(int(k)))), c.pos)
		}
		return I.setBig(st, c.args[0], App("setbit", nil, nil, p, i, b), c.pos)
	}, m+"SetBit")
	sh := func(right bool) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			p := I.bigAt(st, c.args[1], c.pos)
			i := I.asPoly(st, c.args[2], types.Typ[types.Uint])
			if k, ok := i.constInt(); ok && k >= 0 && k < 100000 {
				if right {
					return I.setBig(st, c.args[0], ShrP(p, int(k)), c.pos)
				}
				return I.setBig(st, c.args[0], Scale(p, pow2(int(k))), c.pos)
			}
			nm := "lsh"
			if right {
				nm = "rsh"
			}
			return I.setBig(st, c.args[0], App(nm, nil, nil, p, i), c.pos)
		}
	}
	reg(sh(false), m+"Lsh")
	reg(sh(true), m+"Rsh")
	reg(bin(bitAnd), m+"And")
	reg(bin(bitOr), m+"Or")
	reg(bin(bitXor), m+"Xor")
	toInt := func(I *Interp, st *State, c *callCtx) Val {
		return I.wrap(st, I.bigAt(st, c.args[0], c.pos), c.sig.Results().At(0).Type())
	}
	reg(toInt, m+"Int64", m+"Uint64")
	isIn := func(t types.BasicKind) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			p := I.bigAt(st, c.args[0], c.pos)
			lo, hi := intRange(types.Typ[t])
			return And(LeqP(CB(lo), p), LeqP(p, CB(hi)))
		}
	}
	reg(isIn(types.Int64), m+"IsInt64")
	reg(isIn(types.Uint64), m+"IsUint64")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[1], c.pos)
		e := I.bigAt(st, c.args[2], c.pos)
		mod := C(0)
		if mp, ok := c.args[3].(*PtrV); ok && nilCond(mp) != True {
			mod = I.bigAt(st, mp, c.pos)
		}
		k, ok := e.constInt()
		md, okm := mod.isConst()
		if ok && okm && k >= 0 && k <= 64 {
			r := C(1)
			for j := int64(0); j < k; j++ {
				r = Mul(r, p)
				if md.Sign() > 0 {
					r = ModP(r, md)
				}
			}
			return I.setBig(st, c.args[0], r, c.pos)
		}
		if b, okb := p.isConst(); okb && ok && okm && k >= 0 && k < 100000 {
			return I.setBig(st, c.args[0], CB(new(big.Int).Exp(b, bi(k), md)), c.pos)
		}
		if ec, okc := e.isConst(); okc && okm && md.Sign() > 0 {
			return I.setBig(st, c.args[0], powP(p, ec, md), c.pos)
		}
		var hi *big.Int
		if okm && md.Sign() > 0 {
			hi = new(big.Int).Sub(md, one)
		}
		return I.setBig(st, c.args[0], App("exp", zero, hi, p, e, mod), c.pos)
	}, m+"Exp")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[1], c.pos)
		md := I.bigAt(st, c.args[2], c.pos)
		mc, ok := md.isConst()
		if ok && mc.Sign() > 0 && (mc.Cmp(hexN) == 0 || mc.Cmp(hexP) == 0) {
			z := EqP(ModP(p, mc), C(0))
			if digestOnly(p) {
				z = False // assumption: a SHA-256 digest is not a multiple of the group order
			}
			inv := InvP(p, mc)
			// z is left unchanged and nil returned when no inverse exists
			old := I.bigAt(st, c.args[0], c.pos)
			I.setBig(st, c.args[0], IteP(z, old, inv), c.pos)
			if z == False || !feasible(And(st.pc, z)) {
				return c.args[0]
			}
			return iteVal(z, nilPtr(), c.args[0])
		}
		nc := symCond(I.freshName("noinverse"))
		I.setBig(st, c.args[0], App("modinv", zero, nil, p, md), c.pos)
		return iteVal(nc, nilPtr(), c.args[0])
	}, m+"ModInverse")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[1], c.pos)
		md := I.bigAt(st, c.args[2], c.pos)
		nc := symCond(I.freshName("nosqrt"))
		var hi *big.Int
		if mc, ok := md.isConst(); ok && mc.Sign() > 0 {
			hi = new(big.Int).Sub(mc, one)
		}
		// z is left unchanged and nil returned when there is no root
		I.setBig(st, c.args[0], IteP(nc, I.bigAt(st, c.args[0], c.pos), App("modsqrt", zero, hi, p, md)), c.pos)
		return iteVal(nc, nilPtr(), c.args[0])
	}, m+"ModSqrt")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		n := I.freshName("bigtext")
		return mkSeqV(seqSym(n, C(0), Sym("len("+n+")", zero, bi(maxLen))))
	}, m+"String", m+"Text")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.setBig(st, c.args[0], App("sqrt", zero, nil, I.bigAt(st, c.args[1], c.pos)), c.pos)
	}, m+"Sqrt")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		p := I.bigAt(st, c.args[0], c.pos)
		_ = p
		return symCond(I.freshName("probprime"))
	}, m+"ProbablyPrime")
}

// digestOnly: every guarded alternative of p is a hash digest (possibly reduced).
func digestOnly(p *Poly) bool {
	if inds := p.indicators(); len(inds) > 0 {
		if len(inds) > 6 {
			return false
		}
		return digestOnly(p.setInd(inds[0], true)) && digestOnly(p.setInd(inds[0], false))
	}
	a := p.isAtom()
	if a != nil && a.kind == "mod" {
		a = a.args[0].isAtom()
	}
	return a != nil && a.kind == "int" && a.seq != nil && len(a.seq.s) == 1 && a.seq.s[0].k == "hash"
}

// powP is p^e mod m for a constant exponent too large to expand.
func powP(p *Poly, e, m *big.Int) *Poly {
	hi := new(big.Int).Sub(m, one)
	q := ModP(p, m)
	if c, ok := q.isConst(); ok {
		return CB(new(big.Int).Exp(c, e, m))
	}
	// Fermat inverse
	if e.Cmp(new(big.Int).Sub(m, bi(2))) == 0 && (m.Cmp(hexN) == 0 || m.Cmp(hexP) == 0) {
		return IteP(EqP(q, C(0)), C(0), InvP(q, m))
	}
	return App("pow", zero, hi, q, CB(e), CB(m))
}

func bitLenP(p *Poly) *Poly {
	if c, ok := p.isConst(); ok {
		return C(int64(c.BitLen()))
	}
	lo, hi := p.interval()
	var h *big.Int
	l := zero
	if lo != nil && lo.Sign() > 0 {
		l = bi(int64(lo.BitLen()))
	}
	if lo != nil && hi != nil {
		n := hi.BitLen()
		if k := lo.BitLen(); k > n {
			n = k
		}
		h = bi(int64(n))
		if h.Cmp(l) == 0 {
			return CB(h)
		}
	} else {
		h = bi(maxLen)
	}
	return App("bitlen", l, h, p)
}

func constBytes(s *Seq) (string, bool) {
	var sb strings.Builder
	for _, g := range s.s {
		if g.k != "c" {
			return "", false
		}
		sb.WriteString(g.c)
	}
	return sb.String(), true
}

// ---- buffers, readers, byte order ----

func (I *Interp) extAt(st *State, v Val, kind string, pos token.Pos) *ExtV {
	if e, ok := I.load(st, v, types.Typ[types.Int], pos).(*ExtV); ok {
		if e.name == "adv" {
			// a hostile input: whatever is left of it is arbitrary at every access
			n := I.freshName("in")
			l := Sym("len("+n+")", zero, bi(maxLen))
			I.advLens = append(I.advLens, l)
			ne := *e
			ne.seq = mkSeqV(seqSym(n, C(0), l))
			return &ne
		}
		return e
	}
	n := I.freshName("opqext")
	l := Sym("len("+n+")", zero, bi(maxLen))
	return &ExtV{kind: kind, seq: mkSeqV(seqSym(n, C(0), l)), n: C(0)}
}

func (I *Interp) newExt(st *State, e *ExtV, t types.Type, pos token.Pos) *PtrV {
	return ptrTo(I.newObj(st, t, e, "alloc", pos))
}

func seqTail(pc Bdd, v *SeqV, n *Poly) *SeqV {
	return v.lift(pc, func(c Bdd, s *Seq) *SeqV {
		m := underCond(n, c)
		return mkSeqV(subSeq(s, m, Sub(s.length(), m)))
	})
}

func seqHead(pc Bdd, v *SeqV, n *Poly) *SeqV {
	return v.lift(pc, func(c Bdd, s *Seq) *SeqV { return mkSeqV(subSeq(s, C(0), underCond(n, c))) })
}

func (I *Interp) branch2(st *State, c Bdd, a, b func(s *State) Val, sig *types.Signature) Val {
	fs := []func(*State) Val{a, b}
	cs := []Bdd{c, Not(c)}
	if c == True || !feasible(And(st.pc, Not(c))) {
		return a(st)
	}
	if c == False || !feasible(And(st.pc, c)) {
		return b(st)
	}
	return I.callAlts(st, 2, func(i int) Bdd { return cs[i] }, func(i int, s *State) Val { return fs[i](s) }, sig)
}

// readFull reads exactly len(dst) bytes from the buffer object at ptr.
func (I *Interp) readFull(st *State, ptr, dst Val, sig *types.Signature, pos token.Pos) Val {
	e := I.extAt(st, ptr, "bytes.Buffer", pos)
	n := I.lenOf(st, dst)
	rem := e.seq.length(st.pc)
	short := LtP(rem, n)
	return I.branch2(st, short, func(s *State) Val {
		none := EqP(rem, C(0))
		I.writeBytes(s, dst, e.seq, rem, pos)
		ne := *e
		ne.seq = mkSeqV(mkSeq(nil))
		I.store(s, ptr, &ne, pos)
		return tup(underPc(rem, s.pc), iteVal(none, I.errGlobal("io.EOF"), I.errGlobal("io.ErrUnexpectedEOF")))
	}, func(s *State) Val {
		I.writeBytes(s, dst, seqHead(s.pc, e.seq, n), n, pos)
		ne := *e
		ne.seq = seqTail(s.pc, e.seq, n)
		I.store(s, ptr, &ne, pos)
		return tup(underPc(n, s.pc), nilIface())
	}, sig)
}

func regIO() {
	for _, k := range []string{"bytes.Buffer", "bytes.Reader", "strings.Builder"} {
		k := k
		m := "(*" + k + ")."
		put := func(get func(I *Interp, st *State, c *callCtx) *SeqV, res func(n *Poly) Val) Summary {
			return func(I *Interp, st *State, c *callCtx) Val {
				e := I.extAt(st, c.args[0], k, c.pos)
				s := get(I, st, c)
				ne := *e
				ne.seq = catV(st.pc, e.seq, s)
				I.store(st, c.args[0], &ne, c.pos)
				return res(s.length(st.pc))
			}
		}
		nErr := func(n *Poly) Val { return tup(n, nilIface()) }
		reg(put(func(I *Interp, st *State, c *callCtx) *SeqV { return I.bytesOf(st, c.args[1], c.pos) }, nErr), m+"Write", m+"WriteString")
		reg(put(func(I *Interp, st *State, c *callCtx) *SeqV {
			return mkSeqV(seqByte(I.asPoly(st, c.args[1], types.Typ[types.Uint8])))
		}, func(*Poly) Val { return nilIface() }), m+"WriteByte")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			return I.newBytes(st, I.extAt(st, c.args[0], k, c.pos).seq, c.pos)
		}, m+"Bytes")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			return I.extAt(st, c.args[0], k, c.pos).seq
		}, m+"String")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			return I.extAt(st, c.args[0], k, c.pos).seq.length(st.pc)
		}, m+"Len")
		reg(func(I *Interp, st *State, c *callCtx) Val { return tup() }, m+"Grow")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			e := *I.extAt(st, c.args[0], k, c.pos)
			e.seq = mkSeqV(mkSeq(nil))
			I.store(st, c.args[0], &e, c.pos)
			return tup()
		}, m+"Reset")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			e := *I.extAt(st, c.args[0], k, c.pos)
			n := I.asPoly(st, c.args[1], types.Typ[types.Int])
			l := e.seq.length(st.pc)
			I.panicIf(st, Or(LtP(n, C(0)), LtP(l, n)), c.pos, "bytes.Buffer: truncation out of range")
			e.seq = seqHead(st.pc, e.seq, n)
			I.store(st, c.args[0], &e, c.pos)
			return tup()
		}, m+"Truncate")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			e := *I.extAt(st, c.args[0], k, c.pos)
			n := I.asPoly(st, c.args[1], types.Typ[types.Int])
			l := e.seq.length(st.pc)
			n = IteP(LtP(l, n), l, n)
			h := seqHead(st.pc, e.seq, n)
			e.seq = seqTail(st.pc, e.seq, n)
			I.store(st, c.args[0], &e, c.pos)
			return I.newBytes(st, h, c.pos)
		}, m+"Next")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			e := I.extAt(st, c.args[0], k, c.pos)
			l := e.seq.length(st.pc)
			return I.branch2(st, EqP(l, C(0)), func(s *State) Val {
				return tup(C(0), I.errGlobal("io.EOF"))
			}, func(s *State) Val {
				b := e.seq.liftP(s.pc, func(q *Seq) *Poly { return byteAt(q, C(0)) })
				ne := *e
				ne.seq = seqTail(s.pc, e.seq, C(1))
				I.store(s, c.args[0], &ne, c.pos)
				return tup(b, nilIface())
			}, c.sig)
		}, m+"ReadByte")
		reg(func(I *Interp, st *State, c *callCtx) Val {
			e := I.extAt(st, c.args[0], k, c.pos)
			l := e.seq.length(st.pc)
			n := I.lenOf(st, c.args[1])
			return I.branch2(st, And(EqP(l, C(0)), Not(EqP(n, C(0)))), func(s *State) Val {
				return tup(C(0), I.errGlobal("io.EOF"))
			}, func(s *State) Val {
				k := IteP(LtP(l, n), l, n)
				I.writeBytes(s, c.args[1], seqHead(s.pc, e.seq, k), k, c.pos)
				ne := *e
				ne.seq = seqTail(s.pc, e.seq, k)
				I.store(s, c.args[0], &ne, c.pos)
				return tup(k, nilIface())
			}, c.sig)
		}, m+"Read")
	}
	nb := func(k, tn string) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			s := I.bytesOf(st, c.args[0], c.pos)
			nm := ""
			if I.adversarial {
				nm = "adv"
			}
			return I.newExt(st, &ExtV{kind: k, seq: s, n: C(0), name: nm}, I.stdType("bytes", tn), c.pos)
		}
	}
	reg(nb("bytes.Buffer", "Buffer"), "bytes.NewBuffer", "bytes.NewBufferString")
	reg(nb("bytes.Reader", "Reader"), "bytes.NewReader")

	// a writer any of whose writes may fail
	reg(func(I *Interp, st *State, c *callCtx) Val {
		s := I.bytesOf(st, c.args[1], c.pos)
		fail := symCond(I.freshName("werr"))
		I.event(Event{kind: "fwrite", pos: c.pos, cond: st.pc, what: "write"})
		e := I.extAt(st, c.args[0], "faultwriter", c.pos)
		ne := *e
		ne.seq = iteVal(fail, e.seq, catV(st.pc, e.seq, s)).(*SeqV)
		ne.flag = Or(e.flag, And(fail, st.pc))
		I.store(st, c.args[0], &ne, c.pos)
		// a failed write may have taken nothing, a part, or everything
		full := s.length(st.pc)
		part := IteP(And(symCond(I.freshName("wpart")), LtP(C(0), full)), C(1), C(0))
		return tup(IteP(fail, IteP(symCond(I.freshName("wfull")), full, part), full), I.errIf(fail, I.errGlobal("err!werr")))
	}, "faultwriter.Write")

	readFullS := func(I *Interp, st *State, c *callCtx) Val {
		r, ok := c.args[0].(*IfaceV)
		if !ok {
			I.event(Event{kind: "unmodelled", what: "io.ReadFull on unresolved reader", pos: c.pos, cond: st.pc})
			I.havocArgs(st, c.args[1:], c.pos)
			return I.havocResult(st, c.sig, "ReadFull")
		}
		I.panicIf(st, nilCond(r), c.pos, "nil reader")
		var alts []IfAlt
		for _, a := range r.alts {
			if a.t == nil && a.ext == "" {
				continue
			}
			if len(r.alts) == 1 || feasible(And(st.pc, a.c)) {
				alts = append(alts, a)
			}
		}
		return I.callAlts(st, len(alts), func(i int) Bdd { return alts[i].c }, func(i int, s *State) Val {
			a := alts[i]
			if a.t != nil {
				switch namedKey(deref(a.t)) {
				case "bytes.Buffer", "bytes.Reader":
					return I.readFull(s, a.v, c.args[1], c.sig, c.pos)
				}
			}
			if a.ext == "rand.Reader" {
				return I.randRead(s, c.args[1], c.pos)
			}
			if f, ok := I.sum[a.ext+".ReadFull"]; ok {
				return f(I, s, &callCtx{name: a.ext + ".ReadFull", args: []Val{a.v, c.args[1]}, pos: c.pos, sig: c.sig, instr: c.instr})
			}
			I.event(Event{kind: "unmodelled", what: "io.ReadFull on " + a.ext, pos: c.pos, cond: s.pc})
			I.havocArgs(s, c.args[1:], c.pos)
			return I.havocResult(s, c.sig, "ReadFull")
		}, c.sig)
	}
	reg(readFullS, "io.ReadFull")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return readFullS(I, st, &callCtx{name: "io.ReadFull", args: []Val{c.args[0], c.args[1]}, pos: c.pos, sig: c.sig, instr: c.instr})
	}, "io.ReadAtLeast.full")

	// binary.Write and binary.Read of unsigned integers and byte slices; io.WriteString
	bytesT := types.NewSlice(types.Typ[types.Byte])
	errT := types.Universe.Lookup("error").Type()
	wsig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "p", bytesT)), types.NewTuple(types.NewVar(0, nil, "n", types.Typ[types.Int]), types.NewVar(0, nil, "err", errT)), false)
	width := func(t types.Type) int {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return 1
			case types.Uint16:
				return 2
			case types.Uint32:
				return 4
			case types.Uint64:
				return 8
			}
		}
		return 0
	}
	order := func(v Val) (be, ok bool) {
		iv, k := v.(*IfaceV)
		if !k || len(iv.alts) != 1 {
			return
		}
		n := iv.alts[0].ext
		if iv.alts[0].t != nil {
			n = iv.alts[0].t.String()
		}
		return strings.Contains(strings.ToLower(n), "bigendian"), strings.Contains(strings.ToLower(n), "endian")
	}
	reg(func(I *Interp, st *State, c *callCtx) Val {
		be, ok := order(c.args[1])
		d, k := c.args[2].(*IfaceV)
		if ok && k && len(d.alts) == 1 && d.alts[0].t != nil {
			a := d.alts[0]
			var s *SeqV
			if w := width(a.t); w > 0 {
				s = mkSeqV(bytesInt(I.asPoly(st, a.v, a.t), w, be))
			} else if sl, ok := a.t.Underlying().(*types.Slice); ok && width(sl.Elem()) == 1 {
				s = I.bytesOf(st, a.v, c.pos)
			}
			if s != nil {
				r := I.invokeM(st, wsig, nil, "Write", c.args[0], []Val{I.newBytes(st, s, c.pos)}, c.pos, c.instr)
				return r.(*TupleV).v[1]
			}
		}
		return I.external(st, c.fn, c.name, c.args, c.pos)
	}, "encoding/binary.Write")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		be, ok := order(c.args[1])
		d, k := c.args[2].(*IfaceV)
		if ok && k && len(d.alts) == 1 && d.alts[0].t != nil {
			a := d.alts[0]
			if sl, ok := a.t.Underlying().(*types.Slice); ok && width(sl.Elem()) == 1 {
				r := readFullS(I, st, &callCtx{name: "io.ReadFull", args: []Val{c.args[0], a.v}, pos: c.pos, sig: wsig, instr: c.instr})
				return r.(*TupleV).v[1]
			}
			if pt, ok := a.t.Underlying().(*types.Pointer); ok && width(pt.Elem()) > 0 {
				w := width(pt.Elem())
				buf := I.newBytes(st, mkSeqV(seqConst(strings.Repeat("\x00", w))), c.pos)
				r := readFullS(I, st, &callCtx{name: "io.ReadFull", args: []Val{c.args[0], buf}, pos: c.pos, sig: wsig, instr: c.instr}).(*TupleV).v[1]
				v := I.bytesOf(st, buf, c.pos).liftP(st.pc, func(q *Seq) *Poly { return intBytes(q, w, be) })
				old := I.asPoly(st, I.load(st, a.v, pt.Elem(), c.pos), pt.Elem())
				I.store(st, a.v, IteP(nilCond(r), v, old), c.pos)
				return r
			}
		}
		return I.external(st, c.fn, c.name, c.args, c.pos)
	}, "encoding/binary.Read")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.invokeM(st, wsig, nil, "Write", c.args[0], []Val{I.newBytes(st, I.bytesOf(st, c.args[1], c.pos), c.pos)}, c.pos, c.instr)
	}, "io.WriteString")

	for _, e := range []struct {
		n  string
		be bool
	}{{"littleEndian", false}, {"bigEndian", true}} {
		for _, w := range []int{2, 4, 8} {
			w, e := w, e
			bits := fmt.Sprint(w * 8)
			pre := "(encoding/binary." + e.n + ")."
			opq := "encoding/binary." + strings.ToUpper(e.n[:1]) + e.n[1:]
			get := func(I *Interp, st *State, c *callCtx) Val {
				if sl, ok := c.args[1].(*SliceV); ok && len(sl.alts) == 1 {
					// only the first bytes are looked at
					a := sl.alts[0]
					if n, ok := a.len.constInt(); ok && n > int64(w) && a.obj != 0 {
						a.len = C(int64(w))
						c.args[1] = &SliceV{[]SliceAlt{a}}
					}
				}
				s := I.bytesOf(st, c.args[1], c.pos)
				I.panicIf(st, LtP(s.length(st.pc), C(int64(w))), c.pos, "index out of range")
				return s.liftP(st.pc, func(q *Seq) *Poly { return intBytes(q, w, e.be) })
			}
			put := func(I *Interp, st *State, c *callCtx) Val {
				I.panicIf(st, LtP(I.lenOf(st, c.args[1]), C(int64(w))), c.pos, "index out of range")
				v := I.asPoly(st, c.args[2], nil)
				I.writeBytes(st, c.args[1], mkSeqV(bytesInt(v, w, e.be)), C(int64(w)), c.pos)
				return tup()
			}
			app := func(I *Interp, st *State, c *callCtx) Val {
				v := I.asPoly(st, c.args[2], nil)
				if sl, ok := c.args[1].(*SliceV); ok {
					return I.appendBytes(st, sl, mkSeqV(bytesInt(v, w, e.be)), c.pos)
				}
				return I.havocResult(st, c.sig, "AppendUint")
			}
			reg(get, pre+"Uint"+bits, opq+".Uint"+bits)
			reg(put, pre+"PutUint"+bits, opq+".PutUint"+bits)
			reg(app, pre+"AppendUint"+bits, opq+".AppendUint"+bits)
		}
	}
}

func intBytes(q *Seq, w int, be bool) *Poly {
	r := C(0)
	for i := 0; i < w; i++ {
		sh := 8 * i
		if be {
			sh = 8 * (w - 1 - i)
		}
		r = Add(r, Scale(byteAt(q, C(int64(i))), pow2(sh)))
	}
	return r
}

func bytesInt(v *Poly, w int, be bool) *Seq {
	var bs []*Poly
	for i := 0; i < w; i++ {
		k := i
		if be {
			k = w - 1 - i
		}
		bs = append(bs, LowP(ShrP(v, 8*k), 8))
	}
	return fromBytes(bs)
}

// ---- misc ----

func regMisc() {
	errS := func(I *Interp, st *State, c *callCtx) Val { return I.errNew("E") }
	reg(errS, "fmt.Errorf", "errors.New")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		n := I.freshName("text")
		return mkSeqV(seqSym(n, C(0), Sym("len("+n+")", zero, bi(maxLen))))
	}, "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "encoding/hex.EncodeToString", "strconv.Itoa")
	nop := func(I *Interp, st *State, c *callCtx) Val {
		if c.sig.Results().Len() == 0 {
			return tup()
		}
		return I.havocResult(st, c.sig, "print")
	}
	reg(nop, "log.Printf", "log.Println", "log.Print", "log.SetFlags", "fmt.Printf", "fmt.Println", "fmt.Print", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "flag.Parse")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		o := I.newObj(st, types.Typ[types.Bool], symCond("flag.Bool"), "global:flag", c.pos)
		return ptrTo(o)
	}, "flag.Bool")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		s, ok := c.args[0].(*SeqV)
		if ok && s.single() != nil {
			if h, isC := constBytes(s.single()); isC {
				n := len(h) / 2
				bs := make([]byte, n)
				for i := 0; i < n; i++ {
					if _, err := fmt.Sscanf(h[2*i:2*i+2], "%02x", &bs[i]); err != nil {
						return tup(I.newBytes(st, mkSeqV(mkSeq(nil)), c.pos), I.errNew("hex"))
					}
				}
				return tup(I.newBytes(st, mkSeqV(seqConst(string(bs))), c.pos), nilIface())
			}
		}
		return I.havocResult(st, c.sig, "hex")
	}, "encoding/hex.DecodeString")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.seqEqV(st, I.bytesOf(st, c.args[0], c.pos), I.bytesOf(st, c.args[1], c.pos))
	}, "bytes.Equal", "crypto/hmac.Equal")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return Ind(I.seqEqV(st, I.bytesOf(st, c.args[0], c.pos), I.bytesOf(st, c.args[1], c.pos)))
	}, "crypto/subtle.ConstantTimeCompare")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		eq := I.seqEqV(st, I.bytesOf(st, c.args[0], c.pos), I.bytesOf(st, c.args[1], c.pos))
		return IteP(eq, C(0), IteP(symCond(I.freshName("bytescmp")), C(-1), C(1)))
	}, "bytes.Compare")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		es, ok := I.elemsOf(st, c.args[0], c.pos)
		if !ok {
			return I.havocResult(st, c.sig, "Join")
		}
		sep := I.bytesOf(st, c.args[1], c.pos)
		out := mkSeqV(mkSeq(nil))
		for i, e := range es {
			if i > 0 {
				out = catV(st.pc, out, sep)
			}
			out = catV(st.pc, out, I.bytesOf(st, e, c.pos))
		}
		return I.newBytes(st, out, c.pos)
	}, "bytes.Join")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.newBytes(st, I.bytesOf(st, c.args[0], c.pos), c.pos)
	}, "bytes.Clone")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		s := I.bytesOf(st, c.args[0], c.pos)
		n := I.asPoly(st, c.args[1], types.Typ[types.Int])
		I.panicIf(st, LtP(n, C(0)), c.pos, "bytes: negative Repeat count")
		if q := s.single(); q != nil {
			if l, ok := q.length().constInt(); ok && l == 1 {
				return I.newBytes(st, mkSeqV(seqFill(byteAt(q, C(0)), n)), c.pos)
			}
			if k, ok := n.constInt(); ok && k < 1024 {
				r := mkSeq(nil)
				for i := int64(0); i < k; i++ {
					r = seqCat(r, q)
				}
				return I.newBytes(st, mkSeqV(r), c.pos)
			}
		}
		return I.havocResult(st, c.sig, "Repeat")
	}, "bytes.Repeat")
	// sync
	wg := func(f func(I *Interp, st *State, c *callCtx, e *ExtV) *ExtV) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			e := I.extAt(st, c.args[0], "sync.WaitGroup", c.pos)
			ne := f(I, st, c, e)
			if ne != nil {
				sv := I.logAcc
				I.logAcc = false
				I.store(st, c.args[0], ne, c.pos)
				I.logAcc = sv
			}
			return tup()
		}
	}
	reg(wg(func(I *Interp, st *State, c *callCtx, e *ExtV) *ExtV {
		ne := *e
		ne.n = Add(e.n, I.asPoly(st, c.args[1], types.Typ[types.Int]))
		I.panicIf(st, LtP(ne.n, C(0)), c.pos, "sync: negative WaitGroup counter")
		I.event(Event{kind: "wgadd", pos: c.pos, cond: st.pc})
		return &ne
	}), "(*sync.WaitGroup).Add")
	reg(wg(func(I *Interp, st *State, c *callCtx, e *ExtV) *ExtV {
		ne := *e
		ne.n = Sub(e.n, C(1))
		I.panicIf(st, LtP(ne.n, C(0)), c.pos, "sync: negative WaitGroup counter")
		I.clk++
		ne.vals = append(append([]Val{}, e.vals...), newMsg(nil, st.pc, I.gor, I.clk))
		return &ne
	}), "(*sync.WaitGroup).Done")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		for tries := 0; ; tries++ {
			e := I.extAt(st, c.args[0], "sync.WaitGroup", c.pos)
			z := EqP(e.n, C(0))
			if z == True || implies(st.pc, z) {
				I.clk++
				for _, v := range e.vals {
					m, ok := v.(*chanMsg)
					if ok && m.gor > 0 && m.gor <= len(I.gors) && m.gor != I.gor && I.suppress == 0 {
						I.gors[m.gor-1].joined(m, I.clk, I.gor, st.pc)
					}
				}
				return tup()
			}
			if tries < 4 && I.gor == 0 && I.runPending(st) {
				continue
			}
			if I.gor != 0 {
				panic(blocked{"wait"})
			}
			I.event(Event{kind: "deadlock", what: "WaitGroup.Wait may block forever", pos: c.pos, cond: And(st.pc, Not(z))})
			st.pc = And(st.pc, z)
			return tup()
		}
	}, "(*sync.WaitGroup).Wait")
	lock := func(I *Interp, st *State, c *callCtx) Val {
		I.locks = append(append([]string{}, I.locks...), lockKey(c.args[0]))
		return tup()
	}
	unlock := func(I *Interp, st *State, c *callCtx) Val {
		k := lockKey(c.args[0])
		for i := len(I.locks) - 1; i >= 0; i-- {
			if I.locks[i] == k {
				I.locks = append(append([]string{}, I.locks[:i]...), I.locks[i+1:]...)
				return tup()
			}
		}
		I.event(Event{kind: "panic", what: "unlock of unlocked mutex", pos: c.pos, cond: st.pc})
		return tup()
	}
	reg(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		e := I.extAt(st, c.args[0], "sync.Once", c.pos)
		if e.name == "done" {
			return tup()
		}
		ne := *e
		ne.name = "done"
		if f, ok := c.args[1].(*FuncV); ok && len(f.alts) == 1 && f.alts[0].fn != nil {
			I.callFn(st, f.alts[0].fn, nil, f.alts[0].binds, c.pos, c.instr)
		}
		I.store(st, c.args[0], &ne, c.pos)
		return tup()
	}, "(*sync.Once).Do")
}

func lockKey(v Val) string {
	if p, ok := v.(*PtrV); ok && len(p.alts) == 1 {
		return fmt.Sprintf("%d%s", p.alts[0].obj, pathKey(p.alts[0].path))
	}
	return "?"
}

func (I *Interp) seqEqV(st *State, a, b *SeqV) Bdd { return I.valEq(st, a, b) }

// ---- crypto ----

func (I *Interp) isRandReader(st *State, v Val) bool {
	r, ok := v.(*IfaceV)
	if !ok {
		return false
	}
	for _, a := range r.alts {
		if a.ext != "rand.Reader" && (len(r.alts) == 1 || feasible(And(st.pc, a.c))) {
			return false
		}
	}
	return true
}

func (I *Interp) randSym(st *State, max *Poly, pos token.Pos) (*Poly, Bdd) {
	k := I.randN
	I.randN++
	var hi *big.Int
	if m, ok := max.isConst(); ok {
		hi = new(big.Int).Sub(m, one)
	}
	r := Sym(fmt.Sprintf("rand#%d", k), zero, hi)
	fail := False
	if !I.noRandErr && (I.randErrOnly < 0 && I.randErrIn == nil || I.randErrOnly == k || I.randErrIn != nil && I.randErrIn(k)) {
		fail = symCond(fmt.Sprintf("randerr#%d", k))
	}
	return r, fail
}

func (I *Interp) randRead(st *State, dst Val, pos token.Pos) Val {
	k := I.randN
	I.randN++
	n := I.lenOf(st, dst)
	fail := False
	if !I.noRandErr && (I.randErrOnly < 0 && I.randErrIn == nil || I.randErrOnly == k || I.randErrIn != nil && I.randErrIn(k)) {
		fail = symCond(fmt.Sprintf("randerr#%d", k))
	}
	nm := fmt.Sprintf("randbytes#%d", k)
	I.writeBytes(st, dst, mkSeqV(seqSym(nm, C(0), n)), n, pos)
	I.event(Event{kind: "rand", what: nm, pos: pos, cond: st.pc, val: mkSeqV(seqSym(nm, C(0), n))})
	// a failed read may have read nothing or a part
	part := IteP(And(symCond(I.freshName("rpart")), LtP(C(1), n)), C(1), C(0))
	return tup(IteP(fail, part, n), I.errIf(fail, I.errGlobal("err!rand")))
}

func (I *Interp) hashNew(st *State, kind, name string, key *SeqV, pos token.Pos) Val {
	e := &ExtV{kind: "hash", name: name, seq: mkSeqV(mkSeq(nil)), n: C(0)}
	if key != nil {
		e.vals = []Val{key}
	}
	o := I.newObj(st, types.Typ[types.Int], e, "alloc", pos)
	return &IfaceV{[]IfAlt{{c: True, ext: "hash.Hash", v: ptrTo(o)}}}
}

func (I *Interp) digest(st *State, e *ExtV) *SeqV {
	switch e.name {
	case "hmac256":
		key := e.vals[0].(*SeqV)
		return key.lift(st.pc, func(c Bdd, k *Seq) *SeqV {
			return e.seq.lift(And(st.pc, c), func(_ Bdd, q *Seq) *SeqV {
				return mkSeqV(seqHash("hmac256", seqCat(k, seqConst("|hmac|"), q), 32))
			})
		})
	}
	n := 32
	if e.name == "sha512" {
		n = 64
	}
	return e.seq.lift(st.pc, func(_ Bdd, q *Seq) *SeqV { return mkSeqV(seqHash(e.name, q, n)) })
}

func regCrypto() {
	reg(func(I *Interp, st *State, c *callCtx) Val {
		max := I.bigAt(st, c.args[1], c.pos)
		I.panicIf(st, LeqP(max, C(0)), c.pos, "crypto/rand: argument to Int is <= 0")
		if !I.isRandReader(st, c.args[0]) {
			I.event(Event{kind: "badrand", what: "rand.Int from a reader other than crypto/rand.Reader", pos: c.pos, cond: st.pc})
		}
		r, fail := I.randSym(st, max, c.pos)
		I.event(Event{kind: "rand", what: r.String(), pos: c.pos, cond: st.pc, val: &BigV{r}, obj: 0})
		if m, ok := max.isConst(); !ok || m.Cmp(hexN) != 0 {
			I.event(Event{kind: "randmax", what: "rand.Int bound is " + max.String(), pos: c.pos, cond: st.pc, val: &BigV{max}})
		}
		p := I.newBig(st, r, c.pos)
		return tup(iteVal(fail, nilPtr(), p), I.errIf(fail, I.errGlobal("err!rand")))
	}, "crypto/rand.Int")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.randRead(st, c.args[0], c.pos)
	}, "crypto/rand.Read")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		return I.randRead(st, c.args[1], c.pos)
	}, "rand.Reader.Read")
	reg(func(I *Interp, st *State, c *callCtx) Val { return I.hashNew(st, "hash", "sha256", nil, c.pos) }, "crypto/sha256.New")
	reg(func(I *Interp, st *State, c *callCtx) Val { return I.hashNew(st, "hash", "sha512", nil, c.pos) }, "crypto/sha512.New")
	sum := func(name string, n int) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			s := I.bytesOf(st, c.args[0], c.pos)
			return s.lift(st.pc, func(_ Bdd, q *Seq) *SeqV { return mkSeqV(seqHash(name, q, n)) })
		}
	}
	reg(sum("sha256", 32), "crypto/sha256.Sum256")
	reg(sum("sha512", 64), "crypto/sha512.Sum512")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		key := I.bytesOf(st, c.args[1], c.pos)
		f, ok := c.args[0].(*FuncV)
		name := "hmac?"
		if ok && len(f.alts) == 1 && f.alts[0].fn != nil && f.alts[0].fn.String() == "crypto/sha256.New" {
			name = "hmac256"
		} else {
			I.event(Event{kind: "unmodelled", what: "hmac.New with unknown hash", pos: c.pos, cond: st.pc})
			name = "hmac256"
			key = mkSeqV(seqSym(I.freshName("hmackey"), C(0), C(32)))
		}
		return I.hashNew(st, "hash", name, key, c.pos)
	}, "crypto/hmac.New")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		e := I.extAt(st, c.args[0], "hash", c.pos)
		s := I.bytesOf(st, c.args[1], c.pos)
		ne := *e
		ne.seq = catV(st.pc, e.seq, s)
		if os.Getenv("ZK_W") != "" {
			fmt.Fprintln(os.Stderr, I.P.pos(c.pos), len(ne.seq.alts), s.String())
		}
		I.store(st, c.args[0], &ne, c.pos)
		return tup(s.length(st.pc), nilIface())
	}, "hash.Hash.Write")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		e := I.extAt(st, c.args[0], "hash", c.pos)
		d := I.digest(st, e)
		sl, ok := c.args[1].(*SliceV)
		if !ok {
			return I.newBytes(st, d, c.pos)
		}
		if nilCond(sl) == True {
			return I.newBytes(st, d, c.pos)
		}
		return I.appendBytes(st, sl, d, c.pos)
	}, "hash.Hash.Sum")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		e := *I.extAt(st, c.args[0], "hash", c.pos)
		e.seq = mkSeqV(mkSeq(nil))
		I.store(st, c.args[0], &e, c.pos)
		return tup()
	}, "hash.Hash.Reset")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		if I.extAt(st, c.args[0], "hash", c.pos).name == "sha512" {
			return C(64)
		}
		return C(32)
	}, "hash.Hash.Size")
	reg(func(I *Interp, st *State, c *callCtx) Val {
		if I.extAt(st, c.args[0], "hash", c.pos).name == "sha512" {
			return C(128)
		}
		return C(64)
	}, "hash.Hash.BlockSize")
}

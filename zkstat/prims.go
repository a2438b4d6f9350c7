package main

// The point primitives: their bodies are checked against the contracts the other checks use.

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Check) zmethod(name string) *ssa.Function {
	f := c.P.method("", "ZKPCurveParams", name)
	if f == nil {
		panic("method ZKPCurveParams." + name + " not found")
	}
	return f
}

func (r *Run) ptOf(v Val) *Pt {
	s, ok := v.(*StructV)
	if !ok || len(s.f) != 2 {
		panic(fmt.Sprintf("not a point: %T", v))
	}
	if nilCond(s.f[0]) != False && feasible(And(r.st.pc, nilCond(s.f[0]))) || nilCond(s.f[1]) != False && feasible(And(r.st.pc, nilCond(s.f[1]))) {
		panic("point with nil coordinate")
	}
	return curvePt(r.I, r.st, s.f[0], s.f[1], token.NoPos)
}

// checkPrims establishes the contracts of Mult, Add, Sub, Neg and Equal from their bodies.
func (c *Check) checkPrims() {
	P, Q := func() *Pt { return PtSym("P") }, func() *Pt { return PtSym("Q") }
	s := func() *Poly { return scalarSym("s") }
	type tc struct {
		fn, name string
		args     func(r *Run) []Val
		want     func() *Pt
	}
	var ts []tc
	for _, p := range []struct {
		n string
		f func() *Pt
	}{{"P", P}, {"G", G}, {"H", H}, {"the identity", PtZero}} {
		p := p
		ts = append(ts, tc{"Mult", "Mult(" + p.n + ", s) = s·" + p.n, func(r *Run) []Val { return []Val{r.point("P", p.f()), r.scalar("s", s())} }, func() *Pt { return lc(s(), p.f()) }})
		ts = append(ts, tc{"Neg", "Neg(" + p.n + ")", func(r *Run) []Val { return []Val{r.point("P", p.f())} }, func() *Pt { return PtNeg(p.f()) }})
	}
	pairs := []struct {
		n    string
		a, b func() *Pt
	}{{"P, Q", P, Q}, {"O, Q", PtZero, Q}, {"P, O", P, PtZero}, {"O, O", PtZero, PtZero}, {"P, P", P, P}, {"P, −P", P, func() *Pt { return PtNeg(P()) }}, {"G, H", G, H}}
	for _, q := range pairs {
		q := q
		a := func(r *Run) []Val { return []Val{r.point("P", q.a()), r.point("Q", q.b())} }
		ts = append(ts, tc{"Add", "Add(" + q.n + ") is the sum", a, func() *Pt { return PtAdd(q.a(), q.b()) }})
		ts = append(ts, tc{"Sub", "Sub(" + q.n + ") is the difference", a, func() *Pt { return PtSub(q.a(), q.b()) }})
	}
	for _, t := range ts {
		t := t
		c.sub(t.name, func() {
			fn := c.zmethod(t.fn)
			r := newRun(c.P, false)
			v := r.call(fn, append([]Val{r.params()}, t.args(r)...)...)
			c.absorb(r.I)
			ok, why := ptEqualUnder(r.st.pc, r.ptOf(v), t.want())
			c.ob(ok && feasible(r.st.pc), t.name, c.where(fn), "%s", why)
			c.noPanics(r, t.name)
		})
	}
	c.checkEqual()
}

func (c *Check) checkEqual() {
	c.sub("Equal", func() {
		fn := c.P.method("", "ECPoint", "Equal")
		if fn == nil {
			panic("ECPoint.Equal not found")
		}
		r := newRun(c.P, false)
		raw := func(n string) (Val, *Poly, *Poly) {
			x, y := scalarSym(n+".x"), scalarSym(n+".y")
			return &StructV{[]Val{r.scalar(n, x), r.scalar(n, y)}}, x, y
		}
		a, ax, ay := raw("p")
		b, bx, by := raw("q")
		v, ok := r.call(fn, a, b).(Bdd)
		c.absorb(r.I)
		want := And(EqP(ax, bx), EqP(ay, by))
		w := c.where(fn)
		c.ob(ok && r.st.pc == True && impliesDeep(v, want), "Equal is true only when both coordinates agree", w, "true under %s", condStr(And(v, Not(want))))
		c.ob(ok && impliesDeep(want, v), "Equal is true whenever both coordinates agree", w, "false under %s", condStr(And(want, Not(v))))
		c.noPanics(r, "Equal")
	})
	c.sub("Equal on curve points", func() {
		fn := c.P.method("", "ECPoint", "Equal")
		r := newRun(c.P, false)
		v, ok := r.call(fn, r.point("p", PtSym("P")), r.point("q", PtSym("Q"))).(Bdd)
		want := PEq(PtSub(PtSym("P"), PtSym("Q")))
		c.ob(ok && impliesDeep(v, want) && impliesDeep(want, v), "Equal on curve points is group equality", c.where(fn), "differs under %s", condStr(Xor(v, want)))
	})
	c.sub("Equal with the identity", func() {
		fn := c.P.method("", "ECPoint", "Equal")
		r := newRun(c.P, false)
		v, ok := r.call(fn, r.point("p", PtSym("P")), r.point("q", PtZero())).(Bdd)
		want := PEq(PtSym("P"))
		c.ob(ok && impliesDeep(v, want) && impliesDeep(want, v), "Equal against the identity is exact", c.where(fn), "differs under %s", condStr(Xor(v, want)))
	})
}

func (c *Check) checkCommit() {
	v, rr := func() *Poly { return scalarSym("v") }, func() *Poly { return scalarSym("r") }
	ptFn := func(name string, args func(r *Run) []Val, want func() *Pt) {
		c.sub(name, func() {
			fn := c.fnOf(name)
			r := newRun(c.P, true)
			res := r.call(fn, append([]Val{r.params()}, args(r)...)...)
			c.absorb(r.I)
			ok, why := ptEqualUnder(r.st.pc, r.ptOf(res), want())
			c.ob(ok, name+" computes its commitment", c.where(fn), "%s", why)
			c.noPanics(r, name)
		})
	}
	ptFn("PedCommitR", func(r *Run) []Val { return []Val{r.scalar("v", v()), r.scalar("r", rr())} }, func() *Pt { return lc(v(), G(), rr(), H()) })
	ptFn("CommitR", func(r *Run) []Val { return []Val{r.point("pk", PtSym("PK")), r.scalar("r", rr())} }, func() *Pt { return lc(rr(), PtSym("PK")) })
	boolFn := func(name string, args func(r *Run) []Val, want func() *Pt) {
		c.sub(name, func() {
			fn := c.fnOf(name)
			r := newRun(c.P, true)
			b, ok := r.call(fn, append([]Val{r.params()}, args(r)...)...).(Bdd)
			c.absorb(r.I)
			w := PEq(want())
			c.ob(ok && implies(b, w), name+" accepts only a correct opening", c.where(fn), "accepts under %s", condStr(And(b, Not(w))))
			c.ob(ok && implies(w, b), name+" accepts every correct opening", c.where(fn), "rejects under %s", condStr(And(w, Not(b))))
			c.noPanics(r, name)
		})
	}
	boolFn("Open", func(r *Run) []Val {
		return []Val{r.scalar("v", v()), r.scalar("r", rr()), r.point("comm", PtSym("comm"))}
	}, func() *Pt { return lc(v(), G(), rr(), H(), -1, PtSym("comm")) })
	boolFn("VerifyR", func(r *Run) []Val {
		return []Val{r.point("rt", PtSym("rt")), r.point("pk", PtSym("PK")), r.scalar("r", rr())}
	}, func() *Pt { return lc(rr(), PtSym("PK"), -1, PtSym("rt")) })
	c.sub("PedCommit", func() {
		fn := c.fnOf("PedCommit")
		r := newRun(c.P, true)
		t := r.call(fn, r.params(), r.scalar("v", v())).(*TupleV)
		c.absorb(r.I)
		en := nilCond(t.v[2])
		r.st.pc = And(r.st.pc, en)
		bl := r.I.bigAt(r.st, t.v[1], token.NoPos)
		ok, why := ptEqualUnder(r.st.pc, r.ptOf(t.v[0]), lc(v(), G(), bl, H()))
		c.ob(ok, "PedCommit returns value·G + r·H with the r it returns", c.where(fn), "%s", why)
		c.ob(freshNonce(bl) && within(bl, zero, bigSub(hexN, one)), "PedCommit's blinding is a fresh uniform scalar", c.where(fn), "blinding is %s", bl)
		c.ob(onlyErrRand(en), "PedCommit fails only when randomness fails", c.where(fn), "error under %s", condStr(Not(en)))
		c.randRules(r, "PedCommit")
	})
	c.sub("KeyGen", func() {
		fn := c.fnOf("KeyGen")
		r := newRun(c.P, true)
		z := r.params().(*StructV)
		t := r.call(fn, z.f[0], r.point("base", PtSym("Base"))).(*TupleV)
		c.absorb(r.I)
		sk := r.I.bigAt(r.st, t.v[1], token.NoPos)
		ok, why := ptEqualUnder(r.st.pc, r.ptOf(t.v[0]), lc(sk, PtSym("Base")))
		c.ob(ok, "KeyGen returns pk = sk·base", c.where(fn), "%s", why)
		c.ob(freshNonce(sk) && within(sk, zero, bigSub(hexN, one)), "KeyGen's secret key is a fresh uniform scalar", c.where(fn), "secret key is %s", sk)
		c.randRules(r, "KeyGen")
	})
	c.sub("GenerateChallenge", func() {
		fn := c.fnOf("GenerateChallenge")
		for _, n := range []int{0, 1, 2, 7} {
			r := newRun(c.P, true)
			arr := &ArrV{}
			var segs []*Seq
			for i := 0; i < n; i++ {
				q := seqSym(fmt.Sprintf("in%d", i), C(0), Sym(fmt.Sprintf("len(in%d)", i), zero, bi(maxLen)))
				segs = append(segs, q)
				arr.e = append(arr.e, r.I.newBytes(r.st, mkSeqV(q), token.NoPos))
			}
			o := r.I.newObj(r.st, fn.Signature.Params().At(1).Type(), arr, "param:arr", token.NoPos)
			sl := &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: C(int64(n)), cap: C(int64(n))}}}
			v := r.call(fn, r.params(), sl)
			c.absorb(r.I)
			got := r.I.bigAt(r.st, v, token.NoPos)
			want := ModP(intOf(seqHash("sha256", seqCat(segs...), 32)), hexN)
			c.ob(got == want, fmt.Sprintf("GenerateChallenge of %d inputs is SHA-256 of their concatenation reduced mod N", n), c.where(fn), "got %s", got)
		}
	})
}

func bigSub(a, b bigPtr) bigPtr { return new(bigInt).Sub(a, b) }

func freshNonce(p *Poly) bool {
	a := p.isAtom()
	return a != nil && a.kind == "sym" && strings.HasPrefix(a.name, "rand#")
}

// onlyErrRand: the failure condition mentions only randomness failures.
func onlyErrRand(en Bdd) bool {
	for _, v := range support(en) {
		if !strings.HasPrefix(B.vars[v].name, "randerr#") {
			return false
		}
	}
	return true
}

// randRules: every draw is crypto/rand over [0, N).
func (c *Check) randRules(r *Run, what string) {
	n := 0
	for _, e := range r.I.events {
		switch e.kind {
		case "badrand":
			c.ob(false, what+": nonces come from crypto/rand", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
		case "randmax":
			c.ob(false, what+": nonces are uniform over the scalar field", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
		case "rand":
			n++
			c.ob(true, what+": nonce drawn from crypto/rand over [0, N)", c.P.pos(e.pos)+" "+e.fn, "")
		}
	}
	c.ob(n > 0, what+": draws randomness", what, "no randomness is drawn")
}

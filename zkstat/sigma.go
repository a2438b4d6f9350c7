package main

// Declarative description of the proof systems: how an arbitrary proof and
// statement look, what acceptance must imply, and how an honest prover is run.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type stmt struct {
	args  []Val          // verifier arguments after zkpcp
	pts   map[string]*Pt // statement points by name
	order []string
}

type sigma struct {
	typ     string
	prover  string
	stmtPts []string // verifier point arguments in order
	// goals over proof fields and statement points
	goals  func(p *pf, s map[string]*Pt) []goal
	bind   func(p *pf, s map[string]*Pt) []binding
	honest []honest
	// refusal: prover inputs with generic points; rel lists what success must imply
	refuse []refusal
}

type goal struct {
	name string
	pt   *Pt
	sc   *Poly
}

// binding: the scalar ch must be a hash of an unambiguous encoding of all pts.
type binding struct {
	name string
	ch   *Poly
	pts  map[string]*Pt
}

type honest struct {
	name   string
	assume func() Bdd
	build  func(r *Run) (proverArgs []Val, verifyPts []*Pt)
	pick   func(v Val) Val // selects the proof from prover results when not element 0
}

type refusal struct {
	name  string
	build func(r *Run) (proverArgs []Val)
	pc    func() Bdd
	goals func() []goal // nil: the prover must refuse always
	conds func() []condGoal
}
type condGoal struct {
	name string
	c    Bdd
}

// pf gives symbolic access to the fields of the proof "proof".
type pf struct {
	t     *types.Struct
	name  string
	names []string
	c     *Check
}

func (c *Check) proofFields(typ, name string) *pf {
	t := c.P.namedType("", typ)
	if t == nil {
		panic("type " + typ + " not found")
	}
	s := t.Underlying().(*types.Struct)
	return &pf{t: s, name: name, c: c}
}

// fieldIndex finds a field by (case-insensitive) name, or else by its ordinal among the fields.
func fieldIndex(s *types.Struct, name string, ord int) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if strings.EqualFold(s.Field(i).Name(), name) {
			return i
		}
	}
	if ord < s.NumFields() {
		return ord
	}
	panic("field " + name + " not found")
}

func (p *pf) path(name string, ord int) string {
	return p.name + "." + p.t.Field(fieldIndex(p.t, name, ord)).Name()
}
func (p *pf) P(name string, ord int) *Pt   { return PtSym(p.path(name, ord)) }
func (p *pf) S(name string, ord int) *Poly { return Sym(p.path(name, ord), nil, nil) }
func (p *pf) in(name string, ord int, typ string) *pf {
	q := p.c.proofFields(typ, p.path(name, ord))
	return q
}

func G() *Pt { return PtSym("G") }
func H() *Pt { return PtSym("H") }

func lc(xs ...interface{}) *Pt {
	var ps []*Pt
	var cs []*Poly
	for i := 0; i < len(xs); i += 2 {
		switch k := xs[i].(type) {
		case int:
			cs = append(cs, C(int64(k)))
		case *Poly:
			cs = append(cs, k)
		}
		ps = append(ps, xs[i+1].(*Pt))
	}
	return ptComb(ps, cs)
}

func scalarSym(n string) *Poly { return Sym(n, nil, nil) }

func djGoals(p *pf, b1, r1, b2, r2 *Pt) []goal {
	return []goal{
		{name: "c ≡ c1 + c2 (mod N)", sc: Sub(p.S("C", 2), Add(p.S("C1", 3), p.S("C2", 4)))},
		{name: "s1·Base1 = T1 + c1·Result1", pt: lc(p.S("S1", 5), b1, -1, p.P("T1", 0), Neg(p.S("C1", 3)), r1)},
		{name: "s2·Base2 = T2 + c2·Result2", pt: lc(p.S("S2", 6), b2, -1, p.P("T2", 1), Neg(p.S("C2", 4)), r2)},
	}
}
func djBind(p *pf, b1, r1, b2, r2 *Pt) []binding {
	return []binding{{"disjunctive challenge", p.S("C", 2), map[string]*Pt{"Base1": b1, "Result1": r1, "Base2": b2, "Result2": r2, "T1": p.P("T1", 0), "T2": p.P("T2", 1)}}}
}

func abcGoals(p *pf, s map[string]*Pt) []goal {
	dj := p.in("disjuncAC", 9, "DisjunctiveProof")
	ch, j, k, l := p.S("Challenge", 4), p.S("j", 5), p.S("k", 6), p.S("l", 7)
	gs := []goal{}
	for _, g := range djGoals(dj, s["CM"], s["CMTok"], H(), lc(1, p.P("C", 1), -1, G())) {
		g.name = "inner disjunction on (CM, CMTok, H, C−G): " + g.name
		gs = append(gs, g)
	}
	return append(gs,
		goal{name: "c·CM + T1 = j·G + k·CMTok", pt: lc(ch, s["CM"], 1, p.P("T1", 2), Neg(j), G(), Neg(k), s["CMTok"])},
		goal{name: "c·C + T2 = j·B + l·H", pt: lc(ch, p.P("C", 1), 1, p.P("T2", 3), Neg(j), p.P("B", 0), Neg(l), H())})
}
func abcBind(p *pf, s map[string]*Pt) []binding {
	dj := p.in("disjuncAC", 9, "DisjunctiveProof")
	return append(djBind(dj, s["CM"], s["CMTok"], H(), lc(1, p.P("C", 1), -1, G())),
		binding{"ABC challenge", p.S("Challenge", 4), map[string]*Pt{"G": G(), "H": H(), "CM": s["CM"], "CMTok": s["CMTok"], "B": p.P("B", 0), "C": p.P("C", 1), "T1": p.P("T1", 2), "T2": p.P("T2", 3)}})
}

func nonzeroModN(p *Poly) Bdd { return Not(EqP(ModP(p, hexN), C(0))) }

func abcHonest(name string, left bool) honest {
	return honest{
		name: name,
		assume: func() Bdd {
			a := nonzeroModN(scalarSym("sk"))
			if !left {
				a = And(a, nonzeroModN(scalarSym("v")))
			}
			return a
		},
		build: func(r *Run) ([]Val, []*Pt) {
			v, sk, ua := scalarSym("v"), scalarSym("sk"), scalarSym("ua")
			side := C(1)
			if left {
				v = C(0)
				side = C(0)
			}
			cm := lc(v, G(), ua, H())
			tok := lc(Mul(ua, sk), H())
			return []Val{r.point("CM", cm), r.point("CMTok", tok), r.scalar("value", v), r.scalar("sk", sk), side}, []*Pt{cm, tok}
		},
	}
}

func sigmas() []*sigma {
	x := func() *Poly { return scalarSym("x") }
	return []*sigma{
		{
			typ: "GSPFSProof", prover: "NewGSPFSProofBase", stmtPts: []string{"A"},
			goals: func(p *pf, s map[string]*Pt) []goal {
				return []goal{{name: "s·Base + c·A = T", pt: lc(p.S("HiddenValue", 2), p.P("Base", 0), p.S("Challenge", 3), s["A"], -1, p.P("RandCommit", 1))}}
			},
			bind: func(p *pf, s map[string]*Pt) []binding {
				return []binding{{"challenge", p.S("Challenge", 3), map[string]*Pt{"Base": p.P("Base", 0), "A": s["A"], "RandCommit": p.P("RandCommit", 1)}}}
			},
			honest: []honest{
				{name: "NewGSPFSProofBase, any base", build: func(r *Run) ([]Val, []*Pt) {
					a := lc(x(), PtSym("Base"))
					return []Val{r.point("base", PtSym("Base")), r.point("A", a), r.scalar("x", x())}, []*Pt{a}
				}},
				{name: "NewGSPFSProof", build: func(r *Run) ([]Val, []*Pt) {
					a := lc(x(), G())
					return []Val{r.point("A", a), r.scalar("x", x())}, []*Pt{a}
				}},
			},
			refuse: []refusal{
				{name: "NewGSPFSProofBase", build: func(r *Run) []Val {
					return []Val{r.point("base", PtSym("Base")), r.point("A", PtSym("A")), r.scalar("x", x())}
				}, goals: func() []goal { return []goal{{name: "A = x·Base", pt: lc(1, PtSym("A"), Neg(x()), PtSym("Base"))}} }},
				{name: "NewGSPFSProof", build: func(r *Run) []Val {
					return []Val{r.point("A", PtSym("A")), r.scalar("x", x())}
				}, goals: func() []goal { return []goal{{name: "A = x·G", pt: lc(1, PtSym("A"), Neg(x()), G())}} }},
			},
		},
		{
			typ: "EquivalenceProof", prover: "NewEquivalenceProof", stmtPts: []string{"Base1", "Result1", "Base2", "Result2"},
			goals: func(p *pf, s map[string]*Pt) []goal {
				hv, ch := p.S("HiddenValue", 3), p.S("Challenge", 2)
				return []goal{
					{name: "s·Base1 = T1 + c·Result1", pt: lc(hv, s["Base1"], -1, p.P("UG", 0), Neg(ch), s["Result1"])},
					{name: "s·Base2 = T2 + c·Result2", pt: lc(hv, s["Base2"], -1, p.P("UH", 1), Neg(ch), s["Result2"])},
				}
			},
			bind: func(p *pf, s map[string]*Pt) []binding {
				return []binding{{"challenge", p.S("Challenge", 2), map[string]*Pt{"Base1": s["Base1"], "Result1": s["Result1"], "Base2": s["Base2"], "Result2": s["Result2"], "UG": p.P("UG", 0), "UH": p.P("UH", 1)}}}
			},
			honest: []honest{{name: "NewEquivalenceProof", build: func(r *Run) ([]Val, []*Pt) {
				b1, b2 := PtSym("Base1"), PtSym("Base2")
				r1, r2 := lc(x(), b1), lc(x(), b2)
				return []Val{r.point("Base1", b1), r.point("Result1", r1), r.point("Base2", b2), r.point("Result2", r2), r.scalar("x", x())}, []*Pt{b1, r1, b2, r2}
			}}},
			refuse: []refusal{{name: "NewEquivalenceProof", build: func(r *Run) []Val {
				return []Val{r.point("Base1", PtSym("Base1")), r.point("Result1", PtSym("Result1")), r.point("Base2", PtSym("Base2")), r.point("Result2", PtSym("Result2")), r.scalar("x", x())}
			}, goals: func() []goal {
				return []goal{{name: "Result1 = x·Base1", pt: lc(1, PtSym("Result1"), Neg(x()), PtSym("Base1"))}, {name: "Result2 = x·Base2", pt: lc(1, PtSym("Result2"), Neg(x()), PtSym("Base2"))}}
			}}},
		},
		{
			typ: "ConsistencyProof", prover: "NewConsistencyProof", stmtPts: []string{"CM", "CMTok", "PubKey"},
			goals: func(p *pf, s map[string]*Pt) []goal {
				ch, s1, s2 := p.S("Challenge", 2), p.S("S1", 3), p.S("S2", 4)
				return []goal{
					{name: "s1·G + s2·H = T1 + c·CM", pt: lc(s1, G(), s2, H(), -1, p.P("T1", 0), Neg(ch), s["CM"])},
					{name: "s2·PK = T2 + c·CMTok", pt: lc(s2, s["PubKey"], -1, p.P("T2", 1), Neg(ch), s["CMTok"])},
				}
			},
			bind: func(p *pf, s map[string]*Pt) []binding {
				return []binding{{"challenge", p.S("Challenge", 2), map[string]*Pt{"G": G(), "H": H(), "CM": s["CM"], "CMTok": s["CMTok"], "PubKey": s["PubKey"], "T1": p.P("T1", 0), "T2": p.P("T2", 1)}}}
			},
			honest: []honest{{name: "NewConsistencyProof", build: func(r *Run) ([]Val, []*Pt) {
				v, rr, pk := scalarSym("v"), scalarSym("r"), PtSym("PubKey")
				cm, tok := lc(v, G(), rr, H()), lc(rr, pk)
				return []Val{r.point("CM", cm), r.point("CMTok", tok), r.point("PubKey", pk), r.scalar("value", v), r.scalar("randomness", rr)}, []*Pt{cm, tok, pk}
			}}},
			refuse: []refusal{{name: "NewConsistencyProof", build: func(r *Run) []Val {
				return []Val{r.point("CM", PtSym("CM")), r.point("CMTok", PtSym("CMTok")), r.point("PubKey", PtSym("PubKey")), r.scalar("value", scalarSym("v")), r.scalar("randomness", scalarSym("r"))}
			}, goals: func() []goal {
				v, rr := scalarSym("v"), scalarSym("r")
				return []goal{{name: "CM = v·G + r·H", pt: lc(1, PtSym("CM"), Neg(v), G(), Neg(rr), H())}, {name: "CMTok = r·PK", pt: lc(1, PtSym("CMTok"), Neg(rr), PtSym("PubKey"))}}
			}}},
		},
		{
			typ: "DisjunctiveProof", prover: "NewDisjunctiveProof", stmtPts: []string{"Base1", "Result1", "Base2", "Result2"},
			goals: func(p *pf, s map[string]*Pt) []goal {
				return djGoals(p, s["Base1"], s["Result1"], s["Base2"], s["Result2"])
			},
			bind: func(p *pf, s map[string]*Pt) []binding {
				return djBind(p, s["Base1"], s["Result1"], s["Base2"], s["Result2"])
			},
			honest: []honest{
				{name: "NewDisjunctiveProof Left", build: func(r *Run) ([]Val, []*Pt) { return djHonest(r, 0) }},
				{name: "NewDisjunctiveProof Right", build: func(r *Run) ([]Val, []*Pt) { return djHonest(r, 1) }},
			},
			refuse: []refusal{
				{name: "NewDisjunctiveProof Left", build: func(r *Run) []Val { return djGeneric(r, C(0)) }, goals: func() []goal {
					return []goal{{name: "Result1 = x·Base1", pt: lc(1, PtSym("Result1"), Neg(x()), PtSym("Base1"))}}
				}},
				{name: "NewDisjunctiveProof Right", build: func(r *Run) []Val { return djGeneric(r, C(1)) }, goals: func() []goal {
					return []goal{{name: "Result2 = x·Base2", pt: lc(1, PtSym("Result2"), Neg(x()), PtSym("Base2"))}}
				}},
				{name: "NewDisjunctiveProof, side neither Left nor Right", build: func(r *Run) []Val { return djGeneric(r, sideSym()) }, pc: func() Bdd {
					return And(Not(EqP(sideSym(), C(0))), Not(EqP(sideSym(), C(1))))
				}},
			},
		},
		{
			typ: "ABCProof", prover: "NewABCProof", stmtPts: []string{"CM", "CMTok"},
			goals: abcGoals, bind: abcBind,
			honest: []honest{abcHonest("NewABCProof Left (value 0)", true), abcHonest("NewABCProof Right (value ≠ 0)", false)},
			refuse: []refusal{
				{name: "NewABCProof Left", build: func(r *Run) []Val { return abcGeneric(r, C(0)) }, goals: func() []goal {
					return []goal{{name: "CMTok = sk·CM", pt: lc(1, PtSym("CMTok"), Neg(scalarSym("sk")), PtSym("CM"))}, {name: "value = 0", sc: scalarSym("v")}}
				}, conds: func() []condGoal {
					return []condGoal{{"sk is invertible mod N", nonzeroModN(scalarSym("sk"))}}
				}},
				{name: "NewABCProof Right", build: func(r *Run) []Val { return abcGeneric(r, C(1)) }, goals: func() []goal { return []goal{} }, conds: func() []condGoal {
					return []condGoal{{"value is invertible mod N", nonzeroModN(scalarSym("v"))}, {"sk is invertible mod N", nonzeroModN(scalarSym("sk"))}}
				}},
				{name: "NewABCProof, side neither Left nor Right", build: func(r *Run) []Val { return abcGeneric(r, sideSym()) }, pc: func() Bdd {
					return And(Not(EqP(sideSym(), C(0))), Not(EqP(sideSym(), C(1))))
				}},
			},
		},
		{
			typ: "InequalityProof", prover: "NewInequalityProof", stmtPts: []string{"CM", "CMTok"},
			goals: abcGoals, bind: abcBind,
			honest: []honest{{name: "NewInequalityProof", assume: func() Bdd {
				return And(nonzeroModN(Sub(scalarSym("a"), scalarSym("b"))), nonzeroModN(scalarSym("sk")))
			}, build: func(r *Run) ([]Val, []*Pt) {
				a, b, ra, rb, sk := scalarSym("a"), scalarSym("b"), scalarSym("ra"), scalarSym("rb"), scalarSym("sk")
				A, Bp := lc(a, G(), ra, H()), lc(b, G(), rb, H())
				ta, tb := lc(Mul(ra, sk), H()), lc(Mul(rb, sk), H())
				return []Val{r.point("A", A), r.point("B", Bp), r.point("CMTokA", ta), r.point("CMTokB", tb), r.scalar("a", a), r.scalar("b", b), r.scalar("sk", sk)}, []*Pt{PtSub(A, Bp), PtSub(ta, tb)}
			}}},
			refuse: []refusal{{name: "NewInequalityProof", build: func(r *Run) []Val {
				return []Val{r.point("A", PtSym("A")), r.point("B", PtSym("B")), r.point("CMTokA", PtSym("TA")), r.point("CMTokB", PtSym("TB")), r.scalar("a", scalarSym("a")), r.scalar("b", scalarSym("b")), r.scalar("sk", scalarSym("sk"))}
			}, goals: func() []goal { return []goal{} }, conds: func() []condGoal {
				return []condGoal{{"a ≢ b (mod N)", nonzeroModN(Sub(scalarSym("a"), scalarSym("b")))}}
			}}},
		},
	}
}

func sideSym() *Poly {
	lo, hi := intRange(types.Typ[types.Int])
	return Sym("side", lo, hi)
}

func djHonest(r *Run, side int64) ([]Val, []*Pt) {
	b1, b2, x := PtSym("Base1"), PtSym("Base2"), scalarSym("x")
	r1, r2 := PtSym("Result1"), PtSym("Result2")
	if side == 0 {
		r1 = lc(x, b1)
	} else {
		r2 = lc(x, b2)
	}
	return []Val{r.point("Base1", b1), r.point("Result1", r1), r.point("Base2", b2), r.point("Result2", r2), r.scalar("x", x), C(side)}, []*Pt{b1, r1, b2, r2}
}
func djGeneric(r *Run, side *Poly) []Val {
	return []Val{r.point("Base1", PtSym("Base1")), r.point("Result1", PtSym("Result1")), r.point("Base2", PtSym("Base2")), r.point("Result2", PtSym("Result2")), r.scalar("x", scalarSym("x")), side}
}
func abcGeneric(r *Run, side *Poly) []Val {
	return []Val{r.point("CM", PtSym("CM")), r.point("CMTok", PtSym("CMTok")), r.scalar("value", scalarSym("v")), r.scalar("sk", scalarSym("sk")), side}
}

// ---- running ----

func (c *Check) verifyFn(typ string) *ssa.Function {
	f := c.P.method("", typ, "Verify")
	if f == nil {
		panic("method " + typ + ".Verify not found")
	}
	return f
}
func (c *Check) fnOf(name string) *ssa.Function {
	f := c.P.fn("", name)
	if f == nil {
		panic("function " + name + " not found")
	}
	return f
}

// havocProof is an arbitrary proof value of the type.
func (r *Run) havocProof(typ string, o *symOpts) Val {
	t := r.I.P.namedType("", typ)
	if o == nil {
		o = &symOpts{origin: "param:proof"}
	}
	v := r.I.havocTyped(r.st, t, "proof", o)
	return ptrTo(r.I.newObj(r.st, t, v, "param:proof", 0))
}

func verdict(v Val) (acc, errNil Bdd) {
	t, ok := v.(*TupleV)
	if !ok || len(t.v) != 2 {
		panic("verifier does not return (bool, error)")
	}
	b, ok := t.v[0].(Bdd)
	if !ok {
		panic(fmt.Sprintf("verdict is not a boolean: %T", t.v[0]))
	}
	return b, nilCond(t.v[1])
}

// verifySym abstractly runs the verifier on an arbitrary proof and statement.
func (c *Check) verifySym(s *sigma, o *symOpts) (*Run, Bdd, Bdd, map[string]*Pt) {
	r := newRun(c.P, true)
	z := r.params()
	sp := map[string]*Pt{}
	args := []Val{r.havocProof(s.typ, o), z}
	for _, n := range s.stmtPts {
		sp[n] = PtSym(n)
		args = append(args, r.point(n, sp[n]))
	}
	v := r.call(c.verifyFn(s.typ), args...)
	c.absorb(r.I)
	acc, en := verdict(v)
	return r, And(acc, r.st.pc), And(en, r.st.pc), sp
}

func preferProof(n string) int {
	if strings.HasPrefix(n, "proof.") {
		if strings.HasSuffix(n, "Challenge") || strings.HasSuffix(n, ".C") || strings.HasSuffix(n, "ProofE") {
			return 3
		}
		return 2
	}
	return 1
}

// checkSound: acceptance entails the verification equations.
func (c *Check) checkSound(s *sigma, equations, binds bool) {
	c.sub(s.typ+".Verify", func() {
		fn := c.verifyFn(s.typ)
		_, acc, _, sp := c.verifySym(s, nil)
		w := c.where(fn)
		if !c.ob(feasible(acc), s.typ+": some proof is accepted", w, "no input is ever accepted") {
			return
		}
		cs, ok := cubesOf(acc, 4000)
		if !ok {
			c.ob(false, s.typ+": acceptance condition", w, "too many cases to decide")
			return
		}
		p := c.proofFields(s.typ, "proof")
		var fs []*Facts
		for _, cu := range cs {
			fs = append(fs, factsOf(cu, preferProof))
		}
		if equations {
			for _, g := range s.goals(p, sp) {
				bad := ""
				for _, f := range fs {
					okk := false
					if g.pt != nil {
						okk = f.entailsPt(g.pt)
					} else {
						okk = f.entailsSc(g.sc)
					}
					if !okk {
						bad = f.String()
						break
					}
				}
				c.ob(bad == "", s.typ+": acceptance implies "+g.name, w, "accepted without this equation having been established, e.g. whenever %s", bad)
			}
		}
		if binds {
			for _, b := range s.bind(p, sp) {
				c.checkBinding(s.typ, w, b, fs)
			}
		}
	})
}

func (c *Check) checkBinding(who, w string, b binding, fs []*Facts) {
	bad := ""
	for _, f := range fs {
		if m := bindingMissing(f, b); m != "" {
			bad = m
			break
		}
	}
	c.ob(bad == "", who+": "+b.name+" is the hash of an unambiguous encoding of the whole statement and all commitments", w, "%s", bad)
}

func bindingMissing(f *Facts, b binding) string {
	ch := f.normP(b.ch)
	hs := hashAtoms(ch)
	if len(hs) == 0 {
		return "the challenge used is not forced to equal a hash: " + ch.String()
	}
	why := ""
	for _, h := range hs {
		// ch ≡ int(hash) mod N exactly
		full := intOf(seqHash("sha256", h, 32))
		if !f.entailsSc(Sub(b.ch, full)) {
			why = "the challenge is not congruent to the digest: " + ch.String()
			continue
		}
		m := encodingMissing(f, h, b.pts)
		if m == "" {
			return ""
		}
		why = m
	}
	return why
}

func encodingMissing(f *Facts, h *Seq, pts map[string]*Pt) string {
	have := map[string]bool{}
	for _, g := range h.s {
		lo, hi := g.length().interval()
		if lo == nil || hi == nil || lo.Cmp(hi) != 0 {
			return "hashed data is not self-delimiting: segment " + g.String() + " has variable length"
		}
		if g.k == "pad" || g.k == "be" || g.k == "b" {
			p := g.p
			if f != nil {
				p = deepSub(p, f.sub)
			}
			have[p.key] = true
		}
	}
	for _, n := range sortedKeys(pts) {
		p := pts[n]
		if f != nil {
			p = f.norm(p)
		}
		if !have[XofP(p).key] || !have[YofP(p).key] {
			return "hash input does not contain both full coordinates of " + n + " = " + p.String() + "; hashed: " + h.String()
		}
	}
	return ""
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

type proved struct {
	r      *Run
	args   []Val
	vpts   []*Pt
	proof  Val
	errNil Bdd
	assume Bdd
	z      Val
	fn     *ssa.Function
}

func (s *sigma) proverFor(h string) string {
	f := strings.FieldsFunc(h, func(r rune) bool { return r == ' ' || r == ',' })
	return f[0]
}

// prove runs the honest prover.
func (c *Check) prove(s *sigma, h honest, randErr bool) *proved {
	r := newRun(c.P, true)
	r.I.noRandErr = !randErr
	z := r.params()
	pr := &proved{r: r, z: z, assume: True}
	if h.assume != nil {
		pr.assume = h.assume()
	}
	r.st.pc = pr.assume
	pr.fn = c.fnOf(s.proverFor(h.name))
	pa, vp := h.build(r)
	pr.args, pr.vpts = pa, vp
	v := r.call(pr.fn, append([]Val{z}, pa...)...)
	t := v.(*TupleV)
	pr.proof = t.v[0]
	pr.errNil = nilCond(t.v[len(t.v)-1])
	return pr
}

// checkComplete: an honest proof is produced and accepted.
func (c *Check) checkComplete(s *sigma) {
	for _, h := range s.honest {
		h := h
		c.sub(h.name, func() {
			pr := c.prove(s, h, false)
			w := c.where(pr.fn)
			c.ob(impliesDeep(pr.assume, And(pr.r.st.pc, pr.errNil)), h.name+": a proof is produced for every true statement", w, "the prover fails under: %s", condStr(And(pr.assume, Not(And(pr.r.st.pc, pr.errNil)))))
			c.noPanics(pr.r, h.name)
			args := []Val{pr.proof, pr.z}
			for i, p := range pr.vpts {
				args = append(args, pr.r.point(s.stmtPts[i], p))
			}
			pr.r.st.pc = And(pr.r.st.pc, pr.errNil)
			v := pr.r.call(c.verifyFn(s.typ), args...)
			acc, en := verdict(v)
			c.ob(impliesDeep(pr.assume, And(pr.r.st.pc, And(acc, en))), h.name+": the proof verifies", c.where(c.verifyFn(s.typ)), "an honest proof is rejected under: %s", condStr(And(pr.assume, Not(And(acc, en)))))
			c.noPanics(pr.r, h.name+" then Verify")
			c.absorb(pr.r.I)
		})
	}
}

func (c *Check) noPanics(r *Run, what string) {
	for _, e := range r.I.events {
		if e.kind == "panic" || e.kind == "deadlock" {
			c.ob(false, what+": no panic", c.P.pos(e.pos)+" "+e.fn, "%s reachable: %s [%s]", e.kind, e.what, e.stk)
			return
		}
	}
	c.ob(true, what+": no panic", "", "")
}

// checkRefuse: success of the prover entails the statement.
func (c *Check) checkRefuse(s *sigma) {
	for _, rf := range s.refuse {
		rf := rf
		c.sub(rf.name, func() {
			r := newRun(c.P, true)
			r.I.noRandErr = true
			z := r.params()
			if rf.pc != nil {
				r.st.pc = rf.pc()
			}
			fn := c.fnOf(s.proverFor(rf.name))
			v := r.call(fn, append([]Val{z}, rf.build(r)...)...)
			c.absorb(r.I)
			t := v.(*TupleV)
			ok := And(r.st.pc, nilCond(t.v[len(t.v)-1]))
			w := c.where(fn)
			if rf.goals == nil {
				c.ob(!feasibleDeep(ok), rf.name+": refused", w, "a proof is returned under: %s", condStr(ok))
				return
			}
			c.ob(feasible(ok), rf.name+": accepts some witness", w, "never succeeds")
			cs, enough := cubesOf(ok, 4000)
			if !enough {
				c.ob(false, rf.name, w, "too many cases")
				return
			}
			for _, g := range rf.goals() {
				bad := ""
				for _, cu := range cs {
					f := factsOf(cu, func(n string) int {
						if g.sc != nil {
							return 0
						}
						return 1
					})
					okk := false
					if g.pt != nil {
						okk = f.entailsPt(g.pt)
					} else {
						okk = f.entailsSc(g.sc)
					}
					if !okk {
						bad = f.String()
						break
					}
				}
				c.ob(bad == "", rf.name+": success implies "+g.name, w, "a proof is returned although this need not hold, e.g. %s", bad)
			}
			if rf.conds != nil {
				for _, g := range rf.conds() {
					c.ob(impliesDeep(ok, g.c), rf.name+": success implies "+g.name, w, "a proof is returned under %s", condStr(And(ok, Not(g.c))))
				}
			}
		})
	}
}

var _ = big.NewInt

package main

// Contracts of the curve operations and of the point primitives, and the
// construction of abstract inputs for the checks of the proof packages.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const kc = "(*" + repoPrefix + "/btcec.KoblitzCurve)."
const zp = "(" + repoPrefix + ".ZKPCurveParams)."

func curvePt(I *Interp, st *State, x, y Val, pos token.Pos) *Pt {
	return PtFromXY(I.bigAt(st, x, pos), I.bigAt(st, y, pos))
}

func (I *Interp) retPt(st *State, p *Pt, pos token.Pos) Val {
	return tup(I.newBig(st, XofP(p), pos), I.newBig(st, YofP(p), pos))
}

func (I *Interp) scalarOf(st *State, v Val, pos token.Pos) *Poly {
	return I.bytesOf(st, v, pos).liftP(st.pc, intOf)
}

// useCurve installs the group-level contracts of the elliptic curve.
func (I *Interp) useCurve() {
	I.sum[kc+"Add"] = func(I *Interp, st *State, c *callCtx) Val {
		return I.retPt(st, PtAdd(curvePt(I, st, c.args[1], c.args[2], c.pos), curvePt(I, st, c.args[3], c.args[4], c.pos)), c.pos)
	}
	I.sum[kc+"Double"] = func(I *Interp, st *State, c *callCtx) Val {
		p := curvePt(I, st, c.args[1], c.args[2], c.pos)
		return I.retPt(st, PtAdd(p, p), c.pos)
	}
	I.sum[kc+"ScalarMult"] = func(I *Interp, st *State, c *callCtx) Val {
		return I.retPt(st, PtMul(I.scalarOf(st, c.args[3], c.pos), curvePt(I, st, c.args[1], c.args[2], c.pos)), c.pos)
	}
	I.sum[kc+"ScalarBaseMult"] = func(I *Interp, st *State, c *callCtx) Val {
		return I.retPt(st, PtMul(I.scalarOf(st, c.args[1], c.pos), PtSym("G")), c.pos)
	}
	I.sum[kc+"ScalarBaseMultH"] = func(I *Interp, st *State, c *callCtx) Val {
		return I.retPt(st, PtMul(I.scalarOf(st, c.args[1], c.pos), PtSym("H")), c.pos)
	}
	I.sum[kc+"IsOnCurve"] = func(I *Interp, st *State, c *callCtx) Val {
		return onCurve(I.bigAt(st, c.args[1], c.pos), I.bigAt(st, c.args[2], c.pos))
	}
	I.sum[repoPrefix+"/btcec.S256"] = func(I *Interp, st *State, c *callCtx) Val { return I.s256(st) }
}

func onCurve(x, y *Poly) Bdd {
	p := PtFromXY(x, y)
	for _, t := range p.t {
		if t.a.x != nil {
			if len(p.t) == 1 {
				return symCond("oncurve(" + p.String() + ")")
			}
		}
	}
	return Not(PEq(p))
}

// s256 is the shared curve object with the standard constants.
func (I *Interp) s256(st *State) Val {
	if o, ok := I.s256obj[0], I.s256obj[0] != 0; ok {
		if _, in := hget(st.heap, o); in {
			return ptrTo(o)
		}
	}
	kt := I.P.namedType("btcec", "KoblitzCurve")
	ks := kt.Underlying().(*types.Struct)
	num := func(n *big.Int) Val {
		return ptrTo(I.newObj(st, I.bigT(), &BigV{CB(n)}, "global:curve", token.NoPos))
	}
	pol := func(p *Poly) Val {
		return ptrTo(I.newObj(st, I.bigT(), &BigV{p}, "global:curve", token.NoPos))
	}
	v := I.zero(st, kt).(*StructV)
	for i := 0; i < ks.NumFields(); i++ {
		switch ks.Field(i).Name() {
		case "CurveParams":
			ct := deref(ks.Field(i).Type())
			cs := ct.Underlying().(*types.Struct)
			cv := I.zero(st, ct).(*StructV)
			for j := 0; j < cs.NumFields(); j++ {
				switch cs.Field(j).Name() {
				case "P":
					cv.f[j] = num(hexP)
				case "N":
					cv.f[j] = num(hexN)
				case "B":
					cv.f[j] = num(bi(7))
				case "Gx":
					cv.f[j] = pol(XofP(PtSym("G")))
				case "Gy":
					cv.f[j] = pol(YofP(PtSym("G")))
				case "BitSize":
					cv.f[j] = C(256)
				}
			}
			v.f[i] = ptrTo(I.newObj(st, ct, cv, "global:curve", token.NoPos))
		case "q":
			v.f[i] = num(new(big.Int).Rsh(new(big.Int).Add(hexP, one), 2))
		case "H":
			v.f[i] = C(1)
		case "halfOrder":
			v.f[i] = num(new(big.Int).Rsh(hexN, 1))
		case "byteSize":
			v.f[i] = C(32)
		}
	}
	o := I.newObj(st, kt, v, "global:curve", token.NoPos)
	I.s256obj[0] = o
	return ptrTo(o)
}

// ptOfVal reads an ECPoint struct value; ok is false when a coordinate may be nil.
func (I *Interp) ptOfVal(st *State, v Val, pos token.Pos) (*Pt, bool) {
	s, ok := v.(*StructV)
	if !ok || len(s.f) != 2 {
		return nil, false
	}
	for _, f := range s.f {
		p, ok := f.(*PtrV)
		if !ok {
			return nil, false
		}
		if n := nilCond(p); n != False && feasible(And(st.pc, n)) {
			return nil, false
		}
	}
	return curvePt(I, st, s.f[0], s.f[1], pos), true
}

func (I *Interp) mkPoint(st *State, p *Pt, pos token.Pos) Val {
	return &StructV{[]Val{I.newBig(st, XofP(p), pos), I.newBig(st, YofP(p), pos)}}
}

// usePrims installs the contracts of the point primitives (established separately).
func (I *Interp) usePrims() {
	orInline := func(f Summary) Summary { return f }
	I.sum[zp+"Mult"] = orInline(func(I *Interp, st *State, c *callCtx) Val {
		p, ok := I.ptOfVal(st, c.args[1], c.pos)
		if !ok {
			return I.call(st, c.fn, c.args, nil, c.pos)
		}
		return I.mkPoint(st, PtMul(I.bigAt(st, c.args[2], c.pos), p), c.pos)
	})
	two := func(f func(a, b *Pt) *Pt) Summary {
		return func(I *Interp, st *State, c *callCtx) Val {
			p, ok := I.ptOfVal(st, c.args[1], c.pos)
			q, ok2 := I.ptOfVal(st, c.args[2], c.pos)
			if !ok || !ok2 {
				return I.call(st, c.fn, c.args, nil, c.pos)
			}
			return I.mkPoint(st, f(p, q), c.pos)
		}
	}
	I.sum[zp+"Add"] = two(PtAdd)
	I.sum[zp+"Sub"] = two(PtSub)
	I.sum[zp+"Neg"] = func(I *Interp, st *State, c *callCtx) Val {
		p, ok := I.ptOfVal(st, c.args[1], c.pos)
		if !ok {
			return I.call(st, c.fn, c.args, nil, c.pos)
		}
		return I.mkPoint(st, PtNeg(p), c.pos)
	}
	I.sum["("+repoPrefix+".ECPoint).Equal"] = func(I *Interp, st *State, c *callCtx) Val {
		p, ok := I.ptOfVal(st, c.args[0], c.pos)
		q, ok2 := I.ptOfVal(st, c.args[1], c.pos)
		if !ok || !ok2 {
			return I.call(st, c.fn, c.args, nil, c.pos)
		}
		return PEq(PtSub(p, q))
	}
}

// Run is one abstract execution set-up.
type Run struct {
	I  *Interp
	st *State
}

func newRun(p *Program, prims bool) *Run {
	I := newInterp(p)
	I.useCurve()
	st := &State{pc: True}
	r := &Run{I, st}
	I.s256(st)
	I.suppress++
	for _, pk := range []string{"wire", "btcec", ""} {
		if f := p.fn(pk, "init"); f != nil {
			I.call(st, f, nil, nil, token.NoPos)
		}
	}
	I.suppress--
	for id, o := range I.objs {
		if o == nil {
			continue
		}
		if o.origin == "alloc" {
			o.origin = "global:initial state"
		}
		if v, ok := hget(st.heap, id); ok {
			if e, ok := v.(*ExtV); ok && e.kind == "chan" {
				o.origin = "global:chan" // shared by all callers: any history of other users is possible
			}
		}
	}
	if prims {
		I.usePrims()
	}
	return r
}

// params is an arbitrary caller's ZKPCurveParams with the standard curve.
func (r *Run) params() Val {
	I, st := r.I, r.st
	t := I.P.namedType("", "ZKPCurveParams")
	s := t.Underlying().(*types.Struct)
	v := I.zero(st, t).(*StructV)
	pt := func(q *Pt) Val { return I.pointVal(st, I.P.namedType("", "ECPoint"), q, "param:zkpcp") }
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "C":
			v.f[i] = &IfaceV{[]IfAlt{{c: True, t: types.NewPointer(I.P.namedType("btcec", "KoblitzCurve")), v: I.s256(st)}}}
		case "G":
			v.f[i] = pt(PtSym("G"))
		case "H":
			v.f[i] = pt(PtSym("H"))
		case "HPoints":
			a := &ArrV{}
			for k := 0; k < 64; k++ {
				a.e = append(a.e, pt(PtMul(CB(pow2(k)), PtSym("G"))))
			}
			o := I.newObj(st, s.Field(i).Type(), a, "param:zkpcp", token.NoPos)
			v.f[i] = &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: C(64), cap: C(64)}}}
		}
	}
	return v
}

func (r *Run) point(name string, p *Pt) Val {
	return r.I.pointVal(r.st, r.I.P.namedType("", "ECPoint"), p, "param:"+name)
}

func (r *Run) scalar(name string, p *Poly) Val {
	return ptrTo(r.I.newObj(r.st, r.I.bigT(), &BigV{p}, "param:"+name, token.NoPos))
}

func (r *Run) call(fn *ssa.Function, args ...Val) Val {
	if fn == nil {
		panic("missing function")
	}
	return r.I.callFn(r.st, fn, args, nil, fn.Pos(), nil)
}

var _ = fmt.Sprint

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C13: serialization round trip ----

var serialTypes = []string{"GSPFSProof", "EquivalenceProof", "ConsistencyProof", "DisjunctiveProof", "ABCProof", "RangeProof"}

// scalar fields of proofs: any integer of at most 256 bits in magnitude
func wireOpts(n int) *symOpts {
	return &symOpts{origin: "param:proof",
		big: func(path string) *Poly {
			return Sym(path, bigSub(zero, bigSub(pow2(256), one)), bigSub(pow2(256), one))
		},
		sliceLen: func(path string, t types.Type) *Poly { return C(int64(n)) },
	}
}

// flat lists the scalars (and coordinates) of a proof value under names independent of representation.
func (r *Run) flat(v Val, t types.Type, path string, out map[string]*Poly) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if nc := nilCond(v); feasible(And(r.st.pc, nc)) {
			out[path+"?nil"] = Ind(And(r.st.pc, nc))
		}
		if namedKey(u.Elem()) == "math/big.Int" {
			out[path] = underPc(r.I.bigAt(r.st, v, token.NoPos), r.st.pc)
			return
		}
		r.flat(r.I.load(r.st, v, u.Elem(), token.NoPos), u.Elem(), path, out)
	case *types.Struct:
		s, ok := v.(*StructV)
		if !ok {
			panic("flat: struct " + path)
		}
		for i := 0; i < u.NumFields(); i++ {
			r.flat(s.f[i], u.Field(i).Type(), path+"."+u.Field(i).Name(), out)
		}
	case *types.Slice:
		es, ok := r.I.elemsOf(r.st, v, token.NoPos)
		if !ok {
			panic("flat: slice " + path)
		}
		out[path+".len"] = C(int64(len(es)))
		for i, e := range es {
			r.flat(e, u.Elem(), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

func (c *Check) method(typ, name string) *ssa.Function {
	t := c.P.namedType("", typ)
	if t == nil {
		return nil
	}
	ms := c.P.ssa.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.P.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func sameUnder(pc Bdd, a, b *Poly) bool {
	if a == b {
		return true
	}
	return !feasible(And(pc, Not(EqP(a, b))))
}

func (c *Check) roundTrip(typ string, n int) {
	nm := typ
	if typ == "RangeProof" {
		nm = fmt.Sprintf("RangeProof with %d entries", n)
	}
	c.sub(nm+" round trip", func() {
		r := newRun(c.P, true)
		pv := r.havocProof(typ, wireOpts(n))
		enc, dec := c.method(typ, "Bytes"), c.fnOf("New"+typ+"FromBytes")
		if enc == nil {
			panic("no Bytes method")
		}
		w := c.where(enc)
		pt := types.NewPointer(c.P.namedType("", typ))
		before := map[string]*Poly{}
		r.flat(pv, pt, "proof", before)
		b := r.call(enc, pv)
		res := r.call(dec, b).(*TupleV)
		c.absorb(r.I)
		en := And(r.st.pc, nilCond(res.v[1]))
		c.ob(implies(True, en), nm+": what was serialized is read back without error", w, "fails under %s", condStr(Not(en)))
		c.noPanics(r, nm+" round trip")
		r.st.pc = en
		after := map[string]*Poly{}
		r.flat(res.v[0], pt, "proof", after)
		for _, k := range sortedKeys(before) {
			a, ok := after[k]
			c.ob(ok && sameUnder(en, before[k], a), nm+": "+k+" survives serialization", w, "was %s, read back as %s", before[k], a)
		}
		c.ob(len(before) == len(after), nm+": nothing is added by serialization", w, "%d values before, %d after", len(before), len(after))
		for _, e := range r.I.events {
			if e.kind == "unmodelled" {
				c.ob(false, nm+": every operation is understood", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
			}
		}
	})
}

// ---- C14: arbitrary bytes ----

func (c *Check) arbitraryBytes(typ string) {
	c.sub(typ+" from arbitrary bytes", func() {
		r := newRun(c.P, true)
		dec := c.fnOf("New" + typ + "FromBytes")
		w := c.where(dec)
		n := Sym("len(in)", zero, bi(maxLen))
		in := r.I.newBytes(r.st, mkSeqV(seqSym("in", C(0), n)), token.NoPos)
		type al struct {
			pos token.Pos
			n   *Poly
			pc  Bdd
		}
		var allocs []al
		r.I.adversarial = true
		r.I.allocHook = func(st *State, pos token.Pos, k *Poly, what string) { allocs = append(allocs, al{pos, k, st.pc}) }
		res := r.call(dec, in).(*TupleV)
		c.absorb(r.I)
		c.noPanics(r, typ+" from arbitrary bytes")
		// (an unbounded loop is covered by a generic iteration, whose exits do not add up to every path)
		c.ob(r.I.widened > 0 || implies(True, r.st.pc), typ+": parsing arbitrary bytes always returns", w, "does not return under %s", condStr(Not(r.st.pc)))
		for _, a := range allocs {
			big := And(a.pc, LtP(CB(pow2(20)), a.n))
			if !feasible(big) {
				c.ob(true, typ+": no allocation larger than the input or 1 MiB", c.P.pos(a.pos), "")
				continue
			}
			big = And(big, LtP(n, a.n))
			for _, l := range r.I.advLens {
				big = And(big, LtP(l, a.n))
			}
			c.ob(!feasible(big), typ+": no allocation larger than the input or 1 MiB", c.P.pos(a.pos), "allocates %s under %s", a.n, condStr(big))
		}
		en := nilCond(res.v[1])
		pn := nilCond(res.v[0])
		c.ob(!feasible(And(r.st.pc, And(en, pn))), typ+": success comes with a proof", w, "nil proof without error under %s", condStr(And(en, pn)))
		c.ob(feasible(And(r.st.pc, Not(en))), typ+": some inputs are rejected", w, "no input is rejected")
		c.ob(feasible(And(r.st.pc, en)), typ+": some inputs are accepted", w, "no input is accepted")
		for _, e := range r.I.events {
			if e.kind == "unmodelled" {
				c.ob(false, typ+": every operation is understood", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
			}
		}
		// with a nil error no component is missing
		r.st.pc = And(r.st.pc, en)
		defer func() {
			if x := recover(); x != nil {
				c.ob(typ == "RangeProof", typ+": a parsed proof is complete", w, "%v", x)
			}
		}()
		after := map[string]*Poly{}
		r.flat(res.v[0], types.NewPointer(c.P.namedType("", typ)), "proof", after)
		for _, k := range sortedKeys(after) {
			c.ob(!strings.HasSuffix(k, "?nil"), typ+": "+strings.TrimSuffix(k, "?nil")+" of a parsed proof is present", w, "missing under %s", after[k])
		}
	})
}

// truncated: every strict prefix of a serialized proof is rejected.
func (c *Check) truncated(typ string, n int) {
	nm := typ
	if typ == "RangeProof" {
		nm = fmt.Sprintf("RangeProof with %d entries", n)
	}
	c.sub(nm+" truncated", func() {
		r := newRun(c.P, true)
		pv := r.havocProof(typ, wireOpts(n))
		enc, dec := c.method(typ, "Bytes"), c.fnOf("New"+typ+"FromBytes")
		b := r.I.bytesOf(r.st, r.call(enc, pv), token.NoPos)
		total := b.length(r.st.pc)
		cut := Sym("cut", zero, bi(maxLen))
		r.st.pc = And(r.st.pc, LtP(cut, total))
		in := r.I.newBytes(r.st, seqHead(r.st.pc, b, cut), token.NoPos)
		res := r.call(dec, in).(*TupleV)
		c.absorb(r.I)
		bad := And(r.st.pc, nilCond(res.v[1]))
		c.ob(!feasible(bad), nm+": every strict prefix of a serialized proof is rejected", c.where(dec), "accepted under %s", condStr(bad))
		c.noPanics(r, nm+" truncated")
	})
}

func init() {
	register(&checkDef{id: "C14", run: func(c *Check) {
		for _, t := range serialTypes {
			if x := os.Getenv("ZK_ONLY"); x != "" && x != t {
				continue
			}
			c.arbitraryBytes(t)
			c.truncated(t, 2)
		}
	}})
	register(&checkDef{id: "C13", run: func(c *Check) {
		for _, t := range serialTypes {
			if t == "RangeProof" {
				for _, n := range []int{0, 1, 3, 40, 64} {
					c.roundTrip(t, n)
				}
				continue
			}
			c.roundTrip(t, 0)
		}
	}})
}

var _ = strings.Contains

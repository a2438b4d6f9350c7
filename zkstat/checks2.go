package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---- C08, C09: nonces ----

type pubScalar struct {
	name string
	p    *Poly
}

// published collects scalars and points reachable from a proof value.
func (r *Run) published(v Val, t types.Type, path string, depth int, sc *[]pubScalar, pts map[string]*Pt) {
	if depth > 6 {
		return
	}
	if namedKey(t) == repoPrefix+".ECPoint" {
		pts[path] = r.ptOf(v)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if namedKey(u.Elem()) == "math/big.Int" {
			*sc = append(*sc, pubScalar{path, underPc(r.I.bigAt(r.st, v, token.NoPos), r.st.pc)})
			return
		}
		r.published(r.I.load(r.st, v, u.Elem(), token.NoPos), u.Elem(), path, depth+1, sc, pts)
	case *types.Struct:
		s, ok := v.(*StructV)
		if !ok {
			panic("published: struct " + path)
		}
		for i := 0; i < u.NumFields(); i++ {
			r.published(s.f[i], u.Field(i).Type(), path+"."+u.Field(i).Name(), depth+1, sc, pts)
		}
	case *types.Slice:
		es, ok := r.I.elemsOf(r.st, v, token.NoPos)
		if !ok {
			panic("published: slice " + path)
		}
		for i, e := range es {
			r.published(e, u.Elem(), fmt.Sprintf("%s[%d]", path, i), depth+1, sc, pts)
		}
	}
}

func randAtoms(p *Poly) map[int32]bool {
	out := map[int32]bool{}
	for _, t := range p.t {
		for _, f := range t.m {
			if a := atoms[f.a]; a.kind == "sym" && strings.HasPrefix(a.name, "rand#") {
				out[f.a] = true
			}
		}
	}
	return out
}

// maskLeaks: find a published combination free of nonces that still depends on a secret.
// Linear part in the nonces is eliminated over GF(N); a combination that cancels every nonce
// and is not a function of public data (digests, other public nonces) leaks.
func maskLeaks(sc []pubScalar, secret func(a *Atom) bool) string {
	type row struct {
		name string
		v    vec // nonce-carrying monomials
		full *Poly
	}
	hasRand := func(m []fac) bool {
		for _, f := range m {
			if a := atoms[f.a]; a.kind == "sym" && strings.HasPrefix(a.name, "rand#") {
				return true
			}
		}
		return false
	}
	hasSecret := func(p *Poly) bool {
		for _, t := range p.t {
			// a guard selecting between digests is recomputable from the published points
			digest, guard := false, false
			for _, f := range t.m {
				a := atoms[f.a]
				switch {
				case a.kind == "int" || a.kind == "hb":
					digest = true
				case a.kind == "ind" && secret(a):
					guard = true
				case secret(a):
					return true
				}
			}
			if guard && !digest {
				return true
			}
		}
		return false
	}
	var done []row
	var piv []string
	for _, s := range sc {
		p := canonMod(s.p, hexN)
		v := vec{}
		for _, t := range p.t {
			// only the bare linear nonce terms can mask
			if len(t.m) == 1 && t.m[0].e == 1 && hasRand(t.m) {
				v.addScaled(vec{monoKey(t.m): t.c}, one)
			}
		}
		full := p
		for i, d := range done {
			if k, ok := v[piv[i]]; ok {
				nk := new(bigInt).Neg(k)
				v.addScaled(d.v, nk)
				full = canonMod(Add(full, Scale(d.full, nk)), hexN)
			}
		}
		if len(v) == 0 {
			if hasSecret(full) {
				return fmt.Sprintf("%s is not masked by a nonce of its own: a combination of published scalars equals %s", s.name, full)
			}
			continue
		}
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		pv := ks[0]
		inv := new(bigInt).ModInverse(v[pv], hexN)
		nv := vec{}
		nv.addScaled(v, inv)
		nf := canonMod(Scale(full, inv), hexN)
		for i := range done {
			if k, ok := done[i].v[pv]; ok {
				nk := new(bigInt).Neg(k)
				done[i].v.addScaled(nv, nk)
				done[i].full = canonMod(Add(done[i].full, Scale(nf, nk)), hexN)
			}
		}
		done = append(done, row{s.name, nv, nf})
		piv = append(piv, pv)
	}
	return ""
}

func isWitness(a *Atom) bool {
	if a.kind == "sym" {
		switch a.name {
		case "x", "v", "r", "sk", "a", "b", "ua", "ra", "rb":
			return true
		}
	}
	switch a.kind {
	case "inv", "mod", "div", "app", "len":
		for _, q := range a.args {
			for _, t := range q.t {
				for _, f := range t.m {
					if isWitness(atoms[f.a]) {
						return true
					}
				}
			}
		}
	}
	if a.kind == "ind" {
		// a guard is secret when it compares secret scalars; lengths of published coordinates are public
		for _, v := range support(a.bdd) {
			x := B.vars[v]
			switch x.kind {
			case "le":
				for _, t := range x.t.t {
					for _, f := range t.m {
						if isWitness(atoms[f.a]) {
							return true
						}
					}
				}
			case "peq":
			default:
				return true
			}
		}
	}
	return false
}

func (c *Check) checkMasks() {
	for _, s := range sigmas() {
		for _, h := range s.honest {
			s, h := s, h
			c.sub(h.name, func() {
				pr := c.prove(s, h, false)
				w := c.where(pr.fn)
				r := pr.r
				r.st.pc = And(r.st.pc, pr.errNil)
				pt := pr.fn.Signature.Results().At(0).Type()
				var sc []pubScalar
				pts := map[string]*Pt{}
				r.published(pr.proof, pt, "proof", 0, &sc, pts)
				// a second proof of the same statement in the same process
				v2 := r.call(pr.fn, append([]Val{pr.z}, pr.args...)...).(*TupleV)
				r.st.pc = And(r.st.pc, nilCond(v2.v[len(v2.v)-1]))
				c.absorb(r.I)
				var sc2 []pubScalar
				pts2 := map[string]*Pt{}
				r.published(v2.v[0], pt, "second proof", 0, &sc2, pts2)
				for i := range sc {
					sc[i].p = dropInds(sc[i].p, r.st.pc)
				}
				for i := range sc2 {
					sc2[i].p = dropInds(sc2[i].p, r.st.pc)
				}
				why := maskLeaks(sc, isWitness)
				c.ob(why == "", h.name+": every response is masked by a nonce used nowhere else", w, "%s", why)
				why = maskLeaks(append(append([]pubScalar{}, sc...), sc2...), isWitness)
				c.ob(why == "", h.name+": two proofs of one statement share no nonce", w, "%s", why)
				for _, x := range append(sc, sc2...) {
					c.ob(within(x.p, zero, bigSub(hexN, one)), h.name+": "+x.name+" is published reduced into [0, N)", w, "published value is %s", x.p)
				}
				for _, n := range sortedKeys(pts) {
					c.ob(ptHasNonce(pts[n]) || strings.HasSuffix(n, ".Base"), h.name+": published point "+n+" carries a nonce", w, "published point is %s", pts[n])
				}
				known := append([]*Pt{G(), H()}, pr.vpts...)
				all := map[string]*Pt{}
				var names []string
				for _, m := range []map[string]*Pt{pts, pts2} {
					for _, n := range sortedKeys(m) {
						if strings.HasSuffix(n, ".Base") {
							known = append(known, m[n])
							continue
						}
						all[n] = ptDropInds(m[n], r.st.pc)
						names = append(names, n)
					}
				}
				why = pointLeaks(names, all, append(append([]pubScalar{}, sc...), sc2...), known, false)
				c.ob(why == "", h.name+": no combination of published points sheds its nonces", w, "%s", why)
				c.noOtherRand(r, h.name)
			})
		}
	}
	c.sub("NewRangeProof", func() {
		r := newRun(c.P, true)
		r.I.noRandErr = true
		z := r.params()
		val := C(0)
		for i := 0; i < 40; i++ {
			val = Add(val, Scale(Ind(symCond(fmt.Sprintf("bit%d", i))), pow2(i)))
		}
		fn := c.fnOf("NewRangeProof")
		w := c.where(fn)
		v := r.call(fn, z, r.scalar("value", val)).(*TupleV)
		v2 := r.call(fn, z, r.scalar("value", val)).(*TupleV)
		c.absorb(r.I)
		var sc []pubScalar
		pts := map[string]*Pt{}
		r.published(v.v[0], fn.Signature.Results().At(0).Type(), "proof", 0, &sc, pts)
		n1 := len(sc)
		pts2 := map[string]*Pt{}
		r.published(v2.v[0], fn.Signature.Results().At(0).Type(), "second", 0, &sc, pts2)
		used := map[int32]string{}
		_ = n1
		for _, x := range sc {
			if len(x.p.indicators()) == 0 && len(randAtoms(canonMod(x.p, hexN))) == 0 && len(hashAtoms(x.p)) > 0 {
				continue // the challenge
			}
			c.ob(within(x.p, zero, bigSub(hexN, one)), "NewRangeProof: "+x.name+" is published reduced into [0, N)", w, "published value is %s", x.p)
			inds := x.p.indicators()
			if len(inds) > 1 {
				c.ob(false, "NewRangeProof: "+x.name+" depends on its own bit only", w, "%s", x.p)
				continue
			}
			okAll := true
			why := ""
			for _, bit := range []bool{false, true} {
				q := x.p
				if len(inds) == 1 {
					q = q.setInd(inds[0], bit)
				}
				q = canonMod(q, hexN)
				found := false
				for _, t := range q.t {
					if len(t.m) == 1 && t.m[0].e == 1 && t.c.Cmp(one) == 0 {
						a := atoms[t.m[0].a]
						if a.kind == "sym" && strings.HasPrefix(a.name, "rand#") {
							if o, dup := used[a.id]; dup && o != x.name {
								why = "nonce shared with " + o
							} else {
								used[a.id] = x.name
								found = true
							}
						}
					}
				}
				if !found {
					okAll = false
					if why == "" {
						why = fmt.Sprintf("bit=%v: response is %s", bit, q)
					}
				}
			}
			c.ob(okAll, "NewRangeProof: "+x.name+" is masked by a nonce of its own", w, "%s", why)
		}
		for _, m := range []map[string]*Pt{pts, pts2} {
			for _, n := range sortedKeys(m) {
				if strings.Contains(n, "[") {
					c.ob(ptHasNonce(m[n]), "NewRangeProof: commitment "+n+" is blinded whatever its bit", w, "commitment is %s", m[n])
				}
			}
		}
		c.noOtherRand(r, "NewRangeProof")
	})
	for _, pat := range []string{"0000", "1111", "0101", "1010"} {
		pat := pat
		c.sub("NewRangeProof bits "+pat, func() {
			r := newRun(c.P, true)
			r.I.noRandErr = true
			z := r.params()
			val := new(bigInt)
			for i := 0; i < 40; i++ {
				if pat[i%4] == '1' {
					val.Add(val, pow2(i))
				}
			}
			fn := c.fnOf("NewRangeProof")
			t := fn.Signature.Results().At(0).Type()
			all := map[string]*Pt{}
			var names []string
			var sc []pubScalar
			for k := 0; k < 2; k++ {
				v := r.call(fn, z, r.scalar("value", CB(val))).(*TupleV)
				pts := map[string]*Pt{}
				r.published(v.v[0], t, fmt.Sprintf("proof %d", k), 0, &sc, pts)
				for _, n := range sortedKeys(pts) {
					if strings.Contains(n, "[") {
						all[n] = pts[n]
						names = append(names, n)
					}
				}
			}
			c.absorb(r.I)
			c.ob(len(names) == 80, "NewRangeProof bits "+pat+": one commitment per bit", c.where(fn), "%d commitments in two proofs", len(names))
			why := pointLeaks(names, all, sc, nil, true)
			c.ob(why == "", "NewRangeProof bits "+pat+": no combination of published commitments sheds its nonces", c.where(fn), "%s", why)
		})
	}
}

// dropInds resolves the guards that pc decides, also inside other atoms.
func dropInds(p *Poly, pc Bdd) *Poly {
	p = underPc(p, pc)
	for i := 0; i < len(atoms); i++ {
		a := atoms[i]
		if a == nil || a.kind != "ind" || !strings.Contains(p.String(), "[") {
			continue
		}
		if !feasible(And(pc, a.bdd)) {
			p = deepSub(p, []subst{{a.id, C(0)}})
		} else if !feasible(AndNot(pc, a.bdd)) {
			p = deepSub(p, []subst{{a.id, C(1)}})
		}
	}
	return p
}

func ptDropInds(p *Pt, pc Bdd) *Pt {
	m := map[int32]*Poly{}
	for _, t := range p.t {
		m[t.a.id] = dropInds(t.c, pc)
	}
	return mkPt(m)
}

func ptHasNonce(p *Pt) bool {
	if inds := p.indicators(); len(inds) > 0 && len(inds) <= 4 {
		return ptHasNonce(p.setInd(inds[0], true)) && ptHasNonce(p.setInd(inds[0], false))
	}
	for _, t := range p.t {
		if len(randAtoms(t.c)) > 0 {
			return true
		}
	}
	return false
}

func (c *Check) noOtherRand(r *Run, what string) {
	for _, e := range r.I.events {
		if e.kind == "badrand" || e.kind == "randmax" {
			c.ob(false, what+": nonces are uniform from crypto/rand", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
		}
	}
}

func (c *Check) checkRandErr() {
	one := func(name string, w string, r *Run, ok Bdd, minDraws int) {
		n := 0
		for _, e := range r.I.events {
			switch e.kind {
			case "rand":
				n++
				i := strings.Index(e.what, "#")
				if i < 0 {
					continue
				}
				er := symCond("randerr#" + e.what[i+1:])
				bad := And(ok, And(e.cond, er))
				c.ob(!feasible(bad), name+": failure of the randomness source at this draw aborts the proof", c.P.pos(e.pos)+" "+e.fn, "success is still reported under %s", condStr(bad))
			case "panic":
				c.ob(false, name+": randomness failure is reported as an error", c.P.pos(e.pos)+" "+e.fn, "panic instead: %s", e.what)
			}
		}
		c.randRules(r, name)
		c.ob(n >= minDraws, name+": draws enough nonces", w, "only %d draws, at least %d needed", n, minDraws)
		c.ob(feasible(ok), name+": succeeds when randomness is available", w, "never succeeds")
	}
	min := map[string]int{"GSPFSProof": 1, "EquivalenceProof": 1, "ConsistencyProof": 2, "DisjunctiveProof": 3, "ABCProof": 8, "InequalityProof": 8}
	for _, s := range sigmas() {
		for _, h := range s.honest {
			s, h := s, h
			c.sub(h.name, func() {
				pr := c.prove(s, h, true)
				c.absorb(pr.r.I)
				one(h.name, c.where(pr.fn), pr.r, And(pr.r.st.pc, pr.errNil), min[s.typ])
			})
		}
	}
	for _, bit := range []int64{0, 1} {
		bit := bit
		draws := 1
		for d := 0; d < draws; d++ {
			d := d
			c.sub("NewRangeProof", func() {
				r := newRun(c.P, true)
				r.I.randErrOnly = d
				z := r.params()
				fn := c.fnOf("NewRangeProof")
				val := C(0)
				if bit == 1 {
					val = CB(bigSub(pow2(40), bi(1)))
				}
				v := r.call(fn, z, r.scalar("value", val)).(*TupleV)
				c.absorb(r.I)
				name := fmt.Sprintf("NewRangeProof (all bits %d)", bit)
				ok := And(r.st.pc, nilCond(v.v[2]))
				if d == 0 {
					draws = r.I.randN
					c.randRules(r, name)
					c.ob(draws >= 80, name+": draws enough nonces", c.where(fn), "only %d draws, at least 80 needed", draws)
					c.ob(feasible(ok), name+": succeeds when randomness is available", c.where(fn), "never succeeds")
				}
				for _, e := range r.I.events {
					if e.kind == "rand" && strings.HasSuffix(e.what, fmt.Sprintf("#%d", d)) {
						bad := And(ok, And(e.cond, symCond(fmt.Sprintf("randerr#%d", d))))
						c.ob(!feasible(bad), fmt.Sprintf("%s: failure of the randomness source at draw %d aborts the proof", name, d), c.P.pos(e.pos)+" "+e.fn, "success is still reported under %s", condStr(bad))
					}
				}
				c.noPanics(r, fmt.Sprintf("%s, draw %d failing", name, d))
			})
		}
	}
	c.sub("PedCommit", func() {
		r := newRun(c.P, true)
		fn := c.fnOf("PedCommit")
		v := r.call(fn, r.params(), r.scalar("v", scalarSym("v"))).(*TupleV)
		c.absorb(r.I)
		one("PedCommit", c.where(fn), r, And(r.st.pc, nilCond(v.v[2])), 1)
	})
	c.sub("KeyGen", func() {
		r := newRun(c.P, true)
		fn := c.fnOf("KeyGen")
		z := r.params().(*StructV)
		r.call(fn, z.f[0], r.point("base", PtSym("Base")))
		c.absorb(r.I)
		for _, e := range r.I.events {
			if e.kind == "rand" {
				er := symCond("randerr#" + e.what[strings.Index(e.what, "#")+1:])
				c.ob(!feasible(And(r.st.pc, And(e.cond, er))), "KeyGen: failure of the randomness source yields no key", c.P.pos(e.pos), "a key is returned")
			}
		}
		c.randRules(r, "KeyGen")
	})
}

// ---- C10 ----

func (c *Check) checkVerdict() {
	types_ := sigmas()
	for _, s := range types_ {
		s := s
		c.sub(s.typ+" verdict", func() {
			r, acc, en, _ := c.verifySym(s, nil)
			w := c.where(c.verifyFn(s.typ))
			c.ob(impliesDeep(acc, en), s.typ+": true is returned only with a nil error", w, "true with an error under %s", condStr(And(acc, Not(en))))
			c.ob(impliesDeep(en, acc), s.typ+": a nil error is returned only with true", w, "false with a nil error under %s", condStr(And(en, Not(acc))))
			c.noPanics(r, s.typ+".Verify")
			c.ob(r.st.pc == True || impliesDeep(True, r.st.pc), s.typ+".Verify always returns", w, "does not return under %s", condStr(Not(r.st.pc)))
		})
		c.sub(s.typ+" nil", func() {
			r := newRun(c.P, true)
			args := []Val{nilPtr(), r.params()}
			for _, n := range s.stmtPts {
				args = append(args, r.point(n, PtSym(n)))
			}
			fn := c.verifyFn(s.typ)
			c.nilVerdict(r, s.typ, r.call(fn, args...), c.where(fn))
		})
	}
	for _, n := range []int{0, 2, 40, 64} {
		n := n
		c.sub("RangeProof verdict", func() {
			r, acc, en := c.rangeSym(C(int64(n)), false)
			w := c.where(c.verifyFn("RangeProof"))
			c.ob(implies(acc, en), fmt.Sprintf("RangeProof(%d): true is returned only with a nil error", n), w, "true with an error under %s", condStr(And(acc, Not(en))))
			c.ob(implies(en, acc), fmt.Sprintf("RangeProof(%d): a nil error is returned only with true", n), w, "false with a nil error under %s", condStr(And(en, Not(acc))))
			c.noPanics(r, "RangeProof.Verify")
		})
	}
	c.sub("RangeProof incomplete", func() {
		// any field may be missing
		for _, n := range []int64{0, 1, 3} {
			r := newRun(c.P, true)
			z := r.params()
			o := &symOpts{origin: "param:proof", nilable: func(string, types.Type) bool { return true }, sliceLen: func(path string, t types.Type) *Poly { return C(n) }}
			p := r.havocProof("RangeProof", o)
			fn := c.verifyFn("RangeProof")
			v := r.call(fn, p, z, r.point("comm", PtSym("comm")))
			c.absorb(r.I)
			acc, en := verdict(v)
			w := c.where(fn)
			c.noPanics(r, fmt.Sprintf("RangeProof with %d entries and missing fields", n))
			anyNil := False
			for i, x := range B.vars {
				if x.kind == "sym" && strings.HasPrefix(x.name, "nil(proof") {
					anyNil = Or(anyNil, B.varNode(int32(i)))
				}
			}
			c.ob(!feasible(And(acc, anyNil)) && !feasible(And(en, anyNil)), fmt.Sprintf("RangeProof with %d entries and a missing field is rejected with an error", n), w, "accepted under %s", condStr(And(acc, anyNil)))
		}
	})
	c.sub("RangeProof nil", func() {
		r := newRun(c.P, true)
		fn := c.verifyFn("RangeProof")
		c.nilVerdict(r, "RangeProof", r.call(fn, nilPtr(), r.params(), r.point("comm", PtSym("comm"))), c.where(fn))
	})
}

func (c *Check) nilVerdict(r *Run, typ string, v Val, w string) {
	c.absorb(r.I)
	c.noPanics(r, typ+".Verify on a nil proof")
	acc, en := verdict(v)
	c.ob(!feasible(And(r.st.pc, acc)) && !feasible(And(r.st.pc, en)) && feasible(r.st.pc), typ+": a nil proof is rejected with an error", w, "verdict %s, nil error %s", condStr(acc), condStr(en))
}

func init() {
	register(&checkDef{id: "C08", run: func(c *Check) { c.checkRandErr() }})
	register(&checkDef{id: "C09", run: func(c *Check) { c.checkMasks() }})
	register(&checkDef{id: "C10", run: func(c *Check) { c.checkVerdict() }})
	register(&checkDef{id: "C11", run: func(c *Check) { c.checkEqual() }})
	register(&checkDef{id: "C12", run: func(c *Check) { c.checkPrims(); c.checkCommit() }})
}

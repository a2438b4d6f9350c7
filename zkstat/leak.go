package main

import (
	"fmt"
	"sort"
	"strings"
)

// Published points: no linear combination with constant coefficients may cancel every private nonce
// unless what remains is computable from the public points.

func isRandAtom(a *Atom) bool { return a.kind == "sym" && strings.HasPrefix(a.name, "rand#") }

type ptRow struct {
	name  string
	nonce vec            // (base point, monomial) columns that carry a private nonce
	rest  map[string]vec // public monomial -> (base point, remaining monomial) columns
}

func mkRow(name string, p *Pt, pub func(a *Atom) bool) *ptRow {
	r := &ptRow{name: name, nonce: vec{}, rest: map[string]vec{}}
	for _, t := range p.t {
		for _, m := range canonMod(t.c, hexN).t {
			private := false
			var pm, sm []fac
			for _, f := range m.m {
				a := atoms[f.a]
				switch {
				case pub(a):
					pm = append(pm, f)
				default:
					if isRandAtom(a) {
						private = true
					}
					sm = append(sm, f)
				}
			}
			if private {
				r.nonce.addScaled(vec{fmt.Sprintf("%d|%s", t.a.id, monoKey(m.m)): m.c}, one)
				continue
			}
			k := monoKey(pm)
			if r.rest[k] == nil {
				r.rest[k] = vec{}
			}
			r.rest[k].addScaled(vec{fmt.Sprintf("%d|%s", t.a.id, monoKey(sm)): m.c}, one)
		}
	}
	return r
}

func (r *ptRow) add(o *ptRow, k bigPtr) {
	r.nonce.addScaled(o.nonce, k)
	for m, v := range o.rest {
		if r.rest[m] == nil {
			r.rest[m] = vec{}
		}
		r.rest[m].addScaled(v, k)
	}
}

func minKey(v vec) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks[0]
}

type span struct {
	rows []vec
	piv  []string
}

func (s *span) reduce(v vec) vec {
	w := vec{}
	w.addScaled(v, one)
	for i, p := range s.piv {
		if k, ok := w[p]; ok {
			w.addScaled(s.rows[i], new(bigInt).Neg(k))
		}
	}
	return w
}

func (s *span) insert(v vec) {
	w := s.reduce(v)
	if len(w) == 0 {
		return
	}
	p := minKey(w)
	inv := new(bigInt).ModInverse(w[p], hexN)
	n := vec{}
	n.addScaled(w, inv)
	for i := range s.rows {
		if k, ok := s.rows[i][p]; ok {
			s.rows[i].addScaled(n, new(bigInt).Neg(k))
		}
	}
	s.rows = append(s.rows, n)
	s.piv = append(s.piv, p)
}

// pointLeaks returns a description of a combination of published points that sheds every nonce.
// known: points the verifier has anyway. strict: nothing may shed its nonces (used when the secret is a constant).
func pointLeaks(names []string, pts map[string]*Pt, sc []pubScalar, known []*Pt, strict bool) string {
	open := map[int32]bool{}
	for _, s := range sc {
		if a := canonMod(s.p, hexN).isAtom(); a != nil && isRandAtom(a) {
			open[a.id] = true
		}
	}
	pub := func(a *Atom) bool { return open[a.id] || a.kind == "int" || a.kind == "hb" }
	base := &span{}
	for i, k := range known {
		r := mkRow(fmt.Sprint("known", i), k, pub)
		v := vec{}
		for m, x := range r.rest {
			if m == "" {
				v.addScaled(x, one)
			}
		}
		base.insert(v)
	}
	var done []*ptRow
	var piv []string
	for _, n := range names {
		r := mkRow(n, pts[n], pub)
		for i, d := range done {
			if k, ok := r.nonce[piv[i]]; ok {
				r.add(d, new(bigInt).Neg(k))
			}
		}
		if len(r.nonce) == 0 {
			for m, v := range r.rest {
				if len(v) == 0 {
					continue
				}
				if strict || len(base.reduce(v)) > 0 {
					return fmt.Sprintf("a combination of %s with the points published before it cancels every nonce and is not a public point (coefficient %q)", n, m)
				}
			}
			continue
		}
		p := minKey(r.nonce)
		inv := new(bigInt).ModInverse(r.nonce[p], hexN)
		s := &ptRow{name: n, nonce: vec{}, rest: map[string]vec{}}
		s.add(r, inv)
		for _, d := range done {
			if k, ok := d.nonce[p]; ok {
				d.add(s, new(bigInt).Neg(k))
			}
		}
		done = append(done, s)
		piv = append(piv, p)
	}
	return ""
}

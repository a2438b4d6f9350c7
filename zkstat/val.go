package main

// Abstract values, heap and states.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Step struct {
	f   int
	idx *Poly // non-nil: array element
}

func (s Step) key() string {
	if s.idx != nil {
		return "[" + s.idx.key + "]"
	}
	return fmt.Sprintf(".%d", s.f)
}
func pathKey(p []Step) string {
	if len(p) == 0 {
		return ""
	}
	var sb strings.Builder
	for _, s := range p {
		sb.WriteString(s.key())
	}
	return sb.String()
}

type PtrAlt struct {
	c    Bdd
	obj  int // 0 = nil
	path []Step
}
type PtrV struct{ alts []PtrAlt }

type SliceAlt struct {
	c             Bdd
	obj           int // 0 = nil slice
	path          []Step
	off, len, cap *Poly
}
type SliceV struct{ alts []SliceAlt }

type IfAlt struct {
	c   Bdd
	t   types.Type // nil with ext=="" is the nil interface
	ext string
	v   Val
}
type IfaceV struct{ alts []IfAlt }

type FnAlt struct {
	c     Bdd
	fn    *ssa.Function
	ext   string
	binds []Val
}
type FuncV struct{ alts []FnAlt }

type StructV struct{ f []Val }
type ArrV struct{ e []Val }
type ArrSymV struct { // array of statically unknown length (non-bytes)
	n    *Poly
	elem types.Type
	name string
}
type TupleV struct{ v []Val }
type BigV struct{ p *Poly }
type ExtV struct {
	kind string
	seq  *SeqV
	vals []Val
	n    *Poly
	name string
	flag Bdd
}
type MapV struct {
	keys []Val
	vals []Val
	opaq bool
	elem types.Type
}
type Opaque struct {
	name string
	typ  types.Type
}

// ---- objects ----

type Obj struct {
	id     int
	typ    types.Type
	origin string // "param:..", "global:..", "alloc", "ext"
	pos    token.Pos
	fn     string
	gor    int // goroutine that created it
}

// ---- persistent heap ----

type hnode struct {
	kids [16]*hnode
	vals [16]Val
}

const hdepth = 5 // 16^5 objects

func hget(h *hnode, id int) (Val, bool) {
	for d := hdepth - 1; d > 0; d-- {
		if h == nil {
			return nil, false
		}
		h = h.kids[(id>>(4*uint(d)))&15]
	}
	if h == nil {
		return nil, false
	}
	v := h.vals[id&15]
	return v, v != nil
}
func hset(h *hnode, id int, v Val) *hnode { return hset1(h, id, v, hdepth-1) }
func hset1(h *hnode, id int, v Val, d int) *hnode {
	n := &hnode{}
	if h != nil {
		*n = *h
	}
	if d == 0 {
		n.vals[id&15] = v
	} else {
		i := (id >> (4 * uint(d))) & 15
		n.kids[i] = hset1(n.kids[i], id, v, d-1)
	}
	return n
}
func hmerge(a, b *hnode, d int, f func(a, b Val) Val) *hnode {
	if a == b {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	n := &hnode{}
	for i := 0; i < 16; i++ {
		if d == 0 {
			switch {
			case a.vals[i] == nil:
				n.vals[i] = b.vals[i]
			case b.vals[i] == nil:
				n.vals[i] = a.vals[i]
			default:
				n.vals[i] = f(a.vals[i], b.vals[i])
			}
		} else {
			n.kids[i] = hmerge(a.kids[i], b.kids[i], d-1, f)
		}
	}
	return n
}

// ---- guarded merging ----

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Poly:
		return x == b
	case Bdd:
		y, ok := b.(Bdd)
		return ok && x == y
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.alts {
			if x.alts[i].c != y.alts[i].c || x.alts[i].obj != y.alts[i].obj || pathKey(x.alts[i].path) != pathKey(y.alts[i].path) {
				return false
			}
		}
		return true
	case *BigV:
		y, ok := b.(*BigV)
		return ok && x.p == y.p
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i] != y.alts[i] {
				return false
			}
		}
		return true
	case *GFV:
		y, ok := b.(*GFV)
		return ok && sameGF(x, y)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

var mergeNotes int

func iteVal(c Bdd, a, b Val) Val {
	if c == True || a == nil && b == nil {
		return a
	}
	if c == False {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if sameVal(a, b) {
		return a
	}
	if _, ok := a.(*GFV); ok {
		if y, ok := asGFV(b); ok {
			return iteGF(c, a.(*GFV), y)
		}
	} else if y, ok := b.(*GFV); ok {
		if x, ok := asGFV(a); ok {
			return iteGF(c, x, y)
		}
	}
	switch x := a.(type) {
	case *Poly:
		if y, ok := b.(*Poly); ok {
			return IteP(c, x, y)
		}
	case Bdd:
		if y, ok := b.(Bdd); ok {
			return B.ite(c, x, y)
		}
	case *BigV:
		if y, ok := b.(*BigV); ok {
			return &BigV{IteP(c, x.p, y.p)}
		}
	case *SeqV:
		if y, ok := b.(*SeqV); ok {
			return iteSeqV(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(y.f) == len(x.f) {
			if v := itePoint(c, x, y); v != nil {
				return v
			}
			r := &StructV{make([]Val, len(x.f))}
			for i := range x.f {
				r.f[i] = iteVal(c, x.f[i], y.f[i])
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(y.e) == len(x.e) {
			r := &ArrV{make([]Val, len(x.e))}
			for i := range x.e {
				r.e[i] = iteVal(c, x.e[i], y.e[i])
			}
			return r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(y.v) == len(x.v) {
			r := &TupleV{make([]Val, len(x.v))}
			for i := range x.v {
				r.v[i] = iteVal(c, x.v[i], y.v[i])
			}
			return r
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			return itePtr(c, x, y)
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return iteSlice(c, x, y)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			return iteIface(c, x, y)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			var alts []FnAlt
			nc := Not(c)
			for _, p := range x.alts {
				if g := And(c, p.c); g != False {
					alts = append(alts, FnAlt{g, p.fn, p.ext, p.binds})
				}
			}
			for _, p := range y.alts {
				if g := And(nc, p.c); g != False {
					alts = append(alts, FnAlt{g, p.fn, p.ext, p.binds})
				}
			}
			return &FuncV{alts}
		}
	case *ExtV:
		if y, ok := b.(*ExtV); ok && y.kind == x.kind && len(x.vals) == len(y.vals) {
			r := &ExtV{kind: x.kind, name: x.name}
			if x.seq != nil && y.seq != nil {
				r.seq = iteSeqV(c, x.seq, y.seq)
			}
			if x.n != nil && y.n != nil {
				r.n = IteP(c, x.n, y.n)
			}
			r.flag = B.ite(c, x.flag, y.flag)
			for i := range x.vals {
				r.vals = append(r.vals, iteVal(c, x.vals[i], y.vals[i]))
			}
			return r
		}
	case *chanMsg:
		if y, ok := b.(*chanMsg); ok && x.gor == y.gor {
			m := &chanMsg{cond: Or(x.cond, y.cond), gor: x.gor, t: x.t}
			if y.t > m.t {
				m.t = y.t
			}
			if x.v != nil && y.v != nil {
				m.v = iteVal(c, x.v, y.v)
			}
			m.at = append(append([]sendAt{}, x.at...), y.at...)
			return m
		}
	case *ArrSymV:
		if _, ok := b.(*ArrSymV); ok {
			return x
		}
	}
	mergeNotes++
	return &Opaque{name: fmt.Sprintf("merge#%d", mergeNotes)}
}

// itePoint is a hook for merging two-field structs of integers pointers; handled fieldwise.
func itePoint(c Bdd, x, y *StructV) Val { return nil }

func itePtr(c Bdd, x, y *PtrV) *PtrV {
	var alts []PtrAlt
	add := func(g Bdd, p PtrAlt) {
		if g == False {
			return
		}
		k := pathKey(p.path)
		for i := range alts {
			if alts[i].obj == p.obj && pathKey(alts[i].path) == k {
				alts[i].c = Or(alts[i].c, g)
				return
			}
		}
		alts = append(alts, PtrAlt{g, p.obj, p.path})
	}
	nc := Not(c)
	for _, p := range x.alts {
		add(And(c, p.c), p)
	}
	for _, p := range y.alts {
		add(And(nc, p.c), p)
	}
	sort.Slice(alts, func(i, j int) bool {
		if alts[i].obj != alts[j].obj {
			return alts[i].obj < alts[j].obj
		}
		return pathKey(alts[i].path) < pathKey(alts[j].path)
	})
	if len(alts) == 1 {
		alts[0].c = True
	}
	return &PtrV{alts}
}

func iteSlice(c Bdd, x, y *SliceV) *SliceV {
	var alts []SliceAlt
	add := func(g Bdd, p SliceAlt) {
		if g == False {
			return
		}
		for i := range alts {
			if alts[i].obj == p.obj && alts[i].off == p.off && alts[i].len == p.len && alts[i].cap == p.cap && pathKey(alts[i].path) == pathKey(p.path) {
				alts[i].c = Or(alts[i].c, g)
				return
			}
		}
		p.c = g
		alts = append(alts, p)
	}
	nc := Not(c)
	for _, p := range x.alts {
		add(And(c, p.c), p)
	}
	for _, p := range y.alts {
		add(And(nc, p.c), p)
	}
	sort.SliceStable(alts, func(i, j int) bool { return alts[i].obj < alts[j].obj })
	if len(alts) == 1 {
		alts[0].c = True
	}
	return &SliceV{alts}
}

func iteIface(c Bdd, x, y *IfaceV) *IfaceV {
	var alts []IfAlt
	add := func(g Bdd, p IfAlt) {
		if g == False {
			return
		}
		for i := range alts {
			q := &alts[i]
			if q.ext == p.ext && (q.t == nil) == (p.t == nil) && (q.t == nil || types.Identical(q.t, p.t)) && (sameVal(q.v, p.v) || q.t == nil) {
				q.c = Or(q.c, g)
				return
			}
		}
		p.c = g
		alts = append(alts, p)
	}
	nc := Not(c)
	for _, p := range x.alts {
		add(And(c, p.c), p)
	}
	for _, p := range y.alts {
		add(And(nc, p.c), p)
	}
	if len(alts) == 1 {
		alts[0].c = True
	}
	return &IfaceV{alts}
}

func nilPtr() *PtrV     { return &PtrV{[]PtrAlt{{True, 0, nil}}} }
func nilIface() *IfaceV { return &IfaceV{[]IfAlt{{c: True}}} }
func nilSlice() *SliceV {
	return &SliceV{[]SliceAlt{{c: True, off: C(0), len: C(0), cap: C(0)}}}
}
func ptrTo(obj int, path ...Step) *PtrV { return &PtrV{[]PtrAlt{{True, obj, path}}} }

// nilCond is the condition that pointer-like v is nil.
func nilCond(v Val) Bdd {
	r := False
	switch x := v.(type) {
	case *PtrV:
		for _, a := range x.alts {
			if a.obj == 0 {
				r = Or(r, a.c)
			}
		}
	case *SliceV:
		for _, a := range x.alts {
			if a.obj == 0 {
				r = Or(r, a.c)
			}
		}
	case *IfaceV:
		for _, a := range x.alts {
			if a.t == nil && a.ext == "" {
				r = Or(r, a.c)
			}
		}
	case *FuncV:
		for _, a := range x.alts {
			if a.fn == nil && a.ext == "" {
				r = Or(r, a.c)
			}
		}
	case *Opaque:
		return symCond("nil?" + x.name)
	}
	return r
}

// ---- condition printing ----

func condStr(f Bdd) string {
	if f == True {
		return "true"
	}
	if f == False {
		return "false"
	}
	cs, ok := cubes(f, 4)
	if !ok && len(cs) == 0 {
		return "…"
	}
	var out []string
	for _, c := range cs {
		out = append(out, cubeStr(c))
	}
	s := strings.Join(out, " ∨ ")
	if !ok {
		s += " ∨ …"
	}
	if len(s) > 500 {
		s = clip(s, 500)
	}
	return s
}

func cubeStr(c map[int32]bool) string {
	var vs []int32
	for v := range c {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	var out []string
	for _, v := range vs {
		out = append(out, litStr(v, c[v]))
	}
	return strings.Join(out, " ∧ ")
}

func boundStr(k *big.Int) string {
	switch new(big.Int).Add(k, one).Cmp(hexN) {
	case 0:
		return "N-1"
	}
	if new(big.Int).Add(k, one).Cmp(hexP) == 0 {
		return "P-1"
	}
	return k.String()
}

func litStr(v int32, pos bool) string {
	a := B.vars[v]
	switch a.kind {
	case "le":
		if pos {
			return "(" + a.t.String() + " ≤ " + boundStr(a.k) + ")"
		}
		return "(" + a.t.String() + " > " + boundStr(a.k) + ")"
	case "peq":
		if pos {
			return "(" + a.pt.String() + " = O)"
		}
		return "(" + a.pt.String() + " ≠ O)"
	}
	if pos {
		return a.name
	}
	return "¬" + a.name
}

// ---- linear feasibility (rational Fourier–Motzkin on a cube's threshold literals) ----

type linRow struct {
	co map[string]*big.Rat // monomial -> coefficient
	k  *big.Rat            // sum <= k
}

// feasibleLin refines feasible with linear arithmetic over each satisfying cube.
func feasibleLin(f Bdd) bool {
	if !feasible(f) {
		return false
	}
	for _, g := range groups(f, true) {
		if !feasibleLin1(g) {
			return false
		}
	}
	return true
}

func feasibleLin1(f Bdd) bool {
	if e, ok := B.feasL[f]; ok {
		if !e.r || stampOf(e.supp) == e.stamp {
			return e.r
		}
	}
	g := withAxioms(f)
	r := cubesLinFeasible(g)
	sup := support(g)
	B.feasL[f] = feasE{r, sup, stampOf(sup)}
	return r
}

func cubesLinFeasible(g Bdd) bool {
	if g == False {
		return false
	}
	le := false
	for _, v := range support(g) {
		le = le || B.vars[v].kind == "le"
	}
	if !le {
		return true
	}
	cs, ok := cubes(g, 64)
	if !ok {
		return true
	}
	for _, c := range cs {
		if cubeLinFeasible(c) {
			return true
		}
	}
	return false
}

func cubeLinFeasible(c map[int32]bool) bool {
	var rows []linRow
	ms := map[string][]fac{}
	addRow := func(p *Poly, k *big.Int) { // p <= k
		r := linRow{map[string]*big.Rat{}, new(big.Rat).SetInt(k)}
		for _, t := range p.t {
			if len(t.m) == 0 {
				r.k.Sub(r.k, new(big.Rat).SetInt(t.c))
				continue
			}
			mk := monoKey(t.m)
			ms[mk] = t.m
			r.co[mk] = new(big.Rat).SetInt(t.c)
		}
		rows = append(rows, r)
	}
	for v, pos := range c {
		a := B.vars[v]
		if a.kind != "le" {
			continue
		}
		if pos {
			addRow(a.t, a.k)
		} else {
			addRow(Neg(a.t), new(big.Int).Sub(new(big.Int).Neg(a.k), one))
		}
	}
	if len(rows) == 0 {
		return true
	}
	for mk, m := range ms {
		p := mkPoly([]Term{{m, one}})
		lo, hi := p.interval()
		if hi != nil {
			rows = append(rows, linRow{map[string]*big.Rat{mk: big.NewRat(1, 1)}, new(big.Rat).SetInt(hi)})
		}
		if lo != nil {
			rows = append(rows, linRow{map[string]*big.Rat{mk: big.NewRat(-1, 1)}, new(big.Rat).SetInt(new(big.Int).Neg(lo))})
		}
	}
	for len(ms) > 0 {
		// choose variable with fewest products
		best, bestN := "", 1<<30
		for mk := range ms {
			p, n := 0, 0
			for _, r := range rows {
				if x, ok := r.co[mk]; ok {
					if x.Sign() > 0 {
						p++
					} else if x.Sign() < 0 {
						n++
					}
				}
			}
			if p*n < bestN || p*n == bestN && mk < best {
				best, bestN = mk, p*n
			}
		}
		var pos, neg, rest []linRow
		for _, r := range rows {
			x, ok := r.co[best]
			if !ok || x.Sign() == 0 {
				delete(r.co, best)
				rest = append(rest, r)
			} else if x.Sign() > 0 {
				pos = append(pos, r)
			} else {
				neg = append(neg, r)
			}
		}
		if len(pos)*len(neg) > 4000 {
			return true
		}
		for _, a := range pos {
			for _, b := range neg {
				fa := new(big.Rat).Neg(b.co[best])
				fb := a.co[best]
				n := linRow{map[string]*big.Rat{}, new(big.Rat).Add(new(big.Rat).Mul(a.k, fa), new(big.Rat).Mul(b.k, fb))}
				for mk, x := range a.co {
					n.co[mk] = new(big.Rat).Mul(x, fa)
				}
				for mk, x := range b.co {
					y := new(big.Rat).Mul(x, fb)
					if o, ok := n.co[mk]; ok {
						y.Add(y, o)
					}
					n.co[mk] = y
				}
				delete(n.co, best)
				empty := true
				for mk, x := range n.co {
					if x.Sign() == 0 {
						delete(n.co, mk)
					} else {
						empty = false
					}
				}
				if empty {
					if n.k.Sign() < 0 {
						return false
					}
					continue
				}
				rest = append(rest, n)
			}
		}
		rows = rest
		delete(ms, best)
	}
	for _, r := range rows {
		if len(r.co) == 0 && r.k.Sign() < 0 {
			return false
		}
	}
	return true
}

package main

// Reduced ordered binary decision diagrams over interned atomic conditions.
// Path predicates and guarded values of the abstract domain are BDDs, so two
// guards are equivalent (as propositional formulas) iff they are the same node.

import "sort"

type Bdd int32

const (
	False Bdd = 0
	True  Bdd = 1
)

type bddNode struct {
	v      int32
	lo, hi Bdd
}

type bddKey struct {
	v      int32
	lo, hi Bdd
}
type iteKey struct{ f, g, h Bdd }

type bddMgr struct {
	nodes  []bddNode
	uniq   map[bddKey]Bdd
	iteC   map[iteKey]Bdd
	suppC  map[Bdd][]int32
	conC   map[[2]Bdd]Bdd
	feasC  map[Bdd]bool
	axGen  int
	feasG  int
	vars   []*CondAtom       // condition atom of each variable
	byKey  map[string]int32  // atom key -> var
	chains map[string]*chain // threshold chains
	axioms []axiom           // other axioms
	feas1  map[Bdd]feasE
	feasL  map[Bdd]feasE
	segC   map[Bdd][]Bdd
	axBy   map[int32][]int // var -> axioms mentioning it
}

type axiom struct {
	f    Bdd
	supp []int32
}

// CondAtom is the meaning of a BDD variable.
type CondAtom struct {
	kind string // "le" (t <= k), "peq" (point == infinity), "sym", ...
	t    *Poly  // le
	k    *bigInt
	pt   *Pt
	name string
	neg  bool // negligible: assumed false (cryptographic assumption)
}

type chain struct {
	t    *Poly
	vars []int32 // sorted by threshold
}

func newBddMgr() *bddMgr {
	m := &bddMgr{uniq: map[bddKey]Bdd{}, iteC: map[iteKey]Bdd{}, suppC: map[Bdd][]int32{}, conC: map[[2]Bdd]Bdd{}, feasC: map[Bdd]bool{}, feas1: map[Bdd]feasE{}, feasL: map[Bdd]feasE{}, segC: map[Bdd][]Bdd{}, byKey: map[string]int32{}, chains: map[string]*chain{}, axBy: map[int32][]int{}}
	m.nodes = []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}}
	return m
}

var B = newBddMgr()

func (m *bddMgr) mk(v int32, lo, hi Bdd) Bdd {
	if lo == hi {
		return lo
	}
	k := bddKey{v, lo, hi}
	if n, ok := m.uniq[k]; ok {
		return n
	}
	n := Bdd(len(m.nodes))
	m.nodes = append(m.nodes, bddNode{v, lo, hi})
	m.uniq[k] = n
	return n
}

func (m *bddMgr) varNode(v int32) Bdd { return m.mk(v, False, True) }

func (m *bddMgr) ite(f, g, h Bdd) Bdd {
	if f == True {
		return g
	}
	if f == False {
		return h
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	k := iteKey{f, g, h}
	if r, ok := m.iteC[k]; ok {
		return r
	}
	v := m.nodes[f].v
	if m.nodes[g].v < v {
		v = m.nodes[g].v
	}
	if m.nodes[h].v < v {
		v = m.nodes[h].v
	}
	co := func(x Bdd, hi bool) Bdd {
		n := m.nodes[x]
		if n.v != v {
			return x
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	lo := m.ite(co(f, false), co(g, false), co(h, false))
	hi := m.ite(co(f, true), co(g, true), co(h, true))
	r := m.mk(v, lo, hi)
	m.iteC[k] = r
	return r
}

func And(a, b Bdd) Bdd { return B.ite(a, b, False) }
func Or(a, b Bdd) Bdd  { return B.ite(a, True, b) }
func Not(a Bdd) Bdd    { return B.ite(a, False, True) }
func Xor(a, b Bdd) Bdd { return B.ite(a, Not(b), b) }
func Iff(a, b Bdd) Bdd { return B.ite(a, b, Not(b)) }
func AndNot(a, b Bdd) Bdd {
	return And(a, Not(b))
}

// cofactor of f with variable v fixed.
func cofactor(f Bdd, v int32, val bool) Bdd {
	if val {
		return constrain(f, B.varNode(v))
	}
	return constrain(f, Not(B.varNode(v)))
}

// constrain is the generalised cofactor f|c (c must not be False).
func constrain(f, c Bdd) Bdd {
	if c == True || f <= 1 {
		return f
	}
	if c == False {
		return False
	}
	if f == c {
		return True
	}
	k := [2]Bdd{f, c}
	if r, ok := B.conC[k]; ok {
		return r
	}
	fn, cn := B.nodes[f], B.nodes[c]
	v := fn.v
	if cn.v < v {
		v = cn.v
	}
	f0, f1, c0, c1 := f, f, c, c
	if fn.v == v {
		f0, f1 = fn.lo, fn.hi
	}
	if cn.v == v {
		c0, c1 = cn.lo, cn.hi
	}
	var r Bdd
	if c0 == False {
		r = constrain(f1, c1)
	} else if c1 == False {
		r = constrain(f0, c0)
	} else {
		r = B.mk(v, constrain(f0, c0), constrain(f1, c1))
	}
	B.conC[k] = r
	return r
}

// restrictTo simplifies f using care set c (Coudert-Madre restrict).
func restrictTo(f, c Bdd) Bdd {
	if c == False || f <= 1 || c == True {
		return f
	}
	// quantify out of c the variables not in the support of f
	sf := map[int32]bool{}
	for _, v := range support(f) {
		sf[v] = true
	}
	cc := c
	for _, v := range support(c) {
		if !sf[v] {
			cc = Or(cofactor(cc, v, false), cofactor(cc, v, true))
		}
	}
	return constrain(f, cc)
}

func support(f Bdd) []int32 {
	if f <= 1 {
		return nil
	}
	if s, ok := B.suppC[f]; ok {
		return s
	}
	seen := map[Bdd]bool{}
	vs := map[int32]bool{}
	var walk func(Bdd)
	walk = func(x Bdd) {
		if x <= 1 || seen[x] {
			return
		}
		seen[x] = true
		n := B.nodes[x]
		vs[n.v] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(f)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	B.suppC[f] = out
	return out
}

func addAxiom(f Bdd) {
	if f == True {
		return
	}
	s := support(f)
	B.axioms = append(B.axioms, axiom{f, s})
	for _, v := range s {
		B.axBy[v] = append(B.axBy[v], len(B.axioms)-1)
	}
	B.axGen++
}

// withAxioms conjoins the axioms relevant to f's support.
func withAxioms(f Bdd) Bdd {
	if f <= 1 {
		return f
	}
	s := support(f)
	in := map[int32]bool{}
	for _, v := range s {
		in[v] = true
	}
	g := f
	// thresholds
	byChain := map[*chain]bool{}
	for _, v := range s {
		a := B.vars[v]
		if a.kind == "le" {
			c := B.chains[a.t.key]
			if byChain[c] {
				continue
			}
			byChain[c] = true
			prev := int32(-1)
			for _, w := range c.vars {
				if !in[w] {
					continue
				}
				if prev >= 0 {
					g = And(g, Or(Not(B.varNode(prev)), B.varNode(w)))
				}
				prev = w
			}
		}
		if a.neg {
			g = And(g, Not(B.varNode(v)))
		}
	}
	done := map[int]bool{}
	for _, v := range s {
		for _, i := range B.axBy[v] {
			if !done[i] {
				done[i] = true
				// an axiom is useful only if it shares >= 1 variable; variables outside
				// the support are existentially quantified by satisfiability anyway
				g = And(g, B.axioms[i].f)
			}
		}
	}
	return g
}

// segments splits f into a conjunction of functions over disjoint, consecutive variable ranges
// (the articulation points of its diagram).
func segments(f Bdd) []Bdd {
	if s, ok := B.segC[f]; ok {
		return s
	}
	// nodes in variable order
	var arts []Bdd
	h := &bddHeap{}
	seen := map[Bdd]bool{}
	push := func(x Bdd) {
		if x != False && !seen[x] {
			seen[x] = true
			h.push(x)
		}
	}
	push(f)
	trueSeen := false
	for h.len() > 0 {
		if h.len() == 1 && !trueSeen {
			arts = append(arts, h.a[0])
		}
		x := h.pop()
		if x == True {
			continue
		}
		n := B.nodes[x]
		for _, y := range []Bdd{n.lo, n.hi} {
			if y == True {
				trueSeen = true
			}
			push(y)
		}
	}
	var out []Bdd
	for i, a := range arts {
		if a == True {
			continue
		}
		end := True
		if i+1 < len(arts) {
			end = arts[i+1]
		}
		memo := map[Bdd]Bdd{}
		var cut func(x Bdd) Bdd
		cut = func(x Bdd) Bdd {
			if x == end {
				return True
			}
			if x <= 1 {
				return x
			}
			if r, ok := memo[x]; ok {
				return r
			}
			n := B.nodes[x]
			r := B.mk(n.v, cut(n.lo), cut(n.hi))
			memo[x] = r
			return r
		}
		out = append(out, cut(a))
	}
	B.segC[f] = out
	return out
}

type bddHeap struct{ a []Bdd }

func (h *bddHeap) len() int           { return len(h.a) }
func (h *bddHeap) less(i, j int) bool { return B.nodes[h.a[i]].v < B.nodes[h.a[j]].v }
func (h *bddHeap) push(x Bdd) {
	h.a = append(h.a, x)
	i := len(h.a) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			break
		}
		h.a[i], h.a[p] = h.a[p], h.a[i]
		i = p
	}
}
func (h *bddHeap) pop() Bdd {
	x := h.a[0]
	n := len(h.a) - 1
	h.a[0] = h.a[n]
	h.a = h.a[:n]
	i := 0
	for {
		l := 2*i + 1
		if l >= n {
			break
		}
		if l+1 < n && h.less(l+1, l) {
			l++
		}
		if !h.less(l, i) {
			break
		}
		h.a[i], h.a[l] = h.a[l], h.a[i]
		i = l
	}
	return x
}

// groups merges the segments of f that are related through an axiom or a threshold chain.
func groups(f Bdd, lin bool) []Bdd {
	segs := segments(f)
	if len(segs) <= 1 {
		return []Bdd{f}
	}
	par := make([]int, len(segs))
	for i := range par {
		par[i] = i
	}
	var find func(int) int
	find = func(i int) int {
		for par[i] != i {
			par[i] = par[par[i]]
			i = par[i]
		}
		return i
	}
	ownV := map[int32]int{}
	ownC := map[*chain]int{}
	ownA := map[int32]int{}
	seenAx := map[int]bool{}
	var touch func(v int32, i int)
	touch = func(v int32, i int) {
		if o, ok := ownV[v]; ok {
			par[find(i)] = find(o)
			return
		}
		ownV[v] = i
		a := B.vars[v]
		if a.kind == "le" {
			c := B.chains[a.t.key]
			if o, ok := ownC[c]; ok {
				par[find(i)] = find(o)
			} else {
				ownC[c] = i
			}
			if lin {
				for _, t := range a.t.t {
					for _, m := range t.m {
						if o, ok := ownA[m.a]; ok {
							par[find(i)] = find(o)
						} else {
							ownA[m.a] = i
						}
					}
				}
			}
		}
		for _, k := range B.axBy[v] {
			if seenAx[k] {
				continue
			}
			seenAx[k] = true
			for _, w := range B.axioms[k].supp {
				touch(w, i)
			}
		}
	}
	for i, s := range segs {
		for _, v := range support(s) {
			touch(v, i)
		}
	}
	m := map[int]Bdd{}
	var order []int
	for i := len(segs) - 1; i >= 0; i-- {
		r := find(i)
		if g, ok := m[r]; ok {
			m[r] = And(segs[i], g)
		} else {
			m[r] = segs[i]
			order = append(order, r)
		}
	}
	var out []Bdd
	for _, r := range order {
		out = append(out, m[r])
	}
	return out
}

type feasE struct {
	r     bool
	supp  []int32
	stamp int
}

func stampOf(s []int32) int {
	n := 0
	for _, v := range s {
		n += len(B.axBy[v])
	}
	return n
}

func feasible(f Bdd) bool {
	if f == False {
		return false
	}
	if f == True {
		return true
	}
	if B.feasG != B.axGen {
		B.feasC = map[Bdd]bool{}
		B.feasG = B.axGen
	}
	if r, ok := B.feasC[f]; ok {
		return r
	}
	r := true
	for _, g := range groups(f, false) {
		if !feasible1(g) {
			r = false
			break
		}
	}
	B.feasC[f] = r
	return r
}

func feasible1(f Bdd) bool {
	if e, ok := B.feas1[f]; ok {
		if !e.r || stampOf(e.supp) == e.stamp {
			return e.r
		}
	}
	g := withAxioms(f)
	r := g != False
	sup := support(f)
	if r {
		// axioms may have pulled in new variables whose own chains matter; iterate once
		sup = support(g)
		g = withAxioms(g)
		r = g != False
	}
	B.feas1[f] = feasE{r, sup, stampOf(sup)}
	return r
}

func implies(a, b Bdd) bool { return !feasible(AndNot(a, b)) }

func newVar(a *CondAtom, key string) int32 {
	if v, ok := B.byKey[key]; ok {
		return v
	}
	v := int32(len(B.vars))
	B.vars = append(B.vars, a)
	B.byKey[key] = v
	return v
}

func symCond(name string) Bdd {
	return B.varNode(newVar(&CondAtom{kind: "sym", name: name}, "sym:"+name))
}

// cubes enumerates (up to max) the satisfying cubes of f as literal maps.
func cubes(f Bdd, max int) ([]map[int32]bool, bool) {
	var out []map[int32]bool
	ok := true
	cur := map[int32]bool{}
	var walk func(Bdd)
	walk = func(x Bdd) {
		if !ok || x == False {
			return
		}
		if x == True {
			if len(out) >= max {
				ok = false
				return
			}
			m := make(map[int32]bool, len(cur))
			for k, v := range cur {
				m[k] = v
			}
			out = append(out, m)
			return
		}
		n := B.nodes[x]
		cur[n.v] = false
		walk(n.lo)
		cur[n.v] = true
		walk(n.hi)
		delete(cur, n.v)
	}
	walk(f)
	return out, ok
}

package main

// Abstract interpretation of SSA with joins at every merge point, in
// topological order of the loop-nest-unrolled control-flow graph.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc   Bdd
	heap *hnode
	pend []*pendGo
	clk  int
}

type pendGo struct {
	cond Bdd
	fn   Val
	args []Val
	pos  token.Pos
	id   int
}

func (s *State) clone() *State { c := *s; return &c }

type Event struct {
	kind string // panic, rand, write, unmodelled, note, ...
	what string
	pos  token.Pos
	cond Bdd
	fn   string
	stk  string
	obj  int
	val  Val
	gor  int
}

type Access struct {
	gor   int
	obj   int
	path  []Step
	write bool
	pos   token.Pos
	t     int
	locks string
	cond  Bdd
}

type Gor struct {
	id      int
	spawn   int
	join    int // -1 while running
	pos     token.Pos
	cond    Bdd
	sends   []int    // message ids
	done    []sendAt // published up to these points when joined
	parent  int
	retErr  Val
	retCond Bdd
}

type Summary func(I *Interp, st *State, call *callCtx) Val

type callCtx struct {
	fn    *ssa.Function
	name  string
	args  []Val
	pos   token.Pos
	sig   *types.Signature
	instr ssa.CallInstruction
}

type Interp struct {
	P            *Program
	sum          map[string]Summary
	objs         []*Obj
	events       []Event
	acc          []Access
	logAcc       bool
	gors         []*Gor
	gor          int
	clk          int
	locks        []string
	stack        []string
	stackFn      []*ssa.Function
	globals      map[*ssa.Global]int
	maxUndec     int
	widened      int // loops analysed through a generic iteration
	maxIter      int
	maxDepth     int
	fresh        int
	freshBy      map[string]int
	randN        int
	suppress     int
	written      map[int]bool // when non-nil, records written objects
	steps        int
	fnSeen       map[*ssa.Function]int
	sites        map[string]int
	lifo         bool
	msgN         int
	unresolved   map[string]int
	inits        *State
	caches       map[*ssa.Function]*fnInfo
	noRandErr    bool
	adversarial  bool // buffers read from are hostile: contents and remaining length are arbitrary at every access
	advLens      []*Poly
	randErrIn    func(int) bool
	randErrOnly  int // only this draw may fail (-1: any)
	poolMode     bool
	onSend       func(st *State, ch int, v Val, pos token.Pos)
	onReturnHook func(fn *ssa.Function, st *State, v Val)
	allocHook    func(st *State, pos token.Pos, n *Poly, what string)
	s256obj      [1]int
	decide       func(st *State, c Bdd) bool // chooses between the lengths a slice may have
	fromZero     func(t types.Type) bool     // package variables known to start from zero
}

func newInterp(p *Program) *Interp {
	I := &Interp{P: p, sum: map[string]Summary{}, globals: map[*ssa.Global]int{}, maxUndec: 2, randErrOnly: -1, maxIter: 1200, maxDepth: 40, freshBy: map[string]int{}, fnSeen: map[*ssa.Function]int{}, sites: map[string]int{}, unresolved: map[string]int{}, caches: map[*ssa.Function]*fnInfo{}}
	I.objs = []*Obj{nil}
	for k, s := range stdSummaries {
		I.sum[k] = s
	}
	return I
}

func (I *Interp) newObj(st *State, t types.Type, v Val, origin string, pos token.Pos) int {
	id := len(I.objs)
	o := &Obj{id: id, typ: t, origin: origin, pos: pos, gor: I.gor}
	if len(I.stack) > 0 {
		o.fn = I.stack[len(I.stack)-1]
	}
	I.objs = append(I.objs, o)
	st.heap = hset(st.heap, id, v)
	return id
}

func (I *Interp) freshName(base string) string {
	n := I.freshBy[base]
	I.freshBy[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

func (I *Interp) event(e Event) {
	if I.suppress > 0 {
		return
	}
	if len(I.stack) > 0 {
		e.fn = I.stack[len(I.stack)-1]
	}
	e.stk = strings.Join(I.stack, " → ")
	e.gor = I.gor
	I.events = append(I.events, e)
}

// panicIf records that the program may panic under cond, and continues on the rest.
func (I *Interp) panicIf(st *State, cond Bdd, pos token.Pos, what string) {
	if cond == False {
		return
	}
	c := And(st.pc, cond)
	if feasible(c) && feasibleLin(c) {
		I.event(Event{kind: "panic", what: what, pos: pos, cond: c})
	}
	st.pc = And(st.pc, Not(cond))
}

func (I *Interp) note(st *State, pos token.Pos, what string) {
	I.event(Event{kind: "note", what: what, pos: pos, cond: st.pc})
}

func (I *Interp) dead(st *State) bool { return st.pc == False || !feasible(st.pc) }

// ---- per-function information ----

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
}
type fnInfo struct {
	ord   map[*ssa.BasicBlock]int
	loops []*loopInfo
	inner map[*ssa.BasicBlock]*loopInfo
	chain map[*ssa.BasicBlock][]*loopInfo
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

// liveness computes the values each block may still use on entry.
func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	var ops []*ssa.Value
	for again := true; again; {
		again = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			in := live[b]
			n := len(in)
			def := map[ssa.Value]bool{}
			for _, s := range b.Instrs {
				if v, ok := s.(ssa.Value); ok {
					def[v] = true
				}
			}
			use := func(v ssa.Value) {
				if v != nil && !def[v] {
					in[v] = true
				}
			}
			for _, s := range b.Instrs {
				if _, ok := s.(*ssa.Phi); ok {
					continue
				}
				ops = s.Operands(ops[:0])
				for _, o := range ops {
					use(*o)
				}
			}
			for _, s := range b.Succs {
				for v := range live[s] {
					use(v)
				}
				for _, ph := range s.Instrs {
					x, ok := ph.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							use(x.Edges[k])
						}
					}
				}
			}
			again = again || len(in) != n
		}
	}
	return live
}

func (I *Interp) info(fn *ssa.Function) *fnInfo {
	if x, ok := I.caches[fn]; ok {
		return x
	}
	fi := &fnInfo{ord: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*loopInfo{}, chain: map[*ssa.BasicBlock][]*loopInfo{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		fi.ord[b] = len(post) - 1 - i
	}
	fi.live = liveness(fn)
	byH := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					fi.loops = append(fi.loops, l)
				}
				// reverse reach from b
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] || !seen[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].body) > len(fi.loops[j].body) })
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.body[l.header] && len(m.body) > len(l.body) {
				if l.parent == nil || len(m.body) < len(l.parent.body) {
					l.parent = m
				}
			}
		}
	}
	for b := range seen {
		var ch []*loopInfo
		for _, l := range fi.loops { // sorted outer→inner by size
			if l.body[b] {
				ch = append(ch, l)
			}
		}
		fi.chain[b] = ch
		if len(ch) > 0 {
			fi.inner[b] = ch[len(ch)-1]
		}
	}
	I.caches[fn] = fi
	return fi
}

const wideIter = 1 << 20

type pend struct {
	b    *ssa.BasicBlock
	iter []int // iteration per loop in chain
	key  []int
	ctx  *frame
}

type frame struct {
	st     *State
	env    map[ssa.Value]Val
	defers []deferred
}
type deferred struct {
	cond Bdd
	call *ssa.Defer
	fn   Val
	args []Val
}

func (f *frame) fork(pc Bdd) *frame {
	env := make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		env[k] = v
	}
	st := f.st.clone()
	st.pc = pc
	return &frame{st, env, append([]deferred{}, f.defers...)}
}

func keyLess(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}
func keyStr(a []int) string { return fmt.Sprint(a) }

func (I *Interp) mergeStates(a, b *State) (*State, Bdd) {
	pc := Or(a.pc, b.pc)
	c := constrain(a.pc, pc)
	if implies(pc, c) {
		// cannot happen for disjoint guards unless b is infeasible
	}
	h := hmerge(a.heap, b.heap, hdepth-1, func(x, y Val) Val {
		if sameVal(x, y) {
			return x
		}
		return iteVal(c, x, y)
	})
	ps := a.pend
	for _, p := range b.pend {
		dup := false
		for _, q := range ps {
			if q == p {
				dup = true
			}
		}
		if !dup {
			ps = append(append([]*pendGo{}, ps...), p)
		}
	}
	return &State{pc: pc, heap: h, pend: ps}, c
}

func (I *Interp) mergeFrames(a, b *frame) *frame {
	st, c := I.mergeStates(a.st, b.st)
	env := make(map[ssa.Value]Val, len(a.env))
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			env[k] = iteVal(c, v, w)
		} else {
			env[k] = v
		}
	}
	for k, w := range b.env {
		if _, ok := a.env[k]; !ok {
			env[k] = w
		}
	}
	// defers: common prefix keeps or-ed guards
	var ds []deferred
	i := 0
	for i < len(a.defers) && i < len(b.defers) && a.defers[i].call == b.defers[i].call {
		d := a.defers[i]
		d.cond = Or(And(a.st.pc, d.cond), And(b.st.pc, b.defers[i].cond))
		if And(st.pc, Not(d.cond)) == False {
			d.cond = True
		}
		for j := range d.args {
			d.args = append([]Val{}, d.args...)
			d.args[j] = iteVal(c, d.args[j], b.defers[i].args[j])
		}
		d.fn = iteVal(c, d.fn, b.defers[i].fn)
		ds = append(ds, d)
		i++
	}
	for _, d := range a.defers[i:] {
		d.cond = And(a.st.pc, d.cond)
		ds = append(ds, d)
	}
	for _, d := range b.defers[i:] {
		d.cond = And(b.st.pc, d.cond)
		ds = append(ds, d)
	}
	return &frame{st, env, ds}
}

type retEnt struct {
	fr *frame
	v  Val
}

type runner struct {
	I           *Interp
	fn          *ssa.Function
	fi          *fnInfo
	work        map[string]*pend
	rets        []retEnt
	undec       map[string]int
	iterDecided map[string]bool
	iterUndec   map[string]bool
	stop        *loopInfo // dry run: stop at back edge of this loop
	havoc       map[string]map[int]bool
	back        []*frame
}

// call runs fn on args; st is updated in place to the merged exit state.
func (I *Interp) call(st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos) Val {
	if len(I.stack) > I.maxDepth {
		I.note(st, pos, "call depth limit in "+fn.String())
		return I.havocResult(st, fn.Signature, fn.String())
	}
	rec := 0
	for _, f := range I.stackFn {
		if f == fn {
			rec++
		}
	}
	if rec > 8 {
		I.note(st, pos, "recursion limit in "+fn.String())
		return I.havocResult(st, fn.Signature, fn.String())
	}
	I.stack = append(I.stack, shortFn(fn)+"@"+I.P.pos(pos))
	I.stackFn = append(I.stackFn, fn)
	I.fnSeen[fn]++
	defer func() { I.stack = I.stack[:len(I.stack)-1]; I.stackFn = I.stackFn[:len(I.stackFn)-1] }()
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			env[fv] = binds[i]
		}
	}
	r := &runner{I: I, fn: fn, fi: I.info(fn), work: map[string]*pend{}, undec: map[string]int{}, iterDecided: map[string]bool{}, iterUndec: map[string]bool{}, havoc: map[string]map[int]bool{}}
	fr := &frame{st.clone(), env, nil}
	r.enqueue(fn.Blocks[0], nil, nil, fr)
	r.loop()
	if len(r.rets) == 0 {
		st.pc = False
		return I.zeroResult(st, fn.Signature)
	}
	acc := r.rets[0]
	for _, e := range r.rets[1:] {
		ms, c := I.mergeStates(acc.fr.st, e.fr.st)
		acc = retEnt{&frame{st: ms}, iteVal(c, acc.v, e.v)}
	}
	*st = *acc.fr.st
	if I.onReturnHook != nil {
		I.onReturnHook(fn, st, acc.v)
	}
	return acc.v
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, repoPrefix+"/", "")
	s = strings.ReplaceAll(s, repoPrefix, "zksigma")
	return s
}

func (r *runner) keyOf(b *ssa.BasicBlock, iter []int) []int {
	var k []int
	ch := r.fi.chain[b]
	for i, l := range ch {
		k = append(k, r.fi.ord[l.header], iter[i])
	}
	return append(k, r.fi.ord[b])
}

func (r *runner) enqueue(b *ssa.BasicBlock, from *ssa.BasicBlock, fromIter []int, fr *frame) {
	ch := r.fi.chain[b]
	iter := make([]int, len(ch))
	if from != nil {
		fch := r.fi.chain[from]
		for i := range ch {
			if i < len(fch) && fch[i] == ch[i] {
				iter[i] = fromIter[i]
			}
		}
		// back edge?
		for i, l := range ch {
			if l.header == b && l.body[from] {
				if r.stop == l {
					r.back = append(r.back, fr)
					return
				}
				if iter[i] >= wideIter {
					return // generic iteration covers all later ones
				}
				iter[i]++
				for j := i + 1; j < len(iter); j++ {
					iter[j] = 0
				}
			}
		}
	}
	key := r.keyOf(b, iter)
	ks := keyStr(key)
	if p, ok := r.work[ks]; ok {
		p.ctx = r.I.mergeFrames(p.ctx, fr)
		return
	}
	r.work[ks] = &pend{b, iter, key, fr}
}

func (r *runner) loop() {
	for len(r.work) > 0 {
		var best *pend
		for _, p := range r.work {
			if best == nil || keyLess(p.key, best.key) {
				best = p
			}
		}
		delete(r.work, keyStr(best.key))
		r.step(best)
	}
}

func (r *runner) loopKey(p *pend, depth int) string {
	// identifies the loop instance (outer iterations) of loop at chain index depth
	return keyStr(r.keyOf(p.b, p.iter)[:2*depth+1])
}

func (r *runner) step(p *pend) {
	I := r.I
	I.steps++
	fr := p.ctx
	if I.dead(fr.st) {
		return
	}
	// loop header bookkeeping
	ch := r.fi.chain[p.b]
	if len(ch) > 0 && ch[len(ch)-1].header == p.b && r.stop != ch[len(ch)-1] {
		d := len(ch) - 1
		it := p.iter[d]
		lk := r.loopKey(p, d)
		if it > 0 && it < wideIter {
			if r.iterUndec[lk] && !r.iterDecided[lk] {
				r.undec[lk]++
			}
			r.iterUndec[lk], r.iterDecided[lk] = false, false
			if r.undec[lk] >= I.maxUndec || it > I.maxIter {
				if it > I.maxIter {
					I.note(fr.st, p.b.Instrs[0].Pos(), "loop iteration bound reached in "+r.fn.String())
				}
				r.widen(p, ch[d], d)
				return
			}
		}
	}
	r.exec(p)
}

// widen replaces the loop-variant state by an arbitrary one and analyses a generic iteration.
func (r *runner) widen(p *pend, l *loopInfo, d int) {
	I := r.I
	I.widened++
	mod := map[int]bool{}
	base := p.ctx
	phis := map[*ssa.Phi]Val{}
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis[ph] = I.havocPhi(base.st, ph, base.env[ph], l)
	}
	mk := func() *frame {
		fr := base.fork(base.st.pc)
		for ph, v := range phis {
			fr.env[ph] = v
			// machine facts: monotone counters keep their initial bound through the symbol's interval
		}
		// the generic iteration is reached from any earlier one: conditions learnt only
		// from unrolled iterations on havocked symbols do not mention the fresh symbols
		for o := range mod {
			old, _ := hget(fr.st.heap, o)
			fr.st.heap = hset(fr.st.heap, o, I.havocContent(fr.st, old, I.objs[o], "loop"))
		}
		return fr
	}
	for round := 0; round < 6; round++ {
		nObj := len(I.objs)
		saved := I.written
		I.written = map[int]bool{}
		I.suppress++
		sub := &runner{I: I, fn: r.fn, fi: r.fi, work: map[string]*pend{}, undec: map[string]int{}, iterDecided: map[string]bool{}, iterUndec: map[string]bool{}, stop: l, havoc: map[string]map[int]bool{}}
		fr := mk()
		iter := append([]int{}, p.iter...)
		iter[d] = wideIter
		key := r.keyOf(p.b, iter)
		sub.work[keyStr(key)] = &pend{p.b, iter, key, fr}
		sub.loop()
		I.suppress--
		grew := false
		for o := range I.written {
			if o < nObj && !mod[o] {
				if _, exists := hget(base.st.heap, o); exists {
					mod[o] = true
					grew = true
				}
			}
		}
		if saved != nil {
			for o := range I.written {
				saved[o] = true
			}
		}
		I.written = saved
		if !grew {
			break
		}
	}
	fr := mk()
	iter := append([]int{}, p.iter...)
	iter[d] = wideIter
	key := r.keyOf(p.b, iter)
	r.exec(&pend{p.b, iter, key, fr})
}

func (I *Interp) havocPhi(st *State, ph *ssa.Phi, cur Val, l *loopInfo) Val {
	name := I.freshName("loop." + ph.Comment + "." + ph.Name())
	if p, ok := cur.(*Poly); ok {
		// monotone counter?
		lo, hi := intRange(ph.Type())
		var step int64
		found := false
		for i, e := range ph.Edges {
			if !l.body[ph.Block().Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(ph) || (b.Op != token.ADD && b.Op != token.SUB) {
				found = false
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				found = false
				break
			}
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			if b.Op == token.SUB {
				n = -n
			}
			step = n
			found = true
		}
		if found {
			pl, phh := p.interval()
			if step > 0 && pl != nil {
				lo = pl
			}
			if step < 0 && phh != nil {
				hi = phh
			}
		}
		return Sym(name, lo, hi)
	}
	return I.havocTyped(st, ph.Type(), name, nil)
}

// ---- execution of a block ----

func (r *runner) exec(p *pend) {
	I := r.I
	fr := p.ctx
	st := fr.st
	b := p.b
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			c := I.asBool(fr, x.Cond)
			r.branch(p, c)
			return
		case *ssa.Jump:
			r.edge(p, b.Succs[0], st.pc)
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
				v = &TupleV{}
			case 1:
				v = I.get(fr, x.Results[0])
			default:
				t := &TupleV{}
				for _, e := range x.Results {
					t.v = append(t.v, I.get(fr, e))
				}
				v = t
			}
			r.rets = append(r.rets, retEnt{fr, v})
			return
		case *ssa.Panic:
			I.panicIf(st, True, x.Pos(), "explicit panic")
			return
		case *ssa.RunDefers:
			r.runDefers(fr)
			if I.dead(st) {
				return
			}
		case *ssa.Defer:
			fnv, args := I.callParts(fr, &x.Call)
			fr.defers = append(fr.defers, deferred{True, x, fnv, args})
		default:
			r.instr(fr, in)
			if I.dead(st) {
				return
			}
		}
	}
}

func (r *runner) runDefers(fr *frame) {
	I := r.I
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		c := And(fr.st.pc, d.cond)
		if !feasible(c) {
			continue
		}
		nc := AndNot(fr.st.pc, d.cond)
		if nc == False || !feasible(nc) {
			I.doCall(fr.st, &d.call.Call, d.fn, d.args, d.call.Pos(), d.call)
			continue
		}
		st1 := fr.st.clone()
		st1.pc = c
		I.doCall(st1, &d.call.Call, d.fn, d.args, d.call.Pos(), d.call)
		st2 := fr.st.clone()
		st2.pc = nc
		if I.dead(st1) {
			*fr.st = *st2
			continue
		}
		m, _ := I.mergeStates(st1, st2)
		*fr.st = *m
	}
	fr.defers = nil
}

func (r *runner) branch(p *pend, c Bdd) {
	I := r.I
	st := p.ctx.st
	tpc := And(st.pc, c)
	fpc := AndNot(st.pc, c)
	ft, ff := feasible(tpc), feasible(fpc)
	if ft && ff && (len(support(c)) > 0) {
		// linear refinement only for integer comparisons
		if usesLe(c) {
			ft, ff = feasibleLin(tpc), feasibleLin(fpc)
		}
	}
	b := p.b
	// loop exit bookkeeping
	ch := r.fi.chain[b]
	for d, l := range ch {
		in0, in1 := l.body[b.Succs[0]], l.body[b.Succs[1]]
		if in0 != in1 {
			lk := r.loopKey(p, d)
			if ft && ff {
				r.iterUndec[lk] = true
			} else {
				r.iterDecided[lk] = true
			}
		}
	}
	_ = I
	if ft {
		r.edge(p, b.Succs[0], tpc)
	}
	if ff {
		r.edge(p, b.Succs[1], fpc)
	}
}

func usesLe(c Bdd) bool {
	for _, v := range support(c) {
		if B.vars[v].kind == "le" {
			return true
		}
	}
	return false
}

func (r *runner) edge(p *pend, to *ssa.BasicBlock, pc Bdd) {
	st := p.ctx.st.clone()
	st.pc = pc
	fr := &frame{st, p.ctx.env, append([]deferred{}, p.ctx.defers...)}
	env := make(map[ssa.Value]Val, len(r.fi.live[to])+4)
	for v := range r.fi.live[to] {
		if x, ok := fr.env[v]; ok {
			env[v] = x
		}
	}
	// phis
	idx := -1
	for i, pr := range to.Preds {
		if pr == p.b {
			idx = i
			// with duplicate edges (both succs equal) any index gives same predecessor
			if len(p.b.Succs) == 2 && p.b.Succs[0] == p.b.Succs[1] {
				// distinguish by guard: handled conservatively by first edge
			}
			break
		}
	}
	type pv struct {
		ph *ssa.Phi
		v  Val
	}
	var pvs []pv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{ph, r.I.get(fr, ph.Edges[idx])})
	}
	fr.env = env
	for _, x := range pvs {
		fr.env[x.ph] = x.v
	}
	r.enqueue(to, p.b, p.iter, fr)
}

// ---- values ----

func (I *Interp) get(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return I.constVal(fr.st, x)
	case *ssa.Global:
		return ptrTo(I.globalObj(fr.st, x))
	case *ssa.Function:
		return &FuncV{[]FnAlt{{c: True, fn: x}}}
	case *ssa.Builtin:
		return &FuncV{[]FnAlt{{c: True, ext: "builtin:" + x.Name()}}}
	}
	if r, ok := fr.env[v]; ok && r != nil {
		return r
	}
	// value not computed (e.g. merged from a path that does not define it)
	return I.havocTyped(fr.st, v.Type(), I.freshName("undef."+v.Name()), nil)
}

func (I *Interp) globalObj(st *State, g *ssa.Global) int {
	if o, ok := I.globals[g]; ok {
		if _, ok := hget(st.heap, o); ok {
			return o
		}
		// first touched on another path: same initial value
		st.heap = hset(st.heap, o, I.globalInit(st, g, deref(g.Type())))
		return o
	}
	t := deref(g.Type())
	id := len(I.objs)
	I.objs = append(I.objs, &Obj{id: id, typ: t, origin: "global:" + g.Name(), pos: g.Pos()})
	I.globals[g] = id
	v := I.globalInit(st, g, t)
	st.heap = hset(st.heap, id, v)
	return id
}

// globalInit gives a value to a package variable not initialised by analysed init code.
func (I *Interp) globalInit(st *State, g *ssa.Global, t types.Type) Val {
	name := g.RelString(nil)
	switch name {
	case "crypto/rand.Reader":
		return &IfaceV{[]IfAlt{{c: True, ext: "rand.Reader", v: &Opaque{name: "rand.Reader"}}}}
	case "encoding/binary.LittleEndian", "encoding/binary.BigEndian":
		return &Opaque{name: name, typ: t}
	case "io.EOF", "io.ErrUnexpectedEOF":
		return &IfaceV{[]IfAlt{{c: True, ext: "error", v: &Opaque{name: name}}}}
	}
	if g.Pkg != nil && !I.P.isBody(g.Pkg.Pkg.Path()) {
		if types.IsInterface(t) && strings.HasPrefix(g.Name(), "Err") {
			return &IfaceV{[]IfAlt{{c: True, ext: "error", v: &Opaque{name: name}}}}
		}
	}
	if g.Name() == "init$guard" {
		return False
	}
	if I.fromZero != nil && I.fromZero(t) {
		return I.zero(st, t)
	}
	return I.havocTyped(st, t, "global."+g.Name(), nil)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func namedKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return namedKey(types.Unalias(a))
	}
	return ""
}

func extKind(t types.Type) string {
	switch k := namedKey(t); k {
	case "bytes.Buffer", "sync.WaitGroup", "sync.Mutex", "sync.RWMutex", "sync.Once", "bytes.Reader", "strings.Builder", "sync.Pool":
		return k
	}
	return ""
}

func intRange(t types.Type) (*big.Int, *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	s := func(n int) (*big.Int, *big.Int) {
		return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), one)
	}
	u := func(n int) (*big.Int, *big.Int) { return zero, new(big.Int).Sub(pow2(n), one) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return s(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	}
	return nil, nil
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (I *Interp) zero(st *State, t types.Type) Val {
	if namedKey(t) == "math/big.Int" {
		return &BigV{C(0)}
	}
	if k := extKind(t); k != "" {
		return &ExtV{kind: k, seq: mkSeqV(mkSeq(nil)), n: C(0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return C(0)
		case u.Info()&types.IsString != 0:
			return mkSeqV(mkSeq(nil))
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return nilPtr()
		}
		return &Opaque{name: "zero." + u.Name(), typ: t}
	case *types.Pointer, *types.Chan, *types.Map:
		return nilPtr()
	case *types.Slice:
		return nilSlice()
	case *types.Interface:
		return nilIface()
	case *types.Signature:
		return &FuncV{[]FnAlt{{c: True}}}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, I.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return mkSeqV(seqFill(C(0), C(u.Len())))
		}
		if u.Len() > 4096 {
			return &ArrSymV{n: C(u.Len()), elem: u.Elem(), name: "bigarray"}
		}
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, I.zero(st, u.Elem()))
		}
		return a
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, I.zero(st, u.At(i).Type()))
		}
		return tv
	}
	return &Opaque{name: "zero", typ: t}
}

func (I *Interp) zeroResult(st *State, sig *types.Signature) Val {
	n := sig.Results().Len()
	if n == 1 {
		return I.zero(st, sig.Results().At(0).Type())
	}
	t := &TupleV{}
	for i := 0; i < n; i++ {
		t.v = append(t.v, I.zero(st, sig.Results().At(i).Type()))
	}
	return t
}

func (I *Interp) havocResult(st *State, sig *types.Signature, name string) Val {
	n := sig.Results().Len()
	if n == 1 {
		return I.havocTyped(st, sig.Results().At(0).Type(), I.freshName("ret."+name), nil)
	}
	t := &TupleV{}
	for i := 0; i < n; i++ {
		t.v = append(t.v, I.havocTyped(st, sig.Results().At(i).Type(), I.freshName(fmt.Sprintf("ret.%s.%d", name, i)), nil))
	}
	return t
}

// symOpts controls symbolic inputs.
type symOpts struct {
	origin   string
	nilable  func(path string, t types.Type) bool
	sliceLen func(path string, t types.Type) *Poly
	big      func(path string) *Poly                                           // value for *big.Int / big.Int at path
	custom   func(I *Interp, st *State, path string, t types.Type) (Val, bool) // overrides
	depth    int
}

const maxLen = 1 << 40

// havocTyped builds an arbitrary value of type t named name.
func (I *Interp) havocTyped(st *State, t types.Type, name string, o *symOpts) Val {
	if o == nil {
		o = &symOpts{origin: "havoc", nilable: func(string, types.Type) bool { return true }}
	}
	if o.custom != nil {
		if v, ok := o.custom(I, st, name, t); ok {
			return v
		}
	}
	if namedKey(t) == "math/big.Int" {
		if o.big != nil {
			if p := o.big(name); p != nil {
				return &BigV{p}
			}
		}
		return &BigV{Sym(name, nil, nil)}
	}
	if k := extKind(t); k != "" {
		n := Sym("len("+name+")", zero, bi(maxLen))
		return &ExtV{kind: k, seq: mkSeqV(seqSym(name, C(0), n)), n: n}
	}
	if nk := namedKey(t); (nk == repoPrefix+".ECPoint") && (o.nilable == nil || !o.nilable(name+".X", t)) {
		return I.pointVal(st, t, PtSym(name), o.origin)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return symCond(name)
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(t)
			return Sym(name, lo, hi)
		case u.Info()&types.IsString != 0:
			n := Sym("len("+name+")", zero, bi(maxLen))
			return mkSeqV(seqSym(name, C(0), n))
		}
		return &Opaque{name: name, typ: t}
	case *types.Pointer:
		if o.depth > 4 {
			return &Opaque{name: name, typ: t}
		}
		o2 := *o
		o2.depth++
		obj := I.newObj(st, u.Elem(), I.havocTyped(st, u.Elem(), name, &o2), o.origin, token.NoPos)
		p := ptrTo(obj)
		if o.nilable != nil && o.nilable(name, t) {
			c := symCond("nil(" + name + ")")
			p = &PtrV{[]PtrAlt{{c, 0, nil}, {Not(c), obj, nil}}}
		}
		return p
	case *types.Slice:
		var n *Poly
		if o.sliceLen != nil {
			n = o.sliceLen(name, t)
		}
		if n == nil {
			n = Sym("len("+name+")", zero, bi(maxLen))
		}
		var content Val
		if isByte(u.Elem()) {
			content = mkSeqV(seqSym(name, C(0), n))
		} else if c, ok := n.constInt(); ok && c <= 4096 {
			a := &ArrV{}
			for i := int64(0); i < c; i++ {
				a.e = append(a.e, I.havocTyped(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), o))
			}
			content = a
		} else {
			content = &ArrSymV{n: n, elem: u.Elem(), name: name}
		}
		obj := I.newObj(st, t, content, o.origin, token.NoPos)
		cp := Add(n, Sym("xcap("+name+")", zero, bi(maxLen)))
		return &SliceV{[]SliceAlt{{c: True, obj: obj, off: C(0), len: n, cap: cp}}}
	case *types.Interface:
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			c := symCond("err(" + name + ")")
			return &IfaceV{[]IfAlt{{c: Not(c)}, {c: c, ext: "error", v: &Opaque{name: name}}}}
		}
		return &IfaceV{[]IfAlt{{c: True, ext: "opaque:" + types.TypeString(t, nil), v: &Opaque{name: name, typ: t}}}}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, I.havocTyped(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), o))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return mkSeqV(seqSym(name, C(0), C(u.Len())))
		}
		if u.Len() > 256 {
			return &ArrSymV{n: C(u.Len()), elem: u.Elem(), name: name}
		}
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, I.havocTyped(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), o))
		}
		return a
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, I.havocTyped(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), o))
		}
		return tv
	case *types.Signature:
		return &FuncV{[]FnAlt{{c: True, ext: "opaque:" + name}}}
	case *types.Map, *types.Chan:
		obj := I.newObj(st, t, &MapV{opaq: true}, o.origin, token.NoPos)
		return ptrTo(obj)
	}
	return &Opaque{name: name, typ: t}
}

// pointVal builds an ECPoint-shaped struct {X,Y *big.Int} for point p.
func (I *Interp) pointVal(st *State, t types.Type, p *Pt, origin string) Val {
	bt := types.Type(nil)
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() >= 2 {
		bt = deref(s.Field(0).Type())
	}
	x := I.newObj(st, bt, &BigV{XofP(p)}, origin, token.NoPos)
	y := I.newObj(st, bt, &BigV{YofP(p)}, origin, token.NoPos)
	return &StructV{[]Val{ptrTo(x), ptrTo(y)}}
}

func (I *Interp) havocContent(st *State, old Val, o *Obj, why string) Val {
	name := I.freshName(fmt.Sprintf("%s.%s", why, o.origin))
	switch x := old.(type) {
	case *BigV:
		return &BigV{Sym(name, nil, nil)}
	case *SeqV:
		// length is unchanged by stores into an array
		n := x.length(st.pc)
		return mkSeqV(seqSym(name, C(0), n))
	case *ArrSymV:
		return &ArrSymV{n: x.n, elem: x.elem, name: name}
	case *ArrV:
		a := &ArrV{}
		for i, e := range x.e {
			a.e = append(a.e, I.havocVal(st, e, fmt.Sprintf("%s[%d]", name, i)))
		}
		return a
	case *ExtV:
		n := Sym("len("+name+")", zero, bi(maxLen))
		return &ExtV{kind: x.kind, seq: mkSeqV(seqSym(name, C(0), n)), n: n, name: x.name}
	}
	return I.havocVal(st, old, name)
}

func (I *Interp) havocVal(st *State, old Val, name string) Val {
	switch x := old.(type) {
	case *Poly:
		lo, hi := bi(-maxLen), bi(maxLen)
		l, h := x.interval()
		if l != nil && l.Sign() >= 0 {
			lo = zero
		}
		if h == nil || h.Cmp(hi) > 0 {
			hi = nil
		}
		if l == nil || l.Cmp(lo) < 0 {
			lo = nil
		}
		return Sym(name, lo, hi)
	case Bdd:
		return symCond(name)
	case *StructV:
		s := &StructV{}
		for i, e := range x.f {
			s.f = append(s.f, I.havocVal(st, e, fmt.Sprintf("%s.%d", name, i)))
		}
		return s
	case *BigV:
		return &BigV{Sym(name, nil, nil)}
	case *SeqV:
		n := Sym("len("+name+")", zero, bi(maxLen))
		return mkSeqV(seqSym(name, C(0), n))
	case *PtrV:
		// any of the previous targets, or nil, or something fresh of the same type
		var t types.Type
		for _, a := range x.alts {
			if a.obj != 0 && len(a.path) == 0 {
				t = I.objs[a.obj].typ
			}
		}
		c := symCond("nil(" + name + ")")
		if t != nil {
			obj := I.newObj(st, t, I.havocTyped(st, t, name, nil), "havoc", token.NoPos)
			return &PtrV{[]PtrAlt{{c, 0, nil}, {Not(c), obj, nil}}}
		}
		return &Opaque{name: name}
	case *SliceV:
		var t types.Type
		for _, a := range x.alts {
			if a.obj != 0 {
				t = I.objs[a.obj].typ
			}
		}
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				_ = sl
				return I.havocTyped(st, t, name, nil)
			}
		}
		return &Opaque{name: name}
	case *IfaceV:
		c := symCond("err(" + name + ")")
		return &IfaceV{[]IfAlt{{c: Not(c)}, {c: c, ext: "error", v: &Opaque{name: name}}}}
	}
	return &Opaque{name: name}
}

func (I *Interp) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return I.zero(st, t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return &Opaque{name: "const", typ: t}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return I.zero(st, t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		if constant.BoolVal(c.Value) {
			return True
		}
		return False
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		n := new(big.Int)
		if i, ok := constant.Int64Val(v); ok {
			n.SetInt64(i)
		} else {
			n.SetString(v.ExactString(), 10)
		}
		return CB(n)
	case b.Info()&types.IsString != 0:
		return mkSeqV(seqConst(constant.StringVal(c.Value)))
	}
	return &Opaque{name: "const:" + c.Value.String(), typ: t}
}

func (I *Interp) asBool(fr *frame, v ssa.Value) Bdd {
	switch x := I.get(fr, v).(type) {
	case Bdd:
		return x
	}
	return symCond(I.freshName("bool." + v.Name()))
}

func (I *Interp) asPoly(st *State, v Val, t types.Type) *Poly {
	if p, ok := v.(*Poly); ok {
		return p
	}
	lo, hi := (*big.Int)(nil), (*big.Int)(nil)
	if t != nil {
		lo, hi = intRange(t)
	}
	if o, ok := v.(*Opaque); ok {
		return Sym("opq."+o.name, lo, hi)
	}
	return Sym(I.freshName("opq"), lo, hi)
}

// ---- memory ----

func (I *Interp) logAccess(st *State, obj int, path []Step, write bool, pos token.Pos) {
	if !I.logAcc || I.suppress > 0 || obj == 0 {
		return
	}
	I.clk++
	I.acc = append(I.acc, Access{I.gor, obj, path, write, pos, I.clk, strings.Join(I.locks, ","), st.pc})
}

func (I *Interp) walk(st *State, v Val, path []Step, t types.Type) Val {
	for i, s := range path {
		switch x := v.(type) {
		case *StructV:
			if s.idx == nil && s.f < len(x.f) {
				v = x.f[s.f]
				continue
			}
		case *ArrV:
			if s.idx != nil {
				v = I.arrGet(st, x, s.idx)
				continue
			}
		case *SeqV:
			if s.idx != nil {
				idx := s.idx
				return x.liftP(st.pc, func(q *Seq) *Poly { return byteAt(q, idx) })
			}
		case *TabV:
			if s.idx != nil {
				v = x.at(I, st, s.idx)
				continue
			}
		case *ArrSymV:
			if s.idx != nil {
				v = I.havocTyped(st, x.elem, I.freshName(x.name+"[i]"), nil)
				continue
			}
		case *Opaque:
			return I.havocTyped(st, t, I.freshName("opq."+x.name+pathKey(path[i:])), nil)
		}
		return I.havocTyped(st, t, I.freshName("opq"+pathKey(path)), nil)
	}
	return v
}

func (I *Interp) arrGet(st *State, a *ArrV, idx *Poly) Val {
	if c, ok := idx.constInt(); ok {
		if c >= 0 && c < int64(len(a.e)) {
			return a.e[c]
		}
		return &Opaque{name: "oob"}
	}
	var r Val
	for i := len(a.e) - 1; i >= 0; i-- {
		c := EqP(idx, C(int64(i)))
		if c == False || !feasible(And(st.pc, c)) {
			continue
		}
		if r == nil {
			r = a.e[i]
		} else {
			r = iteVal(c, a.e[i], r)
		}
	}
	if r == nil {
		return &Opaque{name: "oob"}
	}
	return r
}

func (I *Interp) load(st *State, pv Val, t types.Type, pos token.Pos) Val {
	p, ok := pv.(*PtrV)
	if !ok {
		if o, ok := pv.(*Opaque); ok {
			I.panicIf(st, symCond("nil?"+o.name), pos, "nil pointer dereference")
			return I.havocTyped(st, t, I.freshName("load."+o.name), nil)
		}
		return I.havocTyped(st, t, I.freshName("load"), nil)
	}
	I.panicIf(st, nilCond(p), pos, "nil pointer dereference")
	var r Val
	for _, a := range p.alts {
		if a.obj == 0 {
			continue
		}
		if len(p.alts) > 1 && !feasible(And(st.pc, a.c)) {
			continue
		}
		v, ok := hget(st.heap, a.obj)
		if !ok {
			v = I.havocTyped(st, I.objs[a.obj].typ, I.freshName("unk"), nil)
			st.heap = hset(st.heap, a.obj, v)
		}
		I.logAccess(st, a.obj, a.path, false, pos)
		x := I.walk(st, v, a.path, t)
		if r == nil {
			r = x
		} else {
			r = iteVal(a.c, x, r)
		}
	}
	if r == nil {
		return I.zero(st, t)
	}
	return r
}

func (I *Interp) update(st *State, v Val, path []Step, f func(Val) Val) Val {
	if len(path) == 0 {
		return f(v)
	}
	s := path[0]
	switch x := v.(type) {
	case *StructV:
		if s.idx == nil && s.f < len(x.f) {
			n := &StructV{append([]Val{}, x.f...)}
			n.f[s.f] = I.update(st, x.f[s.f], path[1:], f)
			return n
		}
	case *ArrV:
		if s.idx != nil {
			if c, ok := s.idx.constInt(); ok {
				if c >= 0 && c < int64(len(x.e)) {
					n := &ArrV{append([]Val{}, x.e...)}
					n.e[c] = I.update(st, x.e[c], path[1:], f)
					return n
				}
				return x
			}
			n := &ArrV{append([]Val{}, x.e...)}
			for i := range n.e {
				c := EqP(s.idx, C(int64(i)))
				if c == False || !feasible(And(st.pc, c)) {
					continue
				}
				n.e[i] = iteVal(c, I.update(st, x.e[i], path[1:], f), x.e[i])
			}
			return n
		}
	case *SeqV:
		if s.idx != nil {
			return x.lift(st.pc, func(_ Bdd, q *Seq) *SeqV {
				nv := f(byteAt(q, s.idx))
				return mkSeqV(setByte(q, s.idx, I.asPoly(st, nv, types.Typ[types.Uint8])))
			})
		}
	case *ArrSymV:
		return x
	}
	return &Opaque{name: I.freshName("upd")}
}

func setByte(q *Seq, idx, b *Poly) *Seq {
	n := q.length()
	hi := Sub(Sub(n, idx), C(1))
	pre := subSeq(q, C(0), idx)
	post := subSeq(q, Add(idx, C(1)), hi)
	if c, ok := n.constInt(); ok && c <= 512 {
		if i, ok := idx.constInt(); ok {
			if bs, ok := explode(q); ok {
				bs[i] = b
				return fromBytes(bs)
			}
		}
	}
	return seqCat(pre, seqByte(b), post)
}

func (I *Interp) markWrite(st *State, obj int, path []Step, pos token.Pos) {
	if I.written != nil {
		I.written[obj] = true
	}
	I.logAccess(st, obj, path, true, pos)
	o := I.objs[obj]
	if I.suppress == 0 && o != nil && (strings.HasPrefix(o.origin, "param:") || strings.HasPrefix(o.origin, "global:") || o.origin == "shared") {
		I.event(Event{kind: "write", what: o.origin + pathKey(path), pos: pos, cond: st.pc, obj: obj})
	}
}

func (I *Interp) store(st *State, pv Val, v Val, pos token.Pos) {
	p, ok := pv.(*PtrV)
	if !ok {
		I.event(Event{kind: "unmodelled", what: "store through unresolved pointer", pos: pos, cond: st.pc})
		return
	}
	I.panicIf(st, nilCond(p), pos, "nil pointer dereference (store)")
	live := 0
	for _, a := range p.alts {
		if a.obj != 0 && (len(p.alts) == 1 || feasible(And(st.pc, a.c))) {
			live++
		}
	}
	for _, a := range p.alts {
		if a.obj == 0 || (len(p.alts) > 1 && !feasible(And(st.pc, a.c))) {
			continue
		}
		old, _ := hget(st.heap, a.obj)
		g := a.c
		if live == 1 {
			g = True
		}
		nv := I.update(st, old, a.path, func(o Val) Val { return iteVal(g, v, o) })
		st.heap = hset(st.heap, a.obj, nv)
		I.markWrite(st, a.obj, a.path, pos)
	}
}

func addStep(p *PtrV, s Step) *PtrV {
	n := &PtrV{make([]PtrAlt, len(p.alts))}
	for i, a := range p.alts {
		np := a.path
		if a.obj != 0 {
			np = append(append([]Step{}, a.path...), s)
		}
		n.alts[i] = PtrAlt{a.c, a.obj, np}
	}
	return n
}

// ---- instructions ----

func (r *runner) instr(fr *frame, in ssa.Instruction) {
	I := r.I
	st := fr.st
	switch x := in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		obj := I.newObj(st, t, I.zero(st, t), "alloc", x.Pos())
		fr.env[x] = ptrTo(obj)
	case *ssa.BinOp:
		fr.env[x] = I.binop(st, x, I.get(fr, x.X), I.get(fr, x.Y))
	case *ssa.UnOp:
		fr.env[x] = I.unop(fr, x)
	case *ssa.Call:
		fnv, args := I.callParts(fr, &x.Call)
		v := I.doCall(st, &x.Call, fnv, args, x.Pos(), x)
		fr.env[x] = v
	case *ssa.Go:
		fnv, args := I.callParts(fr, &x.Call)
		I.spawn(st, &x.Call, fnv, args, x.Pos(), x)
	case *ssa.FieldAddr:
		p, ok := I.get(fr, x.X).(*PtrV)
		if !ok {
			I.panicIf(st, nilCond(I.get(fr, x.X)), x.Pos(), "nil pointer dereference (field)")
			fr.env[x] = I.opaquePtr(st, x.Type(), "field")
			return
		}
		I.panicIf(st, nilCond(p), x.Pos(), "nil pointer dereference (field)")
		fr.env[x] = addStep(dropNil(p), Step{f: x.Field})
	case *ssa.Field:
		v := I.get(fr, x.X)
		if s, ok := v.(*StructV); ok {
			fr.env[x] = s.f[x.Field]
		} else {
			fr.env[x] = I.havocTyped(st, x.Type(), I.freshName("field"), nil)
		}
	case *ssa.IndexAddr:
		fr.env[x] = I.indexAddr(st, x, I.get(fr, x.X), I.asPoly(st, I.get(fr, x.Index), x.Index.Type()))
	case *ssa.Index:
		v := I.get(fr, x.X)
		idx := I.asPoly(st, I.get(fr, x.Index), x.Index.Type())
		switch a := v.(type) {
		case *ArrV:
			I.boundsCheck(st, idx, C(int64(len(a.e))), x.Pos())
			fr.env[x] = I.arrGet(st, a, idx)
		case *SeqV:
			I.boundsCheck(st, idx, a.length(st.pc), x.Pos())
			fr.env[x] = a.liftP(st.pc, func(q *Seq) *Poly { return byteAt(q, idx) })
		default:
			fr.env[x] = I.havocTyped(st, x.Type(), I.freshName("index"), nil)
		}
	case *ssa.Lookup:
		fr.env[x] = I.lookup(st, x, I.get(fr, x.X), I.get(fr, x.Index))
	case *ssa.Slice:
		fr.env[x] = I.slice(fr, x)
	case *ssa.Store:
		I.store(st, I.get(fr, x.Addr), I.get(fr, x.Val), x.Pos())
	case *ssa.MakeSlice:
		n := I.asPoly(st, I.get(fr, x.Len), x.Len.Type())
		c := I.asPoly(st, I.get(fr, x.Cap), x.Cap.Type())
		I.panicIf(st, LtP(n, C(0)), x.Pos(), "makeslice: negative length")
		I.panicIf(st, LtP(c, n), x.Pos(), "makeslice: cap < len")
		if I.allocHook != nil {
			I.allocHook(st, x.Pos(), c, "make")
		}
		if _, hi := c.interval(); hi == nil || hi.Cmp(pow2(47)) > 0 {
			big := LtP(CB(pow2(47)), c)
			I.panicIf(st, big, x.Pos(), "makeslice: length out of range (unbounded allocation)")
		}
		elem := x.Type().Underlying().(*types.Slice).Elem()
		fr.env[x] = I.makeSlice(st, x.Type(), elem, n, c, x.Pos())
	case *ssa.MakeInterface:
		fr.env[x] = &IfaceV{[]IfAlt{{c: True, t: x.X.Type(), v: I.get(fr, x.X)}}}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, I.get(fr, b))
		}
		fr.env[x] = &FuncV{[]FnAlt{{c: True, fn: x.Fn.(*ssa.Function), binds: bs}}}
	case *ssa.MakeMap:
		fr.env[x] = ptrTo(I.newObj(st, x.Type(), &MapV{elem: x.Type().Underlying().(*types.Map).Elem()}, "alloc", x.Pos()))
	case *ssa.MapUpdate:
		I.mapUpdate(st, I.get(fr, x.Map), I.get(fr, x.Key), I.get(fr, x.Value), x.Pos())
	case *ssa.MakeChan:
		n := I.asPoly(st, I.get(fr, x.Size), x.Size.Type())
		fr.env[x] = ptrTo(I.newObj(st, x.Type(), &ExtV{kind: "chan", n: n, flag: False}, "alloc", x.Pos()))
	case *ssa.Send:
		I.send(st, I.get(fr, x.Chan), I.get(fr, x.X), x.Pos())
	case *ssa.Select:
		fr.env[x] = I.selectStmt(fr, x)
	case *ssa.Extract:
		v := I.get(fr, x.Tuple)
		if t, ok := v.(*TupleV); ok && x.Index < len(t.v) {
			fr.env[x] = t.v[x.Index]
		} else {
			fr.env[x] = I.havocTyped(st, x.Type(), I.freshName("extract"), nil)
		}
	case *ssa.ChangeType:
		fr.env[x] = I.get(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = I.get(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = I.convert(st, x.X.Type(), x.Type(), I.get(fr, x.X), x.Pos())
	case *ssa.MultiConvert:
		fr.env[x] = I.convert(st, x.X.Type(), x.Type(), I.get(fr, x.X), x.Pos())
	case *ssa.TypeAssert:
		fr.env[x] = I.typeAssert(st, x, I.get(fr, x.X))
	case *ssa.Range:
		fr.env[x] = I.rangeInit(st, x, I.get(fr, x.X))
	case *ssa.Next:
		fr.env[x] = I.rangeNext(st, x, I.get(fr, x.Iter))
	case *ssa.SliceToArrayPointer:
		s, ok := I.get(fr, x.X).(*SliceV)
		if ok && len(s.alts) == 1 && s.alts[0].obj != 0 && s.alts[0].off.isZero() {
			fr.env[x] = ptrTo(s.alts[0].obj, s.alts[0].path...)
		} else {
			fr.env[x] = I.opaquePtr(st, x.Type(), "s2a")
		}
	case *ssa.DebugRef:
	default:
		I.event(Event{kind: "unmodelled", what: fmt.Sprintf("instruction %T", in), pos: in.Pos(), cond: st.pc})
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = I.havocTyped(st, v.Type(), I.freshName("instr"), nil)
		}
	}
}

func dropNil(p *PtrV) *PtrV {
	n := &PtrV{}
	for _, a := range p.alts {
		if a.obj != 0 {
			n.alts = append(n.alts, a)
		}
	}
	if len(n.alts) == 0 {
		return p
	}
	if len(n.alts) == 1 {
		n.alts = []PtrAlt{{True, n.alts[0].obj, n.alts[0].path}}
	}
	return n
}

func (I *Interp) opaquePtr(st *State, t types.Type, why string) Val {
	el := deref(t)
	obj := I.newObj(st, el, I.havocTyped(st, el, I.freshName("opq."+why), nil), "havoc", token.NoPos)
	return ptrTo(obj)
}

func (I *Interp) boundsCheck(st *State, idx, n *Poly, pos token.Pos) {
	bad := Or(LtP(idx, C(0)), LeqP(n, idx))
	I.panicIf(st, bad, pos, "index out of range")
}

func (I *Interp) indexAddr(st *State, x *ssa.IndexAddr, base Val, idx *Poly) Val {
	switch b := base.(type) {
	case *PtrV: // pointer to array
		I.panicIf(st, nilCond(b), x.Pos(), "nil pointer dereference (index)")
		at, ok := deref(x.X.Type()).Underlying().(*types.Array)
		if ok {
			I.boundsCheck(st, idx, C(at.Len()), x.Pos())
		}
		return addStep(dropNil(b), Step{idx: idx})
	case *SliceV:
		var bad Bdd = False
		out := &PtrV{}
		for _, a := range b.alts {
			if len(b.alts) > 1 && !feasible(And(st.pc, a.c)) {
				continue
			}
			o := Or(LtP(idx, C(0)), LeqP(a.len, idx))
			bad = Or(bad, And(a.c, o))
			if a.obj != 0 {
				out.alts = append(out.alts, PtrAlt{a.c, a.obj, append(append([]Step{}, a.path...), Step{idx: Add(a.off, idx)})})
			}
		}
		I.panicIf(st, bad, x.Pos(), "index out of range")
		if len(out.alts) == 0 {
			return nilPtr()
		}
		if len(out.alts) == 1 {
			out.alts[0].c = True
		}
		return out
	}
	return I.opaquePtr(st, x.Type(), "index")
}

func (I *Interp) makeSlice(st *State, t, elem types.Type, n, c *Poly, pos token.Pos) Val {
	var content Val
	if isByte(elem) {
		content = mkSeqV(seqFill(C(0), c))
	} else if k, ok := c.constInt(); ok && k <= 8192 {
		a := &ArrV{}
		for i := int64(0); i < k; i++ {
			a.e = append(a.e, I.zero(st, elem))
		}
		content = a
	} else {
		content = &ArrSymV{n: c, elem: elem, name: I.freshName("make")}
	}
	obj := I.newObj(st, t, content, "alloc", pos)
	return &SliceV{[]SliceAlt{{c: True, obj: obj, off: C(0), len: n, cap: c}}}
}

func (I *Interp) slice(fr *frame, x *ssa.Slice) Val {
	st := fr.st
	base := I.get(fr, x.X)
	opt := func(v ssa.Value) *Poly {
		if v == nil {
			return nil
		}
		return I.asPoly(st, I.get(fr, v), v.Type())
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = C(0)
	}
	switch b := base.(type) {
	case *SeqV: // string
		n := b.length(st.pc)
		if hi == nil {
			hi = n
		}
		I.panicIf(st, Or(Or(LtP(lo, C(0)), LtP(hi, lo)), LtP(n, hi)), x.Pos(), "slice bounds out of range")
		return b.lift(st.pc, func(_ Bdd, q *Seq) *SeqV { return mkSeqV(subSeq(q, lo, Sub(hi, lo))) })
	case *PtrV: // *array
		I.panicIf(st, nilCond(b), x.Pos(), "nil pointer dereference (slice)")
		b = dropNil(b)
		at := deref(x.X.Type()).Underlying().(*types.Array)
		n := C(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if mx != nil {
			c = mx
		}
		I.panicIf(st, Or(Or(LtP(lo, C(0)), LtP(hi, lo)), LtP(n, hi)), x.Pos(), "slice bounds out of range")
		out := &SliceV{}
		for _, a := range b.alts {
			out.alts = append(out.alts, SliceAlt{a.c, a.obj, a.path, lo, Sub(hi, lo), Sub(c, lo)})
		}
		return out
	case *SliceV:
		out := &SliceV{}
		bad := False
		for _, a := range b.alts {
			if len(b.alts) > 1 && !feasible(And(st.pc, a.c)) {
				continue
			}
			h := hi
			if h == nil {
				h = a.len
			}
			c := a.cap
			m := c
			if mx != nil {
				bad = Or(bad, And(a.c, LtP(c, mx)))
				m = mx
			}
			lim := m
			bad = Or(bad, And(a.c, Or(Or(LtP(lo, C(0)), LtP(h, lo)), LtP(lim, h))))
			out.alts = append(out.alts, SliceAlt{a.c, a.obj, a.path, Add(a.off, lo), Sub(h, lo), Sub(m, lo)})
		}
		I.panicIf(st, bad, x.Pos(), "slice bounds out of range")
		if len(out.alts) == 1 {
			out.alts[0].c = True
		}
		return out
	}
	return I.havocTyped(st, x.Type(), I.freshName("slice"), nil)
}

// bytesOf reads the byte content of a []byte value.
func (I *Interp) bytesOf(st *State, v Val, pos token.Pos) *SeqV {
	switch x := v.(type) {
	case *SeqV:
		return x
	case *SliceV:
		var r *SeqV
		for _, a := range x.alts {
			if len(x.alts) > 1 && !feasible(And(st.pc, a.c)) {
				continue
			}
			var s *SeqV
			if a.obj == 0 {
				s = mkSeqV(mkSeq(nil))
			} else {
				c, _ := hget(st.heap, a.obj)
				I.logAccess(st, a.obj, a.path, false, pos)
				w := I.walk(st, c, a.path, nil2bytes)
				sv, ok := w.(*SeqV)
				if !ok {
					sv = mkSeqV(seqSym(I.freshName("bytes"), C(0), Add(a.off, a.cap)))
				}
				off, n := a.off, a.len
				s = sv.lift(st.pc, func(c Bdd, q *Seq) *SeqV {
					return mkSeqV(subSeq(q, underCond(off, c), underCond(n, c)))
				})
			}
			if r == nil {
				r = s
			} else {
				r = iteSeqV(a.c, s, r)
			}
		}
		if r != nil {
			return r
		}
	}
	n := I.freshName("bytes")
	return mkSeqV(seqSym(n, C(0), Sym("len("+n+")", zero, bi(maxLen))))
}

var nil2bytes = types.NewSlice(types.Typ[types.Uint8])

func (I *Interp) newBytes(st *State, s *SeqV, pos token.Pos) *SliceV {
	n := s.length(st.pc)
	obj := I.newObj(st, nil2bytes, s, "alloc", pos)
	return &SliceV{[]SliceAlt{{c: True, obj: obj, off: C(0), len: n, cap: n}}}
}

// writeBytes overwrites dst[0:len(s)] with s (len(s) <= len(dst) assumed checked).
func (I *Interp) writeBytes(st *State, dst Val, s *SeqV, n *Poly, pos token.Pos) {
	sl, ok := dst.(*SliceV)
	if !ok {
		return
	}
	for _, a := range sl.alts {
		if a.obj == 0 || (len(sl.alts) > 1 && !feasible(And(st.pc, a.c))) {
			continue
		}
		old, _ := hget(st.heap, a.obj)
		nv := I.update(st, old, a.path, func(o Val) Val {
			sv, ok := o.(*SeqV)
			if !ok {
				return o
			}
			w := sv.lift(st.pc, func(_ Bdd, q *Seq) *SeqV {
				return s.lift(st.pc, func(_ Bdd, z *Seq) *SeqV {
					m := n
					if m == nil {
						m = z.length()
					}
					z2 := z
					if m != z.length() {
						z2 = subSeq(z, C(0), m)
					}
					pre := subSeq(q, C(0), a.off)
					end := Add(a.off, m)
					post := subSeq(q, end, Sub(q.length(), end))
					return mkSeqV(seqCat(pre, z2, post))
				})
			})
			return iteVal(a.c, w, sv)
		})
		st.heap = hset(st.heap, a.obj, nv)
		I.markWrite(st, a.obj, append(append([]Step{}, a.path...), Step{idx: a.off}), pos)
	}
}

func (I *Interp) lookup(st *State, x *ssa.Lookup, base, key Val) Val {
	if s, ok := base.(*SeqV); ok {
		idx := I.asPoly(st, key, nil)
		I.boundsCheck(st, idx, s.length(st.pc), x.Pos())
		return s.liftP(st.pc, func(q *Seq) *Poly { return byteAt(q, idx) })
	}
	var vt types.Type
	if m, ok := x.X.Type().Underlying().(*types.Map); ok {
		vt = m.Elem()
	}
	if p, ok := base.(*PtrV); ok && len(p.alts) == 1 && p.alts[0].obj != 0 {
		c, _ := hget(st.heap, p.alts[0].obj)
		I.logAccess(st, p.alts[0].obj, nil, false, x.Pos())
		if m, ok := c.(*MapV); ok && !m.opaq {
			var v Val = I.zero(st, vt)
			found := False
			for i := range m.keys {
				eq := I.valEq(st, m.keys[i], key)
				v = iteVal(eq, m.vals[i], v)
				found = Or(found, eq)
			}
			if x.CommaOk {
				return &TupleV{[]Val{v, found}}
			}
			return v
		}
	}
	v := I.havocTyped(st, vt, I.freshName("lookup"), nil)
	if x.CommaOk {
		return &TupleV{[]Val{v, symCond(I.freshName("lookup.ok"))}}
	}
	return v
}

func (I *Interp) mapUpdate(st *State, mv, k, v Val, pos token.Pos) {
	p, ok := mv.(*PtrV)
	if !ok || len(p.alts) != 1 || p.alts[0].obj == 0 {
		return
	}
	obj := p.alts[0].obj
	c, _ := hget(st.heap, obj)
	m, ok := c.(*MapV)
	if !ok {
		return
	}
	I.markWrite(st, obj, nil, pos)
	if m.opaq {
		return
	}
	n := &MapV{append([]Val{}, m.keys...), append([]Val{}, m.vals...), false, m.elem}
	for i := range n.keys {
		eq := I.valEq(st, n.keys[i], k)
		if eq == True {
			n.vals[i] = v
			st.heap = hset(st.heap, obj, n)
			return
		}
		if eq != False {
			st.heap = hset(st.heap, obj, &MapV{opaq: true, elem: m.elem})
			return
		}
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	st.heap = hset(st.heap, obj, n)
}

func (I *Interp) rangeInit(st *State, x *ssa.Range, v Val) Val {
	obj := I.newObj(st, nil, &ExtV{kind: "iter", n: C(0), vals: []Val{v}}, "alloc", x.Pos())
	return ptrTo(obj)
}

func (I *Interp) rangeNext(st *State, x *ssa.Next, it Val) Val {
	p := it.(*PtrV)
	c, _ := hget(st.heap, p.alts[0].obj)
	e := c.(*ExtV)
	tt := x.Type().(*types.Tuple)
	hv := func() Val {
		return &TupleV{[]Val{symCond(I.freshName("next")), I.havocTyped(st, tt.At(1).Type(), I.freshName("next.k"), nil), I.havocTyped(st, tt.At(2).Type(), I.freshName("next.v"), nil)}}
	}
	i, ok := e.n.constInt()
	if !ok {
		return hv()
	}
	if mp, ok := e.vals[0].(*PtrV); ok && len(mp.alts) == 1 && mp.alts[0].obj != 0 {
		mc, _ := hget(st.heap, mp.alts[0].obj)
		if m, ok := mc.(*MapV); ok && !m.opaq {
			if int(i) >= len(m.keys) {
				return &TupleV{[]Val{False, I.zero(st, tt.At(1).Type()), I.zero(st, tt.At(2).Type())}}
			}
			st.heap = hset(st.heap, p.alts[0].obj, &ExtV{kind: "iter", n: C(i + 1), vals: e.vals})
			j := int(i)
			if I.lifo {
				j = len(m.keys) - 1 - j
			}
			I.note(st, x.Pos(), "map iteration")
			return &TupleV{[]Val{True, m.keys[j], m.vals[j]}}
		}
	}
	if s, ok := e.vals[0].(*SeqV); ok {
		if q := s.single(); q != nil {
			if n, ok := q.length().constInt(); ok {
				if i >= n {
					return &TupleV{[]Val{False, C(0), C(0)}}
				}
				st.heap = hset(st.heap, p.alts[0].obj, &ExtV{kind: "iter", n: C(i + 1), vals: e.vals})
				return &TupleV{[]Val{True, C(i), byteAt(q, C(i))}}
			}
		}
	}
	return hv()
}

func (I *Interp) typeAssert(st *State, x *ssa.TypeAssert, v Val) Val {
	iv, ok := v.(*IfaceV)
	if !ok {
		okc := symCond(I.freshName("assert.ok"))
		r := I.havocTyped(st, x.AssertedType, I.freshName("assert"), nil)
		if x.CommaOk {
			return &TupleV{[]Val{r, okc}}
		}
		I.panicIf(st, Not(okc), x.Pos(), "type assertion may fail")
		return r
	}
	good := False
	var r Val
	toIface := types.IsInterface(x.AssertedType)
	for _, a := range iv.alts {
		if len(iv.alts) > 1 && !feasible(And(st.pc, a.c)) {
			continue
		}
		match := False
		var val Val
		switch {
		case a.t != nil:
			if toIface {
				if types.Implements(a.t, x.AssertedType.Underlying().(*types.Interface)) {
					match, val = True, &IfaceV{[]IfAlt{{c: True, t: a.t, v: a.v}}}
				}
			} else if types.Identical(a.t, x.AssertedType) {
				match, val = True, a.v
			}
		case a.ext != "":
			match = symCond("assert(" + a.ext + "→" + types.TypeString(x.AssertedType, nil) + ")")
			if toIface {
				val = &IfaceV{[]IfAlt{{c: True, ext: a.ext, v: a.v}}}
			} else {
				val = I.havocTyped(st, x.AssertedType, I.freshName("assert"), nil)
			}
		}
		g := And(a.c, match)
		good = Or(good, g)
		if g != False {
			if r == nil {
				r = val
			} else {
				r = iteVal(g, val, r)
			}
		}
	}
	z := I.zero(st, x.AssertedType)
	if r == nil {
		r = z
	}
	if x.CommaOk {
		return &TupleV{[]Val{iteVal(good, r, z), good}}
	}
	I.panicIf(st, Not(good), x.Pos(), "type assertion fails")
	return r
}

func (I *Interp) unop(fr *frame, x *ssa.UnOp) Val {
	st := fr.st
	v := I.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		return I.load(st, v, x.Type(), x.Pos())
	case token.NOT:
		if b, ok := v.(Bdd); ok {
			return Not(b)
		}
		return symCond(I.freshName("not"))
	case token.SUB:
		if isInt(x.Type()) {
			return I.wrap(st, Neg(I.asPoly(st, v, x.Type())), x.Type())
		}
	case token.XOR:
		if isInt(x.Type()) {
			p := I.asPoly(st, v, x.Type())
			lo, hi := intRange(x.Type())
			if lo.Sign() == 0 {
				return Sub(CB(hi), p)
			}
			return Sub(C(-1), p)
		}
	case token.ARROW:
		return I.recv(st, v, x.CommaOk, x.Type(), x.Pos())
	}
	return I.havocTyped(st, x.Type(), I.freshName("unop"), nil)
}

// wrap reduces p to the range of t.
func (I *Interp) wrap(st *State, p *Poly, t types.Type) *Poly {
	lo, hi := intRange(t)
	if lo == nil {
		return p
	}
	if within(p, lo, hi) {
		return p
	}
	if indWide && lo.Sign() == 0 && hi.BitLen() == 8 {
		if bs := lowBits(p, 8); bs != nil {
			return ofBits(bs)
		}
	}
	return distribute([]*Poly{p}, func(ps []*Poly) *Poly {
		p := ps[0]
		if within(p, lo, hi) {
			return p
		}
		if st.pc != True {
			ok := And(LeqP(CB(lo), p), LeqP(p, CB(hi)))
			bad := AndNot(st.pc, ok)
			if !feasible(bad) || !feasibleLin(bad) {
				return p
			}
		}
		w := new(big.Int).Add(new(big.Int).Sub(hi, lo), one)
		if lo.Sign() == 0 {
			return Sub(p, Scale(DivP(p, w), w))
		}
		q := Sub(p, CB(lo))
		return Add(Sub(q, Scale(DivP(q, w), w)), CB(lo))
	})
}

func trailingZeros(p *Poly) int {
	k := 1 << 20
	for _, t := range p.t {
		z := int(t.c.TrailingZeroBits())
		if z < k {
			k = z
		}
	}
	return k
}

func andConst(p *Poly, mask *big.Int) *Poly {
	lo, _ := p.interval()
	if lo == nil || lo.Sign() < 0 {
		return nil
	}
	r := C(0)
	n := mask.BitLen()
	i := 0
	runs := 0
	for i < n {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && mask.Bit(j) == 1 {
			j++
		}
		r = Add(r, Scale(LowP(ShrP(p, i), j-i), pow2(i)))
		i = j
		runs++
		if runs > 8 {
			return nil
		}
	}
	return r
}

func bitAnd(a, b *Poly) *Poly {
	if c, ok := b.isConst(); ok && c.Sign() >= 0 {
		if r := andConst(a, c); r != nil {
			return r
		}
	}
	if c, ok := a.isConst(); ok && c.Sign() >= 0 {
		if r := andConst(b, c); r != nil {
			return r
		}
	}
	if a == b {
		return a
	}
	_, ha := a.interval()
	_, hb := b.interval()
	la, _ := a.interval()
	lb, _ := b.interval()
	var hi, lo *big.Int
	if la != nil && la.Sign() >= 0 && lb != nil && lb.Sign() >= 0 {
		lo = zero
		hi = ha
		if hb != nil && (hi == nil || hb.Cmp(hi) < 0) {
			hi = hb
		}
		// both 0/1: product
		if hi != nil && ha != nil && hb != nil && ha.Cmp(one) <= 0 && hb.Cmp(one) <= 0 {
			return Mul(a, b)
		}
	}
	if b.key < a.key {
		a, b = b, a
	}
	return App("and", lo, hi, a, b)
}

func bitOr(a, b *Poly) *Poly {
	if a.isZero() {
		return b
	}
	if b.isZero() || a == b {
		return a
	}
	la, ha := a.interval()
	lb, hb := b.interval()
	nn := la != nil && la.Sign() >= 0 && lb != nil && lb.Sign() >= 0
	if nn {
		if hb != nil && hb.BitLen() <= trailingZeros(a) {
			return Add(a, b)
		}
		if ha != nil && ha.BitLen() <= trailingZeros(b) {
			return Add(a, b)
		}
		if c, ok := a.isConst(); ok {
			if d, ok := b.isConst(); ok {
				return CB(new(big.Int).Or(c, d))
			}
			if r := andConst(b, c); r != nil {
				return Sub(Add(a, b), r)
			}
		}
		if c, ok := b.isConst(); ok {
			if r := andConst(a, c); r != nil {
				return Sub(Add(a, b), r)
			}
		}
		if ha != nil && hb != nil && ha.Cmp(one) <= 0 && hb.Cmp(one) <= 0 {
			return Sub(Add(a, b), Mul(a, b))
		}
		var hi *big.Int
		if ha != nil && hb != nil {
			n := ha.BitLen()
			if hb.BitLen() > n {
				n = hb.BitLen()
			}
			hi = new(big.Int).Sub(pow2(n), one)
		}
		if b.key < a.key {
			a, b = b, a
		}
		return App("or", zero, hi, a, b)
	}
	if b.key < a.key {
		a, b = b, a
	}
	return App("or", nil, nil, a, b)
}

func bitXor(a, b *Poly) *Poly {
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	if a == b {
		return C(0)
	}
	la, ha := a.interval()
	lb, hb := b.interval()
	if la != nil && la.Sign() >= 0 && lb != nil && lb.Sign() >= 0 {
		if c, ok := a.isConst(); ok {
			if d, ok := b.isConst(); ok {
				return CB(new(big.Int).Xor(c, d))
			}
			if r := andConst(b, c); r != nil {
				return Sub(Add(a, b), Scale(r, bi(2)))
			}
		}
		if c, ok := b.isConst(); ok {
			if r := andConst(a, c); r != nil {
				return Sub(Add(a, b), Scale(r, bi(2)))
			}
		}
		if ha != nil && hb != nil && ha.Cmp(one) <= 0 && hb.Cmp(one) <= 0 {
			return Sub(Add(a, b), Scale(Mul(a, b), bi(2)))
		}
		var hi *big.Int
		if ha != nil && hb != nil {
			n := ha.BitLen()
			if hb.BitLen() > n {
				n = hb.BitLen()
			}
			hi = new(big.Int).Sub(pow2(n), one)
		}
		if b.key < a.key {
			a, b = b, a
		}
		return App("xor", zero, hi, a, b)
	}
	return App("xor", nil, nil, a, b)
}

func (I *Interp) binop(st *State, x *ssa.BinOp, a, b Val) Val {
	switch x.Op {
	case token.EQL:
		return I.valEq(st, a, b)
	case token.NEQ:
		return Not(I.valEq(st, a, b))
	}
	t := x.X.Type()
	if isInt(t) {
		p, q := I.asPoly(st, a, t), I.asPoly(st, b, x.Y.Type())
		switch x.Op {
		case token.LSS:
			return LtP(p, q)
		case token.LEQ:
			return LeqP(p, q)
		case token.GTR:
			return LtP(q, p)
		case token.GEQ:
			return LeqP(q, p)
		case token.QUO, token.REM:
			I.panicIf(st, EqP(q, C(0)), x.Pos(), "integer divide by zero")
		case token.SHL, token.SHR:
			if lo, _ := q.interval(); lo == nil || lo.Sign() < 0 {
				I.panicIf(st, LtP(q, C(0)), x.Pos(), "negative shift amount")
			}
		}
		r := distribute([]*Poly{p, q}, func(ps []*Poly) *Poly { return I.arith(st, x.Op, ps[0], ps[1], t) })
		return I.wrap(st, r, x.Type())
	}
	if s, ok := a.(*SeqV); ok {
		if u, ok := b.(*SeqV); ok {
			if x.Op == token.ADD {
				return catV(st.pc, s, u)
			}
		}
	}
	if _, ok := a.(Bdd); ok {
		switch x.Op {
		case token.AND:
			return And(a.(Bdd), b.(Bdd))
		case token.OR:
			return Or(a.(Bdd), b.(Bdd))
		}
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		return symCond(I.freshName("cmp"))
	}
	return I.havocTyped(st, x.Type(), I.freshName("binop"), nil)
}

func (I *Interp) arith(st *State, op token.Token, p, q *Poly, t types.Type) *Poly {
	switch op {
	case token.ADD:
		return Add(p, q)
	case token.SUB:
		return Sub(p, q)
	case token.MUL:
		return Mul(p, q)
	case token.QUO:
		if c, ok := q.isConst(); ok && c.Sign() > 0 {
			lo, _ := p.interval()
			if lo != nil && lo.Sign() >= 0 {
				return DivP(p, c)
			}
			if pc, ok := p.isConst(); ok {
				return CB(new(big.Int).Quo(pc, c))
			}
			neg := LtP(p, C(0))
			return IteP(neg, Neg(DivP(Neg(p), c)), DivP(p, c))
		}
		lo, hi := p.interval()
		ql, _ := q.interval()
		if lo != nil && lo.Sign() >= 0 && ql != nil && ql.Sign() >= 0 {
			return App("quo", zero, hi, p, q)
		}
		return App("quo", nil, nil, p, q)
	case token.REM:
		if c, ok := q.isConst(); ok && c.Sign() > 0 {
			lo, _ := p.interval()
			if lo != nil && lo.Sign() >= 0 {
				if k := c.BitLen() - 1; lowMode && c.Cmp(pow2(k)) == 0 {
					return LowP(p, k)
				}
				return Sub(p, Scale(DivP(p, c), c))
			}
			if pc, ok := p.isConst(); ok {
				return CB(new(big.Int).Rem(pc, c))
			}
		}
		lo, _ := p.interval()
		_, qh := q.interval()
		if lo != nil && lo.Sign() >= 0 && qh != nil {
			return App("rem", zero, qh, p, q)
		}
		return App("rem", nil, nil, p, q)
	case token.AND:
		return bitAnd(p, q)
	case token.OR:
		return bitOr(p, q)
	case token.XOR:
		return bitXor(p, q)
	case token.AND_NOT:
		_, hi := intRange(t)
		if c, ok := q.isConst(); ok {
			return bitAnd(p, CB(new(big.Int).AndNot(hi, c)))
		}
		return Sub(p, bitAnd(p, q))
	case token.SHL:
		if c, ok := q.constInt(); ok {
			if c > 4096 {
				return C(0)
			}
			return Scale(p, pow2(int(c)))
		}
		if ql, qh := q.interval(); qh != nil && ql != nil && ql.Sign() >= 0 && qh.IsInt64() && qh.Int64() <= 16 {
			// small symbolic shift: guarded cases
			r := Scale(p, pow2(int(qh.Int64())))
			for k := qh.Int64() - 1; k >= ql.Int64(); k-- {
				r = IteP(LeqP(q, C(k)), Scale(p, pow2(int(k))), r)
			}
			return r
		}
		lo, _ := p.interval()
		if lo != nil && lo.Sign() >= 0 {
			return App("shl", zero, nil, p, q)
		}
		return App("shl", nil, nil, p, q)
	case token.SHR:
		if c, ok := q.constInt(); ok {
			if c > 4096 {
				c = 4096
			}
			return ShrP(p, int(c))
		}
		if ql, qh := q.interval(); qh != nil && ql != nil && ql.Sign() >= 0 && qh.IsInt64() && qh.Int64() <= 16 {
			r := ShrP(p, int(qh.Int64()))
			for k := qh.Int64() - 1; k >= ql.Int64(); k-- {
				r = IteP(LeqP(q, C(k)), ShrP(p, int(k)), r)
			}
			return r
		}
		lo, hi := p.interval()
		if lo != nil && lo.Sign() >= 0 {
			return App("shr", zero, hi, p, q)
		}
		return App("shr", nil, nil, p, q)
	}
	return App("op"+op.String(), nil, nil, p, q)
}

// valEq is the condition that two values are equal (Go ==).
func (I *Interp) valEq(st *State, a, b Val) Bdd {
	switch x := a.(type) {
	case *Poly:
		if y, ok := b.(*Poly); ok {
			return EqP(x, y)
		}
	case Bdd:
		if y, ok := b.(Bdd); ok {
			return Iff(x, y)
		}
	case *SeqV:
		if y, ok := b.(*SeqV); ok {
			r := False
			for _, p := range x.alts {
				for _, q := range y.alts {
					g := And(p.c, q.c)
					if g == False || (len(x.alts)+len(y.alts) > 2 && !feasible(And(st.pc, g))) {
						continue
					}
					r = Or(r, And(g, seqEq(p.s, q.s)))
				}
			}
			return r
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			r := False
			for _, p := range x.alts {
				for _, q := range y.alts {
					if p.obj != q.obj {
						continue
					}
					g := And(p.c, q.c)
					if g == False {
						continue
					}
					if p.obj == 0 || pathKey(p.path) == pathKey(q.path) {
						r = Or(r, g)
					} else {
						r = Or(r, And(g, symCond(I.freshName("ptreq"))))
					}
				}
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			// only comparison with nil is legal
			if len(y.alts) == 1 && y.alts[0].obj == 0 {
				return nilCond(x)
			}
			return nilCond(y)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if nilCond(y) == True {
				return nilCond(x)
			}
			return nilCond(y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := True
			for i := range x.f {
				r = And(r, I.valEq(st, x.f[i], y.f[i]))
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.e) == len(y.e) {
			r := True
			for i := range x.e {
				r = And(r, I.valEq(st, x.e[i], y.e[i]))
			}
			return r
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			r := False
			for _, p := range x.alts {
				for _, q := range y.alts {
					g := And(p.c, q.c)
					if g == False {
						continue
					}
					pn, qn := p.t == nil && p.ext == "", q.t == nil && q.ext == ""
					switch {
					case pn && qn:
						r = Or(r, g)
					case pn != qn:
					case p.t != nil && q.t != nil:
						if types.Identical(p.t, q.t) {
							r = Or(r, And(g, I.valEq(st, p.v, q.v)))
						}
					case p.ext != "" && q.ext != "":
						po, ok1 := p.v.(*Opaque)
						qo, ok2 := q.v.(*Opaque)
						if ok1 && ok2 && po.name == qo.name {
							r = Or(r, g)
						} else if ok1 && ok2 && uniqueErr(po.name) && uniqueErr(qo.name) {
						} else if ok1 && ok2 {
							r = Or(r, And(g, symCond("ifeq:"+po.name+"="+qo.name)))
						} else {
							r = Or(r, And(g, symCond(I.freshName("ifeq"))))
						}
					}
				}
			}
			return r
		}
	case *Opaque:
		if nb := isNilVal(b); nb {
			return symCond("nil?" + x.name)
		}
	}
	if o, ok := b.(*Opaque); ok && isNilVal(a) {
		return symCond("nil?" + o.name)
	}
	return symCond(I.freshName("eq"))
}

// uniqueErr: the name denotes one error value, distinct from any other such name.
func uniqueErr(n string) bool {
	return strings.HasPrefix(n, "err!") || n == "io.EOF" || n == "io.ErrUnexpectedEOF"
}

func isNilVal(v Val) bool {
	switch x := v.(type) {
	case *PtrV:
		return len(x.alts) == 1 && x.alts[0].obj == 0
	case *IfaceV:
		return len(x.alts) == 1 && x.alts[0].t == nil && x.alts[0].ext == ""
	case *SliceV:
		return len(x.alts) == 1 && x.alts[0].obj == 0
	}
	return false
}

func (I *Interp) convert(st *State, from, to types.Type, v Val, pos token.Pos) Val {
	if isInt(from) && isInt(to) {
		return I.wrap(st, I.asPoly(st, v, from), to)
	}
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := v.(*SliceV); ok {
			return I.bytesOf(st, s, pos)
		}
		if s, ok := v.(*SeqV); ok {
			return s
		}
	}
	if ts, ok := to.Underlying().(*types.Slice); ok && isByte(ts.Elem()) {
		if s, ok := v.(*SeqV); ok {
			return I.newBytes(st, s, pos)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if _, ok := v.(*PtrV); ok {
		return v
	}
	return I.havocTyped(st, to, I.freshName("conv"), nil)
}

// ---- calls ----

func (I *Interp) callParts(fr *frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fnv := I.get(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, I.get(fr, a))
	}
	return fnv, args
}

func (I *Interp) doCall(st *State, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, instr ssa.CallInstruction) Val {
	sig := c.Signature()
	if c.IsInvoke() {
		return I.invoke(st, c, fnv, args, pos, instr)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return I.builtin(st, b, c, args, pos, instr)
	}
	f, ok := fnv.(*FuncV)
	if !ok {
		I.event(Event{kind: "unmodelled", what: "call of unresolved function value", pos: pos, cond: st.pc})
		I.havocArgs(st, args, pos)
		return I.havocResult(st, sig, "dyn")
	}
	I.panicIf(st, nilCond(f), pos, "call of nil function")
	var alts []FnAlt
	for _, a := range f.alts {
		if a.fn == nil && a.ext == "" {
			continue
		}
		if len(f.alts) == 1 || feasible(And(st.pc, a.c)) {
			alts = append(alts, a)
		}
	}
	return I.callAlts(st, len(alts), func(i int) Bdd { return alts[i].c }, func(i int, s *State) Val {
		a := alts[i]
		if a.fn == nil {
			I.event(Event{kind: "unmodelled", what: "call of opaque function " + a.ext, pos: pos, cond: s.pc})
			I.havocArgs(s, args, pos)
			return I.havocResult(s, sig, "dyn")
		}
		return I.callFn(s, a.fn, args, a.binds, pos, instr)
	}, sig)
}

// callAlts runs alternative callees under their guards and merges.
func (I *Interp) callAlts(st *State, n int, cond func(int) Bdd, run func(int, *State) Val, sig *types.Signature) Val {
	if n == 0 {
		st.pc = False
		return I.zeroResult(st, sig)
	}
	if n == 1 {
		return run(0, st)
	}
	var accS *State
	var accV Val
	for i := 0; i < n; i++ {
		s := st.clone()
		s.pc = And(st.pc, cond(i))
		if I.dead(s) {
			continue
		}
		v := run(i, s)
		if I.dead(s) {
			continue
		}
		if accS == nil {
			accS, accV = s, v
		} else {
			m, c := I.mergeStates(accS, s)
			accV = iteVal(c, accV, v)
			accS = m
		}
	}
	if accS == nil {
		st.pc = False
		return I.zeroResult(st, sig)
	}
	*st = *accS
	return accV
}

var traceCalls = os.Getenv("ZK_TRACE") != ""

func (I *Interp) callFn(st *State, fn *ssa.Function, args, binds []Val, pos token.Pos, instr ssa.CallInstruction) Val {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	I.sites[name]++
	if s, ok := I.sum[name]; ok && s != nil {
		if traceCalls {
			fmt.Fprintln(os.Stderr, strings.Repeat(" ", len(I.stack)), "sum", name, I.P.pos(pos))
		}
		return s(I, st, &callCtx{fn: fn, name: name, args: args, pos: pos, sig: fn.Signature, instr: instr})
	}
	if fn.Name() == "init" && fn.Signature.Params().Len() == 0 && len(args) == 0 && fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPrefix) {
		return &TupleV{}
	}
	if fn.Blocks == nil {
		return I.external(st, fn, name, args, pos)
	}
	if traceCalls {
		fmt.Fprintln(os.Stderr, strings.Repeat(" ", len(I.stack)), "call", name, I.P.pos(pos), "pc size", bddSize(st.pc), "support", len(support(st.pc)), "axiom'd", bddSize(withAxioms(st.pc)))
	}
	return I.call(st, fn, args, binds, pos)
}

func (I *Interp) external(st *State, fn *ssa.Function, name string, args []Val, pos token.Pos) Val {
	I.unresolved[name]++
	I.event(Event{kind: "unmodelled", what: "external " + name, pos: pos, cond: st.pc})
	I.havocArgs(st, args, pos)
	return I.havocResult(st, fn.Signature, name)
}

// havocArgs forgets everything directly reachable through pointer arguments of an unmodelled call.
func (I *Interp) havocArgs(st *State, args []Val, pos token.Pos) {
	var visit func(v Val, depth int)
	visit = func(v Val, depth int) {
		if depth > 3 {
			return
		}
		switch x := v.(type) {
		case *PtrV:
			for _, a := range x.alts {
				if a.obj != 0 {
					old, ok := hget(st.heap, a.obj)
					if ok {
						visit(old, depth+1)
						st.heap = hset(st.heap, a.obj, I.havocContent(st, old, I.objs[a.obj], "ext"))
						if I.written != nil {
							I.written[a.obj] = true
						}
					}
				}
			}
		case *SliceV:
			for _, a := range x.alts {
				if a.obj != 0 {
					old, ok := hget(st.heap, a.obj)
					if ok {
						st.heap = hset(st.heap, a.obj, I.havocContent(st, old, I.objs[a.obj], "ext"))
						if I.written != nil {
							I.written[a.obj] = true
						}
					}
				}
			}
		case *StructV:
			for _, f := range x.f {
				visit(f, depth+1)
			}
		case *IfaceV:
			for _, a := range x.alts {
				visit(a.v, depth+1)
			}
		}
	}
	for _, a := range args {
		visit(a, 0)
	}
}

func (I *Interp) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos, instr ssa.CallInstruction) Val {
	return I.invokeM(st, c.Signature(), c.Method.Pkg(), c.Method.Name(), recv, args, pos, instr)
}

func (I *Interp) invokeM(st *State, sig *types.Signature, pkg *types.Package, meth string, recv Val, args []Val, pos token.Pos, instr ssa.CallInstruction) Val {
	iv, ok := recv.(*IfaceV)
	if !ok {
		I.event(Event{kind: "unmodelled", what: "invoke on unresolved interface " + meth, pos: pos, cond: st.pc})
		I.havocArgs(st, args, pos)
		return I.havocResult(st, sig, "invoke."+meth)
	}
	I.panicIf(st, nilCond(iv), pos, "nil interface method call")
	var alts []IfAlt
	for _, a := range iv.alts {
		if a.t == nil && a.ext == "" {
			continue
		}
		if len(iv.alts) == 1 || feasible(And(st.pc, a.c)) {
			alts = append(alts, a)
		}
	}
	return I.callAlts(st, len(alts), func(i int) Bdd { return alts[i].c }, func(i int, s *State) Val {
		a := alts[i]
		if a.t != nil {
			fn := I.P.ssa.LookupMethod(a.t, pkg, meth)
			if fn != nil {
				// receiver of promoted/wrapper methods is handled by the synthetic body
				return I.callFn(s, fn, append([]Val{a.v}, args...), nil, pos, instr)
			}
		}
		name := a.ext + "." + meth
		I.sites[name]++
		if sm, ok := I.sum[name]; ok {
			return sm(I, s, &callCtx{name: name, args: append([]Val{a.v}, args...), pos: pos, sig: sig, instr: instr})
		}
		if meth == "Error" && sig.Results().Len() == 1 {
			return mkSeqV(seqSym("errtext", C(0), Sym("len(errtext)", zero, bi(maxLen))))
		}
		I.unresolved[name]++
		I.event(Event{kind: "unmodelled", what: "invoke " + name, pos: pos, cond: s.pc})
		I.havocArgs(s, args, pos)
		return I.havocResult(s, sig, name)
	}, sig)
}

// ---- goroutines and channels ----

type blocked struct{ why string }

func (I *Interp) spawn(st *State, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, instr ssa.CallInstruction) {
	I.clk++
	g := &Gor{id: len(I.gors) + 1, spawn: I.clk, join: -1, pos: pos, cond: st.pc, parent: I.gor}
	if I.suppress == 0 {
		I.gors = append(I.gors, g)
	} else {
		g.id = 1 << 20
	}
	run := func(s *State) Val {
		save := I.gor
		saveLocks := I.locks
		I.gor = g.id
		I.locks = nil
		defer func() { I.gor = save; I.locks = saveLocks }()
		return I.doCall(s, c, fnv, args, pos, instr)
	}
	snapshot := st.clone()
	stk, stkf, ev, ac := len(I.stack), len(I.stackFn), len(I.events), len(I.acc)
	gsave := len(I.gors)
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(blocked); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		pcBefore := st.pc
		v := run(st)
		g.retErr = v
		g.retCond = st.pc
		_ = pcBefore
		return true
	}()
	if !ok {
		*st = *snapshot
		I.stack = I.stack[:stk]
		I.stackFn = I.stackFn[:stkf]
		I.events = I.events[:ev]
		I.acc = I.acc[:ac]
		I.gors = I.gors[:gsave]
		st.pend = append(append([]*pendGo{}, st.pend...), &pendGo{st.pc, nil, nil, pos, g.id})
		gr := g
		pg := st.pend[len(st.pend)-1]
		pg.fn = func(s *State) {
			v := run(s)
			gr.retErr = v
		}
		return
	}
	if I.dead(st) {
		// the goroutine panics on every path: the process dies; keep analysing the parent
		*st = *snapshot
	}
}

// runPending executes goroutines that were blocked when spawned.
func (I *Interp) runPending(st *State) bool {
	if len(st.pend) == 0 {
		return false
	}
	ps := st.pend
	st.pend = nil
	progress := false
	for _, p := range ps {
		snap := st.clone()
		stk, stkf := len(I.stack), len(I.stackFn)
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(blocked); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			p.fn.(func(*State))(st)
			return true
		}()
		if !ok {
			*st = *snap
			I.stack = I.stack[:stk]
			I.stackFn = I.stackFn[:stkf]
			st.pend = append(st.pend, p)
		} else {
			progress = true
		}
	}
	return progress
}

func (I *Interp) chanObj(st *State, v Val) (int, *ExtV) {
	p, ok := v.(*PtrV)
	if !ok {
		return 0, nil
	}
	for _, a := range p.alts {
		if a.obj != 0 && (len(p.alts) == 1 || feasible(And(st.pc, a.c))) {
			c, _ := hget(st.heap, a.obj)
			if e, ok := c.(*ExtV); ok && e.kind == "chan" {
				return a.obj, e
			}
			return a.obj, nil
		}
	}
	return 0, nil
}

func (g *Gor) joined(m *chanMsg, t, by int, pc Bdd) {
	if g.join < 0 {
		g.join = t
	}
	for _, a := range m.at {
		a.join, a.by, a.cond = t, by, And(a.cond, pc)
		g.done = append(g.done, a)
	}
}

// sendAt is a point up to which a goroutine's accesses are published, under a condition.
type sendAt struct {
	cond Bdd
	t    int
	join int // when it was received, and by which goroutine
	by   int
}

type chanMsg struct {
	at   []sendAt
	v    Val
	cond Bdd
	gor  int
	t    int
}

func newMsg(v Val, c Bdd, g, t int) *chanMsg {
	return &chanMsg{v: v, cond: c, gor: g, t: t, at: []sendAt{{cond: c, t: t}}}
}

func (I *Interp) send(st *State, ch, v Val, pos token.Pos) {
	obj, e := I.chanObj(st, ch)
	if I.onSend != nil {
		I.onSend(st, obj, v, pos)
	}
	if e == nil {
		I.event(Event{kind: "unmodelled", what: "send on unresolved channel", pos: pos, cond: st.pc})
		return
	}
	if strings.HasPrefix(I.objs[obj].origin, "global:") {
		return
	}
	I.panicIf(st, e.flag, pos, "send on closed channel")
	I.clk++
	n := *e
	n.vals = append(append([]Val{}, e.vals...), newMsg(v, st.pc, I.gor, I.clk))
	st.heap = hset(st.heap, obj, &n)
	if I.written != nil {
		I.written[obj] = true
	}
	I.event(Event{kind: "send", pos: pos, cond: st.pc, obj: obj})
}

func (I *Interp) recv(st *State, ch Val, commaOk bool, t types.Type, pos token.Pos) Val {
	obj, e := I.chanObj(st, ch)
	var et types.Type = t
	if commaOk {
		et = t.(*types.Tuple).At(0).Type()
	}
	mk := func(v Val, ok Bdd) Val {
		if commaOk {
			return &TupleV{[]Val{v, ok}}
		}
		return v
	}
	if e == nil {
		I.event(Event{kind: "unmodelled", what: "receive on unresolved channel", pos: pos, cond: st.pc})
		return mk(I.havocTyped(st, et, I.freshName("recv"), nil), symCond(I.freshName("recv.ok")))
	}
	for tries := 0; ; tries++ {
		c, _ := hget(st.heap, obj)
		e = c.(*ExtV)
		if len(e.vals) > 0 {
			break
		}
		if e.flag == True || implies(st.pc, e.flag) {
			return mk(I.zero(st, et), False)
		}
		if tries < 4 && I.gor == 0 && I.runPending(st) {
			continue
		}
		if I.gor != 0 {
			panic(blocked{"recv"})
		}
		I.event(Event{kind: "deadlock", what: "receive may block forever", pos: pos, cond: st.pc})
		return mk(I.havocTyped(st, et, I.freshName("recv"), nil), symCond(I.freshName("recv.ok")))
	}
	i := 0
	if I.lifo {
		i = len(e.vals) - 1
	}
	m := e.vals[i].(*chanMsg)
	n := *e
	n.vals = append(append([]Val{}, e.vals[:i]...), e.vals[i+1:]...)
	st.heap = hset(st.heap, obj, &n)
	if I.written != nil {
		I.written[obj] = true
	}
	I.clk++
	if m.gor != I.gor && m.gor > 0 && m.gor <= len(I.gors) && I.suppress == 0 {
		I.gors[m.gor-1].joined(m, I.clk, I.gor, st.pc)
	}
	return mk(m.v, True)
}

func (I *Interp) selectStmt(fr *frame, x *ssa.Select) Val {
	st := fr.st
	tt := x.Type().(*types.Tuple)
	// result: (index int, recvOk bool, recv...)
	res := &TupleV{}
	nrecv := tt.Len() - 2
	mk := func(idx int, ok Bdd, vals []Val) *TupleV {
		r := &TupleV{[]Val{C(int64(idx)), ok}}
		for i := 0; i < nrecv; i++ {
			if i < len(vals) && vals[i] != nil {
				r.v = append(r.v, vals[i])
			} else {
				r.v = append(r.v, I.zero(st, tt.At(2+i).Type()))
			}
		}
		return r
	}
	_ = res
	// non-blocking select on a shared pool channel: either outcome is possible
	if !x.Blocking && len(x.States) == 1 {
		s := x.States[0]
		obj, _ := I.chanObj(st, I.get(fr, s.Chan))
		if obj != 0 && strings.HasPrefix(I.objs[obj].origin, "global:") || obj == 0 {
			choose := symCond(I.freshName("select"))
			if s.Dir == types.SendOnly {
				if I.onSend != nil {
					I.onSend(st, obj, I.get(fr, s.Send), s.Pos)
				}
				return iteVal(choose, mk(0, False, nil), mk(-1, False, nil))
			}
			if !I.poolMode {
				return mk(-1, False, nil)
			}
			et := tt.At(2).Type()
			v := I.poolValue(st, et)
			return iteVal(choose, mk(0, True, []Val{v}), mk(-1, False, nil))
		}
	}
	// general: pick an enabled case deterministically, else default, else block
	for tries := 0; tries < 4; tries++ {
		ri := 0
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				_, e := I.chanObj(st, I.get(fr, s.Chan))
				if e != nil && (len(e.vals) > 0 || e.flag == True) {
					v := I.recv(st, I.get(fr, s.Chan), false, tt.At(2+ri).Type(), s.Pos)
					vals := make([]Val, nrecv)
					vals[ri] = v
					ok := True
					if len(e.vals) == 0 {
						ok = False
					}
					return mk(i, ok, vals)
				}
				ri++
			} else {
				I.send(st, I.get(fr, s.Chan), I.get(fr, s.Send), s.Pos)
				return mk(i, False, nil)
			}
		}
		if !x.Blocking {
			return mk(-1, False, nil)
		}
		if !(I.gor == 0 && I.runPending(st)) {
			break
		}
	}
	if I.gor != 0 {
		panic(blocked{"select"})
	}
	I.event(Event{kind: "deadlock", what: "select may block forever", pos: x.Pos(), cond: st.pc})
	return I.havocTyped(st, x.Type(), I.freshName("select"), nil)
}

// poolValue is an arbitrary element of the shared buffer pool.
func (I *Interp) poolValue(st *State, t types.Type) Val {
	name := I.freshName("poolbuf")
	obj := I.newObj(st, t, mkSeqV(seqSym(name, C(0), C(8))), "pool", token.NoPos)
	n := Sym("len("+name+")", zero, bi(8))
	return &SliceV{[]SliceAlt{{c: True, obj: obj, off: C(0), len: n, cap: C(8)}}}
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- arguments of an arbitrary caller ----

// anyArg is an arbitrary argument of type t; everything reachable from it has origin "param:<name>".
func (c *Check) anyArg(r *Run, t types.Type, name string) Val {
	switch namedKey(t) {
	case repoPrefix + ".ZKPCurveParams":
		return r.params()
	case repoPrefix + ".ECPoint":
		return r.point(name, PtSym(name))
	case "io.Reader":
		v, _ := r.stream(mkSeqV(seqSym(name, C(0), Sym("len("+name+")", zero, bi(maxLen)))))
		return v
	case "io.Writer":
		v, _ := r.sink()
		return v
	case "crypto/elliptic.Curve":
		return &IfaceV{[]IfAlt{{c: True, t: types.NewPointer(r.I.P.namedType("btcec", "KoblitzCurve")), v: r.I.s256(r.st)}}}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if namedKey(u.Elem()) == "math/big.Int" {
			return r.scalar(name, Sym(name, bigSub(zero, bigSub(pow2(256), one)), bigSub(pow2(256), one)))
		}
		o := &symOpts{origin: "param:" + name, big: wireOpts(3).big, sliceLen: func(string, types.Type) *Poly { return C(3) }}
		v := r.I.havocTyped(r.st, u.Elem(), name, o)
		return ptrTo(r.I.newObj(r.st, u.Elem(), v, "param:"+name, 0))
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			n := Sym("len("+name+")", zero, bi(maxLen))
			m := Add(n, Sym("spare("+name+")", zero, bi(maxLen)))
			o := r.I.newObj(r.st, nil2bytes, mkSeqV(seqSym(name, C(0), m)), "param:"+name, token.NoPos)
			return &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: n, cap: m}}}
		}
		a := &ArrV{}
		for i := 0; i < 2; i++ {
			a.e = append(a.e, c.anyArg(r, u.Elem(), fmt.Sprintf("%s[%d]", name, i)))
		}
		o := r.I.newObj(r.st, types.NewArray(u.Elem(), 2), a, "param:"+name, token.NoPos)
		return &SliceV{[]SliceAlt{{c: True, obj: o, off: C(0), len: C(2), cap: C(2)}}}
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(t)
			return Sym(name, lo, hi)
		case u.Info()&types.IsBoolean != 0:
			return symCond(name)
		case u.Info()&types.IsString != 0:
			return mkSeqV(seqSym(name, C(0), Sym("len("+name+")", zero, bi(maxLen))))
		}
	}
	return r.I.havocTyped(r.st, t, name, &symOpts{origin: "param:" + name})
}

// exported lists the exported functions and methods of a repository package.
func (c *Check) exported(pkg string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && f.Synthetic == "" && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	path := repoPrefix
	if pkg != "" {
		path += "/" + pkg
	}
	for _, p := range c.P.ssa.AllPackages() {
		if p.Pkg.Path() != path {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				if token.IsExported(n) {
					add(m)
				}
			case *ssa.Type:
				if !token.IsExported(n) {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := c.P.ssa.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if ms.At(i).Obj().Exported() {
							add(c.P.ssa.MethodValue(ms.At(i)))
						}
					}
				}
			}
		}
	}
	return out
}

// ---- C16: no operation modifies what it was given or anything shared ----

func (c *Check) pure(fn *ssa.Function, prims bool) {
	nm := strings.ReplaceAll(strings.ReplaceAll(fn.String(), repoPrefix+"/", ""), repoPrefix+".", "")
	c.sub(nm, func() {
		r := newRun(c.P, prims)
		r.I.adversarial = strings.HasSuffix(fn.Name(), "FromBytes")
		var args []Val
		for i, p := range fn.Params {
			n := p.Name()
			if n == "" || n == "_" {
				n = fmt.Sprintf("arg%d", i)
			}
			args = append(args, c.anyArg(r, p.Type(), n))
			if fn.Name() == "NewRangeProof" && i == len(fn.Params)-1 {
				// every provable value, by its bits
				val := C(0)
				for i := 0; i < 40; i++ {
					val = Add(val, Scale(Ind(symCond(fmt.Sprintf("bit%d", i))), pow2(i)))
				}
				args[i] = r.scalar(n, val)
				r.I.randErrIn = func(k int) bool { return k == 0 || k == 120 }
			}
		}
		r.call(fn, args...)
		c.absorb(r.I)
		w := c.where(fn)
		bad := map[string]bool{}
		for _, e := range r.I.events {
			switch e.kind {
			case "write":
				if strings.HasPrefix(e.what, "global:chan") || !feasible(e.cond) {
					continue
				}
				k := e.what + c.P.pos(e.pos)
				if bad[k] {
					continue
				}
				bad[k] = true
				what := "the caller's " + strings.TrimPrefix(e.what, "param:")
				if strings.HasPrefix(e.what, "global:") {
					what = "package-level state " + strings.TrimPrefix(e.what, "global:")
				}
				c.ob(false, nm+" leaves its arguments and package state as they were", c.P.pos(e.pos)+" "+e.fn, "writes %s [%s] under %s", what, e.stk, condStr(e.cond))
			case "unmodelled":
				c.ob(false, nm+": every operation is understood", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
			}
		}
		if len(bad) == 0 {
			c.ob(true, nm+" leaves its arguments and package state as they were", w, "")
		}
	})
}

// ---- C17: worker goroutines ----

func pathsOverlap(pc Bdd, a, b []Step) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		if (x.idx == nil) != (y.idx == nil) {
			return true
		}
		if x.idx == nil && x.f != y.f {
			return false
		}
		if x.idx != nil && !feasible(And(pc, EqP(x.idx, y.idx))) {
			return false
		}
	}
	return true
}

func (I *Interp) ancestor(x, y int) (int, bool) { // the child of x on the way to y
	for y > 0 && y <= len(I.gors) {
		g := I.gors[y-1]
		if g.parent == x {
			return y, true
		}
		y = g.parent
	}
	return 0, false
}

// ordered: access a (earlier in the log) happens before access b on every schedule.
func (I *Interp) ordered(a, b *Access) bool {
	if a.gor == b.gor {
		return true
	}
	if ch, ok := I.ancestor(a.gor, b.gor); ok {
		g := I.gors[ch-1]
		return a.t < g.spawn
	}
	if a.gor <= 0 || a.gor > len(I.gors) {
		return false
	}
	g := I.gors[a.gor-1]
	if g.join < 0 {
		return false
	}
	pub := False
	for _, d := range g.done {
		at := b.t // when b, or the worker it happens in, starts
		if b.gor != d.by {
			ch, ok := I.ancestor(d.by, b.gor)
			if !ok {
				continue
			}
			at = I.gors[ch-1].spawn
		}
		if a.t <= d.t && d.join <= at {
			pub = Or(pub, d.cond)
		}
	}
	if feasible(And(And(a.cond, b.cond), Not(pub))) {
		if os.Getenv("ZK_RACE") != "" {
			fmt.Fprintf(os.Stderr, "gor %d a.t %d a.cond %s b.cond %s\n", a.gor, a.t, condStr(a.cond), condStr(b.cond))
			for _, d := range g.done {
				fmt.Fprintf(os.Stderr, "   done %d %s\n", d.t, condStr(d.cond))
			}
		}
		return false
	}
	return true
}

func (c *Check) races(r *Run, nm string) {
	I := r.I
	by := map[int][]*Access{}
	for i := range I.acc {
		a := &I.acc[i]
		by[a.obj] = append(by[a.obj], a)
	}
	var objs []int
	for o := range by {
		objs = append(objs, o)
	}
	sort.Ints(objs)
	n := 0
	for _, o := range objs {
		as := by[o]
		multi := false
		for _, a := range as {
			multi = multi || a.gor != as[0].gor
		}
		if !multi {
			continue
		}
		n++
		found := false
		for i := 0; i < len(as) && !found; i++ {
			for j := i + 1; j < len(as) && !found; j++ {
				a, b := as[i], as[j]
				if a.gor == b.gor || !a.write && !b.write || !pathsOverlap(And(a.cond, b.cond), a.path, b.path) || sharedLock(a.locks, b.locks) || I.ordered(a, b) {
					continue
				}
				if !feasible(And(a.cond, b.cond)) {
					continue
				}
				found = true
				what := "memory"
				if ob := I.objs[o]; ob != nil {
					what = fmt.Sprintf("%s allocated at %s", ob.origin, c.P.pos(ob.pos))
				}
				c.ob(false, nm+": no memory is accessed by two goroutines without synchronization", c.P.pos(a.pos), "%s by one goroutine and %s at %s by another, unordered (%s%s)", rw(a.write), rw(b.write), c.P.pos(b.pos), what, pathKey(a.path))
			}
		}
	}
	c.ob(true, fmt.Sprintf("%s: %d shared objects examined", nm, n), "", "")
	c.shared += n
}

func rw(w bool) string {
	if w {
		return "written"
	}
	return "read"
}

func sharedLock(a, b string) bool {
	for _, x := range strings.Split(a, ",") {
		for _, y := range strings.Split(b, ",") {
			if x != "" && x == y {
				return true
			}
		}
	}
	return false
}

func (c *Check) workers(r *Run, nm string) {
	I := r.I
	c.races(r, nm)
	c.understood(r, nm)
	for _, e := range I.events {
		switch e.kind {
		case "wgadd":
			if e.gor != 0 {
				c.ob(false, nm+": workers are counted before they start", c.P.pos(e.pos)+" "+e.fn, "WaitGroup.Add inside the goroutine that is waited for")
			}
		case "deadlock":
			c.ob(false, nm+": the call never blocks forever", c.P.pos(e.pos)+" "+e.fn, "%s under %s", e.what, condStr(e.cond))
		}
	}
	// a message nobody receives keeps its sender forever unless the channel has room
	for o := range I.objs {
		v, _ := hget(r.st.heap, o)
		e, ok := v.(*ExtV)
		if !ok || e.kind != "chan" || I.objs[o] == nil || strings.HasPrefix(I.objs[o].origin, "global:") {
			continue
		}
		cp, known := e.n.constInt()
		c.ob(known && int64(len(e.vals)) <= cp, nm+": no worker is left blocked on a channel", c.P.pos(I.objs[o].pos), "%d messages are never received and the channel holds %s", len(e.vals), e.n)
	}
	c.ob(len(r.st.pend) == 0, nm+": no worker is left blocked", "", "%d workers can never finish", len(r.st.pend))
	// workers the call did not wait for
	for _, g := range I.gors {
		left := And(r.st.pc, g.cond)
		for _, d := range g.done {
			left = And(left, Not(d.cond))
		}
		if g.join < 0 || feasible(left) {
			c.ob(false, nm+": the call waits for every worker it started", c.P.pos(g.pos), "worker started under %s is still running when the call returns", condStr(g.cond))
			return
		}
	}
	c.ob(true, nm+": the call waits for every worker it started", "", "")
}

func (c *Check) workersRange(lifo bool) {
	ord := "first-in first-out"
	if lifo {
		ord = "last-in first-out"
	}
	for _, bank := range []int{0, 120} {
		bank := bank
		c.sub(fmt.Sprintf("NewRangeProof workers, %s, failing draws from %d", ord, bank), func() {
			r := newRun(c.P, true)
			r.I.lifo = lifo
			// the draws of two workers may fail
			r.I.randErrIn = func(k int) bool { return k == bank || k == bank+3 }
			r.I.logAcc = true
			z := r.params()
			val := C(0)
			for i := 0; i < 40; i++ {
				val = Add(val, Scale(Ind(symCond(fmt.Sprintf("bit%d", i))), pow2(i)))
			}
			r.call(c.fnOf("NewRangeProof"), z, r.scalar("value", val))
			c.absorb(r.I)
			c.workers(r, "NewRangeProof")
		})
	}
	c.sub("RangeProof.Verify workers, "+ord, func() {
		for _, n := range []int{0, 1, 3, 40} {
			r := newRun(c.P, true)
			r.I.lifo = lifo
			r.I.logAcc = true
			z := r.params()
			o := &symOpts{origin: "param:proof", sliceLen: func(path string, t types.Type) *Poly { return C(int64(n)) },
				nilable: func(string, types.Type) bool { return n == 3 }}
			p := r.havocProof("RangeProof", o)
			r.call(c.verifyFn("RangeProof"), p, z, r.point("comm", PtSym("comm")))
			c.absorb(r.I)
			c.workers(r, fmt.Sprintf("RangeProof.Verify with %d entries", n))
		}
	})
}

// ---- C18: published parameters ----

func (c *Check) globalVal(r *Run, pkg, name string) Val {
	for _, p := range c.P.ssa.AllPackages() {
		path := repoPrefix
		if pkg != "" {
			path += "/" + pkg
		}
		if p.Pkg.Path() != path {
			continue
		}
		if g, ok := p.Members[name].(*ssa.Global); ok {
			return r.I.load(r.st, ptrTo(r.I.globalObj(r.st, g)), g.Type().(*types.Pointer).Elem(), token.NoPos)
		}
	}
	panic("global " + name + " not found")
}

func (c *Check) publishedParams() {
	c.sub("TestCurve", func() {
		r := newRun(c.P, false)
		c.absorb(r.I)
		w := c.where(c.fnOf("init"))
		t := c.P.namedType("", "ZKPCurveParams").Underlying().(*types.Struct)
		v := c.globalVal(r, "", "TestCurve").(*StructV)
		f := func(n string) Val {
			i := fieldIndex(t, n, -1)
			if i < 0 {
				panic("TestCurve has no field " + n)
			}
			return v.f[i]
		}
		is := func(what string, got Val, want *Pt) {
			p := r.ptOf(got)
			ok, why := ptEqualUnder(r.st.pc, p, want)
			c.ob(ok, what, w, "is %s: %s", p, why)
		}
		is("TestCurve.G is the generator ScalarBaseMult multiplies", f("G"), G())
		is("TestCurve.H is the generator ScalarBaseMultH multiplies", f("H"), H())
		es, ok := r.I.elemsOf(r.st, f("HPoints"), token.NoPos)
		c.ob(ok && len(es) == 64, "TestCurve.HPoints has 64 entries", w, "%d", len(es))
		for i, e := range es {
			is(fmt.Sprintf("TestCurve.HPoints[%d] is 2^%d·G", i, i), e, lc(CB(pow2(i)), G()))
		}
		iv, ok := f("C").(*IfaceV)
		c.ob(ok && !feasible(nilCond(iv)), "TestCurve.C is set", w, "nil curve")
		z := c.globalVal(r, "", "Zero").(*StructV)
		for i, n := range []string{"X", "Y"} {
			g := r.I.bigAt(r.st, z.f[i], token.NoPos)
			c.ob(sameUnder(True, g, C(0)), "Zero."+n+" is 0", w, "is %s", g)
		}
		bz := r.I.bigAt(r.st, c.globalVal(r, "", "BigZero"), token.NoPos)
		c.ob(sameUnder(True, bz, C(0)), "BigZero is 0", w, "is %s", bz)
		c.noPanics(r, "package initialisation")
	})
}

// ---- C19: pooled buffers ----

func (c *Check) pooled(fn *ssa.Function, args func(r *Run) []Val) {
	nm := strings.ReplaceAll(fn.String(), repoPrefix+"/", "")
	c.sub(nm+" with pooled buffers", func() {
		r := newRun(c.P, true)
		I := r.I
		I.poolMode = true
		I.logAcc = true
		type ret struct {
			t    int
			cond Bdd
			pos  token.Pos
		}
		given := map[int][]ret{}
		I.onSend = func(st *State, ch int, v Val, pos token.Pos) {
			sl, ok := v.(*SliceV)
			if !ok || I.suppress > 0 {
				return
			}
			I.clk++
			for _, a := range sl.alts {
				g := And(st.pc, a.c)
				if a.obj == 0 || !feasible(g) {
					continue
				}
				for _, p := range given[a.obj] {
					if feasible(And(p.cond, g)) {
						c.ob(false, nm+": a buffer goes back to the pool once", c.P.pos(pos), "already returned at %s", c.P.pos(p.pos))
					}
				}
				whole := And(EqP(a.off, C(0)), EqP(a.cap, C(8)))
				c.ob(implies(g, whole), nm+": what goes back to the pool can be borrowed whole", c.P.pos(pos), "offset %s, capacity %s", a.off, a.cap)
				given[a.obj] = append(given[a.obj], ret{I.clk, g, pos})
			}
		}
		res := r.call(fn, args(r)...)
		c.absorb(I)
		n := 0
		for i := range I.acc {
			a := &I.acc[i]
			for _, p := range given[a.obj] {
				if a.t > p.t && feasible(And(a.cond, p.cond)) {
					c.ob(false, nm+": a buffer is not touched after it went back to the pool", c.P.pos(a.pos), "%s after being returned at %s", rw(a.write), c.P.pos(p.pos))
					n++
				}
			}
			if n > 0 {
				break
			}
		}
		c.ob(n == 0, nm+": a buffer is not touched after it went back to the pool", "", "")
		// results do not keep a pooled buffer
		var vs []Val
		if t, ok := res.(*TupleV); ok {
			vs = t.v
		} else {
			vs = []Val{res}
		}
		for _, v := range vs {
			if sl, ok := v.(*SliceV); ok {
				for _, a := range sl.alts {
					_, was := given[a.obj]
					pool := a.obj != 0 && I.objs[a.obj] != nil && I.objs[a.obj].origin == "pool"
					c.ob(!(was || pool) || !feasible(And(r.st.pc, a.c)), nm+": no result lives in a pooled buffer", c.where(fn), "returned slice shares a pooled buffer")
				}
			}
		}
		for _, e := range I.events {
			if e.kind == "panic" {
				c.ob(false, nm+": no panic whatever the pool holds", c.P.pos(e.pos)+" "+e.fn, "%s [%s]", e.what, e.stk)
				break
			}
			if e.kind == "unmodelled" {
				c.ob(false, nm+": every operation is understood", c.P.pos(e.pos)+" "+e.fn, "%s", e.what)
				break
			}
		}
		c.poolN += len(given)
	})
}

func init() {
	register(&checkDef{id: "C16", run: func(c *Check) {
		for _, pk := range []string{"", "wire"} {
			for _, f := range c.exported(pk) {
				prims := true
				for _, n := range []string{"Mult", "Add", "Sub", "Neg", "Equal"} {
					if f.Name() == n {
						prims = false
					}
				}
				c.pure(f, prims)
			}
		}
	}})
	register(&checkDef{id: "C17", run: func(c *Check) {
		c.workersRange(false)
		c.workersRange(true)
		c.ob(c.shared > 0, "objects shared between goroutines are observed", "", "none seen")
	}})
	register(&checkDef{id: "C18", run: func(c *Check) { c.publishedParams() }})
	register(&checkDef{id: "C19", run: func(c *Check) {
		for _, f := range c.exported("wire") {
			f := f
			c.pooled(f, func(r *Run) []Val {
				var args []Val
				for _, p := range f.Params {
					args = append(args, c.anyArg(r, p.Type(), p.Name()))
				}
				return args
			})
		}
		c.ob(c.poolN >= 8, "pooled buffers are observed", "", "only %d returns to the pool were seen", c.poolN)
	}})
}

package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (I *Interp) sliceLen(st *State, s *SliceV, f func(a SliceAlt) *Poly) *Poly {
	var r *Poly
	for _, a := range s.alts {
		if len(s.alts) > 1 && !feasible(And(st.pc, a.c)) {
			continue
		}
		if r == nil {
			r = f(a)
		} else {
			r = IteP(a.c, f(a), r)
		}
	}
	if r == nil {
		return C(0)
	}
	return r
}

func (I *Interp) lenOf(st *State, v Val) *Poly {
	switch x := v.(type) {
	case *SliceV:
		if I.decide != nil && len(x.alts) > 1 {
			for _, a := range x.alts {
				c, nc := And(st.pc, a.c), AndNot(st.pc, a.c)
				if !feasible(c) {
					continue
				}
				if !feasible(nc) {
					break
				}
				if I.decide(st, a.c) {
					st.pc = c
					break
				}
				st.pc = nc
			}
		}
		return I.sliceLen(st, x, func(a SliceAlt) *Poly { return a.len })
	case *SeqV:
		return x.length(st.pc)
	case *ArrV:
		return C(int64(len(x.e)))
	case *PtrV:
		if len(x.alts) == 1 && x.alts[0].obj != 0 {
			c, _ := hget(st.heap, x.alts[0].obj)
			switch m := c.(type) {
			case *MapV:
				if !m.opaq {
					return C(int64(len(m.keys)))
				}
			case *ArrV:
				return C(int64(len(m.e)))
			case *SeqV:
				return m.length(st.pc)
			case *ExtV:
				return C(int64(len(m.vals)))
			}
		}
		if len(x.alts) == 1 && x.alts[0].obj == 0 {
			return C(0)
		}
	}
	return Sym(I.freshName("len?"), zero, bi(maxLen))
}

func (I *Interp) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, instr ssa.CallInstruction) Val {
	switch b.Name() {
	case "len":
		return I.lenOf(st, args[0])
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			return I.sliceLen(st, s, func(a SliceAlt) *Poly { return a.cap })
		}
		return Sym(I.freshName("cap?"), zero, bi(maxLen))
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		t := c.Args[0].Type()
		return I.appendSlice(st, t, args[0], args[1], pos)
	case "copy":
		return I.copySlice(st, c.Args[0].Type(), args[0], args[1], pos)
	case "close":
		obj, e := I.chanObj(st, args[0])
		if e != nil {
			I.panicIf(st, e.flag, pos, "close of closed channel")
			n := *e
			n.flag = True
			st.heap = hset(st.heap, obj, &n)
			if I.written != nil {
				I.written[obj] = true
			}
			I.event(Event{kind: "close", pos: pos, cond: st.pc, obj: obj})
		}
		return &TupleV{}
	case "print", "println":
		return &TupleV{}
	case "recover":
		return nilIface()
	case "min", "max":
		t := c.Args[0].Type()
		if !isInt(t) {
			return I.havocTyped(st, t, I.freshName("minmax"), nil)
		}
		r := I.asPoly(st, args[0], t)
		for _, a := range args[1:] {
			q := I.asPoly(st, a, t)
			if b.Name() == "min" {
				r = IteP(LeqP(r, q), r, q)
			} else {
				r = IteP(LeqP(q, r), r, q)
			}
		}
		return r
	case "delete":
		if p, ok := args[0].(*PtrV); ok && len(p.alts) == 1 && p.alts[0].obj != 0 {
			obj := p.alts[0].obj
			I.markWrite(st, obj, nil, pos)
			cv, _ := hget(st.heap, obj)
			if m, ok := cv.(*MapV); ok && !m.opaq {
				n := &MapV{elem: m.elem}
				for i := range m.keys {
					eq := I.valEq(st, m.keys[i], args[1])
					if eq == True {
						continue
					}
					if eq != False {
						n.opaq = true
					}
					n.keys = append(n.keys, m.keys[i])
					n.vals = append(n.vals, m.vals[i])
				}
				if n.opaq {
					n = &MapV{opaq: true, elem: m.elem}
				}
				st.heap = hset(st.heap, obj, n)
			}
		}
		return &TupleV{}
	case "clear":
		if s, ok := args[0].(*SliceV); ok {
			n := I.lenOf(st, s)
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
				I.writeBytes(st, s, mkSeqV(seqFill(C(0), n)), n, pos)
				return &TupleV{}
			}
		}
		I.havocArgs(st, args, pos)
		return &TupleV{}
	case "ssa:wrapnilchk":
		I.panicIf(st, nilCond(args[0]), pos, "nil pointer dereference (method value)")
		return args[0]
	}
	I.event(Event{kind: "unmodelled", what: "builtin " + b.Name(), pos: pos, cond: st.pc})
	I.havocArgs(st, args, pos)
	return I.havocResult(st, c.Signature(), "builtin."+b.Name())
}

// elemsOf lists the elements of a slice of statically known length.
func (I *Interp) elemsOf(st *State, v Val, pos token.Pos) ([]Val, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	var alts []SliceAlt
	for _, a := range s.alts {
		if len(s.alts) == 1 || feasible(And(st.pc, a.c)) {
			alts = append(alts, a)
		}
	}
	if len(alts) == 0 {
		return nil, true
	}
	var out []Val
	for i, a := range alts {
		n, ok := a.len.constInt()
		if !ok {
			return nil, false
		}
		var es []Val
		if n > 0 {
			if a.obj == 0 {
				return nil, false
			}
			off, ok := a.off.constInt()
			if !ok {
				return nil, false
			}
			c, _ := hget(st.heap, a.obj)
			w := I.walk(st, c, a.path, nil2bytes)
			arr, ok := w.(*ArrV)
			if !ok || off+n > int64(len(arr.e)) {
				return nil, false
			}
			es = arr.e[off : off+n]
			for k := range es {
				I.logAccess(st, a.obj, append(append([]Step{}, a.path...), Step{idx: C(off + int64(k))}), false, pos)
			}
		}
		if i == 0 {
			out = append([]Val{}, es...)
			continue
		}
		if len(es) != len(out) {
			return nil, false
		}
		for k := range es {
			out[k] = iteVal(a.c, es[k], out[k])
		}
	}
	return out, true
}

func (I *Interp) appendSlice(st *State, t types.Type, base, more Val, pos token.Pos) Val {
	elem := t.Underlying().(*types.Slice).Elem()
	s, ok := base.(*SliceV)
	if !ok {
		return I.havocTyped(st, t, I.freshName("append"), nil)
	}
	if isByte(elem) {
		src := I.bytesOf(st, more, pos)
		return I.appendBytes(st, s, src, pos)
	}
	m := I.lenOf(st, more)
	if m.isZero() {
		return base
	}
	if len(s.alts) == 1 && s.alts[0].obj != 0 {
		a := s.alts[0]
		fits := LeqP(Add(a.len, m), a.cap)
		if fits == True {
			es, ok := I.elemsOf(st, more, pos)
			l, ok2 := a.len.constInt()
			off, ok3 := a.off.constInt()
			if ok && ok2 && ok3 {
				old, _ := hget(st.heap, a.obj)
				nv := I.update(st, old, a.path, func(v Val) Val {
					arr, ok := v.(*ArrV)
					if !ok {
						return v
					}
					n := &ArrV{append([]Val{}, arr.e...)}
					for k, e := range es {
						if int(off+l)+k < len(n.e) {
							n.e[int(off+l)+k] = e
						}
					}
					return n
				})
				st.heap = hset(st.heap, a.obj, nv)
				I.markWrite(st, a.obj, a.path, pos)
				return &SliceV{[]SliceAlt{{c: True, obj: a.obj, path: a.path, off: a.off, len: Add(a.len, m), cap: a.cap}}}
			}
		} else if fits != False {
			I.appendEvent(st, a, pos)
		}
	}
	b1, ok1 := I.elemsOf(st, base, pos)
	b2, ok2 := I.elemsOf(st, more, pos)
	n := Add(I.lenOf(st, base), m)
	var content Val
	if ok1 && ok2 {
		content = &ArrV{append(append([]Val{}, b1...), b2...)}
	} else {
		content = &ArrSymV{n: n, elem: elem, name: I.freshName("append")}
	}
	obj := I.newObj(st, t, content, "alloc", pos)
	return &SliceV{[]SliceAlt{{c: True, obj: obj, off: C(0), len: n, cap: n}}}
}

func (I *Interp) appendEvent(st *State, a SliceAlt, pos token.Pos) {
	o := I.objs[a.obj]
	if o != nil && (hasPrefix(o.origin, "param:") || hasPrefix(o.origin, "global:") || o.origin == "pool") {
		I.event(Event{kind: "write", what: o.origin + " (append may write into the caller's backing array)", pos: pos, cond: st.pc, obj: a.obj})
	}
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func (I *Interp) appendBytes(st *State, s *SliceV, src *SeqV, pos token.Pos) *SliceV {
	m := src.length(st.pc)
	if m.isZero() {
		return s
	}
	if len(s.alts) == 1 && s.alts[0].obj != 0 {
		a := s.alts[0]
		fits := LeqP(Add(a.len, m), a.cap)
		if fits == True || fits != False && implies(st.pc, fits) {
			d := &SliceV{[]SliceAlt{{c: True, obj: a.obj, path: a.path, off: Add(a.off, a.len), len: m, cap: Sub(a.cap, a.len)}}}
			I.writeBytes(st, d, src, nil, pos)
			return &SliceV{[]SliceAlt{{c: True, obj: a.obj, path: a.path, off: a.off, len: Add(a.len, m), cap: a.cap}}}
		}
		if fits != False {
			I.appendEvent(st, a, pos)
		}
	}
	cat := catV(st.pc, I.bytesOf(st, s, pos), src)
	return I.newBytes(st, cat, pos)
}

func (I *Interp) copySlice(st *State, t types.Type, dst, src Val, pos token.Pos) Val {
	ld, ls := I.lenOf(st, dst), I.lenOf(st, src)
	n := IteP(LeqP(ls, ld), ls, ld)
	n = underPc(n, st.pc)
	elem := types.Type(types.Typ[types.Uint8])
	if sl, ok := t.Underlying().(*types.Slice); ok {
		elem = sl.Elem()
	}
	if isByte(elem) {
		if n.isZero() {
			return n
		}
		s := I.bytesOf(st, src, pos)
		I.writeBytes(st, dst, s, n, pos)
		return n
	}
	es, ok := I.elemsOf(st, src, pos)
	k, ok2 := n.constInt()
	d, ok3 := dst.(*SliceV)
	if ok && ok2 && ok3 && len(d.alts) == 1 && int(k) <= len(es) {
		a := d.alts[0]
		for i := int64(0); i < k; i++ {
			p := &PtrV{[]PtrAlt{{True, a.obj, append(append([]Step{}, a.path...), Step{idx: Add(a.off, C(i))})}}}
			I.store(st, p, es[i], pos)
		}
		return n
	}
	I.havocArgs(st, []Val{dst}, pos)
	return n
}

// underPc simplifies indicators decided by the path condition.
func underPc(p *Poly, pc Bdd) *Poly {
	for _, a := range p.indicators() {
		f := atoms[a].bdd
		if !feasible(And(pc, f)) {
			p = p.setInd(a, false)
		} else if !feasible(AndNot(pc, f)) {
			p = p.setInd(a, true)
		}
	}
	return p
}

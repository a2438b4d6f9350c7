package main

// Byte sequences: concatenations of symbolic segments.

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"
)

type Seg struct {
	k    string // c const, b byte, be minimal big-endian, pad fixed big-endian, sym raw input, hash digest, fill, sub
	c    string
	p    *Poly // b, be, pad, fill(byte)
	n    *Poly // length
	name string
	off  *Poly
	sub  *Seq
}

type Seq struct {
	s   []Seg
	key string
	n   *Poly
}

var seqIntern = map[string]*Seq{}

func (g *Seg) keyStr() string {
	switch g.k {
	case "c":
		return "c" + fmt.Sprintf("%x", g.c)
	case "b":
		return "b(" + g.p.key + ")"
	case "be":
		return "be(" + g.p.key + ")"
	case "pad":
		return "pad(" + g.p.key + "," + g.n.key + ")"
	case "sym":
		return "sym(" + g.name + "@" + g.off.key + "," + g.n.key + ")"
	case "hash":
		return "hash(" + g.name + "," + g.sub.key + ")"
	case "fill":
		return "fill(" + g.p.key + "," + g.n.key + ")"
	case "sub":
		return "sub(" + g.sub.key + "@" + g.off.key + "," + g.n.key + ")"
	}
	panic("seg kind " + g.k)
}

func (g *Seg) String() string {
	switch g.k {
	case "c":
		if len(g.c) > 24 {
			return fmt.Sprintf("0x%x…", g.c[:24])
		}
		return fmt.Sprintf("0x%x", g.c)
	case "b":
		return "byte(" + g.p.String() + ")"
	case "be":
		return "bytes(" + g.p.String() + ")"
	case "pad":
		return "bytes" + g.n.String() + "(" + g.p.String() + ")"
	case "sym":
		return g.name + "[" + g.off.String() + ":+" + g.n.String() + "]"
	case "hash":
		if in := g.sub.String(); len(in) > 200 {
			h := fnv.New32a()
			h.Write([]byte(g.sub.key))
			return fmt.Sprintf("%s{%s #%x}", g.name, clip(in, 40), h.Sum32())
		}
		return g.name + "{" + g.sub.String() + "}"
	case "fill":
		return "fill(" + g.p.String() + "×" + g.n.String() + ")"
	case "sub":
		return "(" + g.sub.String() + ")[" + g.off.String() + ":+" + g.n.String() + "]"
	}
	return "?"
}

func (s *Seq) String() string {
	var o []string
	for i := range s.s {
		if i > 20 {
			o = append(o, fmt.Sprintf("…(%d segments)", len(s.s)))
			break
		}
		o = append(o, s.s[i].String())
	}
	r := strings.Join(o, "‖")
	if len(r) > 600 {
		r = clip(r, 600)
	}
	return r
}

func lenBe(p *Poly) *Poly {
	return distribute([]*Poly{p}, func(ps []*Poly) *Poly {
		q := ps[0]
		if c, ok := q.isConst(); ok {
			return C(int64((c.BitLen() + 7) / 8))
		}
		lo, hi := q.interval()
		var h *big.Int
		l := zero
		if lo != nil && hi != nil {
			m := new(big.Int).Abs(lo)
			if hi.CmpAbs(m) > 0 {
				m = new(big.Int).Abs(hi)
			}
			h = bi(int64((m.BitLen() + 7) / 8))
			if lo.Sign() > 0 {
				l = bi(int64((lo.BitLen() + 7) / 8))
			}
			if h.Cmp(l) == 0 {
				return CB(h)
			}
		}
		return A(internAtom(&Atom{kind: "len", args: []*Poly{q}, lo: l, hi: h, key: "lenbe:" + q.key}))
	})
}

func (g *Seg) length() *Poly {
	switch g.k {
	case "c":
		return C(int64(len(g.c)))
	case "b":
		return C(1)
	case "be":
		return lenBe(g.p)
	}
	return g.n
}

func mkSeq(segs []Seg) *Seq {
	// normalise
	var out []Seg
	if lowMode {
		segs = fixedWidths(segs)
	}
	for _, g := range segs {
		if c, ok := g.length().constInt(); ok && c == 0 {
			continue
		}
		if g.k == "b" {
			if c, ok := g.p.isConst(); ok {
				g = Seg{k: "c", c: string([]byte{byte(c.Int64())})}
			} else if a := g.p.isAtom(); symRuns && a != nil && a.kind == "app" && strings.HasPrefix(a.key, "byte:") {
				g = Seg{k: "sym", name: a.name, off: a.args[0], n: C(1)}
			}
		}
		if g.k == "be" {
			if c, ok := g.p.isConst(); ok {
				g = Seg{k: "c", c: string(new(big.Int).Abs(c).Bytes())}
			}
		}
		if g.k == "pad" {
			if c, ok := g.p.isConst(); ok {
				if n, ok := g.n.constInt(); ok && c.Sign() >= 0 && (c.BitLen()+7)/8 <= int(n) {
					g = Seg{k: "c", c: string(c.FillBytes(make([]byte, n)))}
				}
			}
		}
		if g.k == "fill" {
			if n, ok := g.n.constInt(); ok {
				if c, ok := g.p.constInt(); ok && n <= 4096 {
					g = Seg{k: "c", c: strings.Repeat(string([]byte{byte(c)}), int(n))}
				}
			}
		}
		if len(out) > 0 {
			l := &out[len(out)-1]
			if l.k == "c" && g.k == "c" {
				l.c += g.c
				continue
			}
			if l.k == "fill" && g.k == "be" && l.p.isZero() {
				// zeros(n - len(x)) ++ bytes(x) = fixed-width encoding
				n := Add(l.n, lenBe(g.p))
				if _, ok := n.constInt(); ok {
					lo, _ := g.p.interval()
					if lo != nil && lo.Sign() >= 0 {
						*l = Seg{k: "pad", p: g.p, n: n}
						continue
					}
				}
			}
			if l.k == "sym" && g.k == "sym" && l.name == g.name && Add(l.off, l.n) == g.off {
				l.n = Add(l.n, g.n)
				continue
			}
			if l.k == "sub" && g.k == "sub" && l.sub == g.sub && Add(l.off, l.n) == g.off {
				l.n = Add(l.n, g.n)
				if l.off.isZero() && l.n == l.sub.length() {
					whole := l.sub
					out = append(out[:len(out)-1], whole.s...)
				}
				continue
			}
		}
		out = append(out, g)
	}
	// re-merge exploded digests: hb(h,0..n-1)
	out = mergeBytes(out)
	if lowMode {
		out = mergeDigits(out)
	}
	var sb strings.Builder
	for i := range out {
		if i > 0 {
			sb.WriteByte('|')
		}
		sb.WriteString(out[i].keyStr())
	}
	k := sb.String()
	if s, ok := seqIntern[k]; ok {
		return s
	}
	s := &Seq{s: out, key: k}
	seqIntern[k] = s
	return s
}

func mergeBytes(in []Seg) []Seg {
	has := false
	for i := range in {
		if in[i].k == "b" {
			if a := in[i].p.isAtom(); a != nil && a.kind == "hb" {
				has = true
			}
		}
	}
	if !has {
		return in
	}
	var out []Seg
	for i := 0; i < len(in); {
		g := in[i]
		if g.k == "b" {
			if a := g.p.isAtom(); a != nil && a.kind == "hb" {
				// run length
				idx, _ := a.args[0].constInt()
				j := i + 1
				for j < len(in) && in[j].k == "b" {
					b := in[j].p.isAtom()
					if b == nil || b.kind != "hb" || b.seq != a.seq {
						break
					}
					bi, _ := b.args[0].constInt()
					if bi != idx+int64(j-i) {
						break
					}
					j++
				}
				n := int64(j - i)
				whole := a.seq
				wl, _ := whole.length().constInt()
				if idx == 0 && n == wl {
					out = append(out, whole.s...)
					i = j
					continue
				}
				if n > 1 {
					out = append(out, Seg{k: "sub", sub: whole, off: C(idx), n: C(n)})
					i = j
					continue
				}
			}
		}
		out = append(out, g)
		i++
	}
	return out
}

// fixedWidths writes numbers of known length with exactly the bytes they may need, after constant zeros.
func fixedWidths(in []Seg) []Seg {
	var out []Seg
	for _, g := range in {
		if g.k == "be" || g.k == "pad" {
			lo, hi := g.p.interval()
			if n, ok := g.length().constInt(); ok && lo != nil && hi != nil && lo.Sign() >= 0 {
				m := int64(hi.BitLen()+7) / 8
				if m < n {
					out = append(out, Seg{k: "c", c: strings.Repeat("\x00", int(n-m))})
					n = m
				}
				if m == n && n > 0 {
					g = Seg{k: "pad", p: g.p, n: C(n)}
				}
				if n == 0 {
					continue
				}
			}
		}
		out = append(out, g)
	}
	return out
}

// mergeDigits joins the consecutive bytes of one number.
func mergeDigits(in []Seg) []Seg {
	out := in
	for i := 0; i+1 < len(out); i++ {
		if out[i].k != "b" || out[i+1].k != "b" {
			continue
		}
		a := out[i].p.isAtom()
		if a != nil && a.kind == "low" && a.m.Cmp(bi(256)) == 0 {
			a = a.args[0].isAtom()
		}
		if a == nil || a.kind != "div" {
			continue
		}
		p, k := a.args[0], (a.m.BitLen()-1)/8
		if k == 0 || a.m.Cmp(pow2(8*k)) != 0 || i+k >= len(out) || p.isAtom() == nil {
			continue
		}
		ok := true
		for j := 0; j <= k && ok; j++ {
			ok = out[i+j].k == "b" && out[i+j].p == LowP(ShrP(p, 8*(k-j)), 8)
		}
		if !ok {
			continue
		}
		q := append([]Seg{}, out[:i]...)
		q = append(q, Seg{k: "pad", p: LowP(p, 8*k+8), n: C(int64(k + 1))})
		out = append(q, out[i+k+1:]...)
	}
	return out
}

func (s *Seq) length() *Poly {
	if s.n == nil {
		ps := make([]*Poly, len(s.s))
		for i := range s.s {
			ps[i] = s.s[i].length()
		}
		s.n = Sum(ps...)
	}
	return s.n
}

func seqConst(b string) *Seq { return mkSeq([]Seg{{k: "c", c: b}}) }
func seqBe(p *Poly) *Seq     { return mkSeq([]Seg{{k: "be", p: p}}) }
func seqPad(p *Poly, n int) *Seq {
	return mkSeq([]Seg{{k: "pad", p: p, n: C(int64(n))}})
}
func seqSym(name string, off, n *Poly) *Seq {
	return mkSeq([]Seg{{k: "sym", name: name, off: off, n: n}})
}
func seqByte(p *Poly) *Seq { return mkSeq([]Seg{{k: "b", p: p}}) }
func seqFill(b, n *Poly) *Seq {
	return mkSeq([]Seg{{k: "fill", p: b, n: n}})
}
func seqHash(name string, sub *Seq, n int) *Seq {
	return mkSeq([]Seg{{k: "hash", name: name, sub: sub, n: C(int64(n))}})
}
func seqCat(ss ...*Seq) *Seq {
	var segs []Seg
	for _, s := range ss {
		segs = append(segs, s.s...)
	}
	return mkSeq(segs)
}

func (s *Seq) indicators() []int32 {
	m := map[int32]bool{}
	var walk func(*Seq)
	walk = func(s *Seq) {
		for i := range s.s {
			g := &s.s[i]
			for _, p := range []*Poly{g.p, g.n, g.off} {
				if p != nil {
					for _, a := range p.indicators() {
						m[a] = true
					}
				}
			}
			if g.sub != nil {
				walk(g.sub)
			}
		}
	}
	walk(s)
	var out []int32
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (s *Seq) mapPolys(f func(*Poly) *Poly) *Seq {
	segs := make([]Seg, len(s.s))
	for i, g := range s.s {
		if g.p != nil {
			g.p = f(g.p)
		}
		if g.n != nil {
			g.n = f(g.n)
		}
		if g.off != nil {
			g.off = f(g.off)
		}
		if g.sub != nil {
			g.sub = g.sub.mapPolys(f)
		}
		segs[i] = g
	}
	return mkSeq(segs)
}
func (s *Seq) setInd(a int32, v bool) *Seq {
	return s.mapPolys(func(p *Poly) *Poly { return p.setInd(a, v) })
}
func (s *Seq) under(c Bdd) *Seq {
	if c == True {
		return s
	}
	return s.mapPolys(func(p *Poly) *Poly { return underCond(p, c) })
}

// intOf is the big-endian unsigned integer value of s.
func intOf(s *Seq) *Poly {
	if inds := s.indicators(); len(inds) > 0 && len(inds) <= maxDistribute {
		h, l := intOf(s.setInd(inds[0], true)), intOf(s.setInd(inds[0], false))
		if h == l {
			return h
		}
		return Add(l, Mul(A(atoms[inds[0]]), Sub(h, l)))
	}
	// strip leading zeros
	segs := s.s
	for len(segs) > 0 {
		g := segs[0]
		if g.k == "fill" && g.p.isZero() {
			segs = segs[1:]
			continue
		}
		if g.k == "c" {
			t := strings.TrimLeft(g.c, "\x00")
			if t == "" {
				segs = segs[1:]
				continue
			}
			if t != g.c {
				segs = append([]Seg{{k: "c", c: t}}, segs[1:]...)
			}
		}
		break
	}
	if len(segs) == 0 {
		return C(0)
	}
	// peel constant-length suffixes
	g := segs[len(segs)-1]
	if n, ok := g.length().constInt(); ok && n >= 0 && n < 1<<20 && len(segs) > 1 {
		hi := intOf(mkSeq(segs[:len(segs)-1]))
		return Add(Scale(hi, pow2(int(8*n))), intOf(mkSeq(segs[len(segs)-1:])))
	}
	if len(segs) == 1 {
		switch g.k {
		case "c":
			return CB(new(big.Int).SetBytes([]byte(g.c)))
		case "b":
			return g.p
		case "be":
			lo, _ := g.p.interval()
			if lo != nil && lo.Sign() >= 0 {
				return g.p
			}
			return AbsP(g.p)
		case "pad":
			return g.p
		}
	}
	t := mkSeq(segs)
	if r, ok := hashRange[t]; ok {
		if r[0].Cmp(r[1]) == 0 {
			return CB(r[0])
		}
		return A(internAtom(&Atom{kind: "int", seq: t, lo: r[0], hi: r[1], key: "int:" + t.key + "∈" + r[0].Text(62) + "," + r[1].Text(62)}))
	}
	var hi *big.Int
	if _, h := t.length().interval(); h != nil && h.Sign() >= 0 && h.IsInt64() && h.Int64() < 1<<16 {
		hi = new(big.Int).Sub(pow2(int(8*h.Int64())), one)
	}
	return A(internAtom(&Atom{kind: "int", seq: t, lo: zero, hi: hi, key: "int:" + t.key}))
}

// AbsP is |p|.
func AbsP(p *Poly) *Poly {
	neg := LeC(Add(p, C(1)))
	return IteP(neg, Neg(p), p)
}

// byteAt is the i-th byte of s.
func byteAt(s *Seq, i *Poly) *Poly {
	rem := i
	for gi := range s.s {
		g := &s.s[gi]
		n := g.length()
		rc, rok := rem.constInt()
		nc, nok := n.constInt()
		if rok && nok {
			if rc >= nc {
				rem = C(rc - nc)
				continue
			}
			if rc >= 0 {
				switch g.k {
				case "c":
					return C(int64(g.c[rc]))
				case "b":
					return g.p
				case "pad":
					return LowP(ShrP(g.p, int(8*(nc-1-rc))), 8)
				case "be":
					if lo, _ := g.p.interval(); lo != nil && lo.Sign() >= 0 {
						return LowP(ShrP(g.p, int(8*(nc-1-rc))), 8)
					}
				case "fill":
					return g.p
				case "hash":
					h := mkSeq([]Seg{*g})
					return A(internAtom(&Atom{kind: "hb", seq: h, args: []*Poly{C(rc)}, lo: zero, hi: bi(255), key: "hb:" + h.key + "@" + rem.key}))
				case "sub":
					return byteAt(g.sub, Add(g.off, rem))
				case "sym":
					return symByte(g.name, Add(g.off, rem))
				}
			}
		}
		if g.k == "sym" {
			// inside this segment?
			if LtP(rem, n) == True && LeqP(C(0), rem) == True || len(s.s) == 1 {
				return symByte(g.name, Add(g.off, rem))
			}
		}
		if g.k == "fill" && len(s.s) == 1 {
			return g.p
		}
		if d := Sub(rem, n); LeqP(C(0), d) == True {
			rem = d
			continue
		}
		break
	}
	return A(internAtom(&Atom{kind: "at", seq: s, args: []*Poly{i}, lo: zero, hi: bi(255), key: "at:" + s.key + "@" + i.key}))
}

// symRuns makes runs of the bytes of an input a part of the input.
var symRuns bool

func init() { resetHooks = append(resetHooks, func() { symRuns = false }) }

func symByte(name string, i *Poly) *Poly {
	return A(internAtom(&Atom{kind: "app", name: name, args: []*Poly{i}, lo: zero, hi: bi(255), key: "byte:" + name + "@" + i.key}))
}

// explode turns the constant-length sequence into single bytes.
func explode(s *Seq) ([]*Poly, bool) {
	n, ok := s.length().constInt()
	if !ok || n > 512 {
		return nil, false
	}
	out := make([]*Poly, n)
	for i := range out {
		out[i] = byteAt(s, C(int64(i)))
	}
	return out, true
}

func fromBytes(bs []*Poly) *Seq {
	segs := make([]Seg, len(bs))
	for i, b := range bs {
		segs[i] = Seg{k: "b", p: b}
	}
	return mkSeq(segs)
}

// subSeq is s[off:off+n].
func subSeq(s *Seq, off, n *Poly) *Seq {
	if off.isZero() && n == s.length() {
		return s
	}
	if n.isZero() {
		return mkSeq(nil)
	}
	rem := off
	var out []Seg
	gi := 0
	// skip
	for gi < len(s.s) && !rem.isZero() {
		g := s.s[gi]
		l := g.length()
		d := Sub(rem, l)
		if d.isZero() || LeqP(C(0), d) == True {
			rem = d
			gi++
			continue
		}
		break
	}
	need := n
	for gi < len(s.s) && !need.isZero() {
		g := s.s[gi]
		l := g.length()
		avail := Sub(l, rem)
		if rem.isZero() && l == need {
			out = append(out, g)
			need = C(0)
			break
		}
		d := Sub(need, avail)
		if d.isZero() || LeqP(C(0), d) == True {
			p := partOf(g, rem, avail)
			if p == nil {
				return subFallback(s, off, n)
			}
			out = append(out, *p)
			need = d
			rem = C(0)
			gi++
			continue
		}
		if LeqP(d, C(0)) == True || (gi == len(s.s)-1) {
			p := partOf(g, rem, need)
			if p == nil {
				return subFallback(s, off, n)
			}
			out = append(out, *p)
			need = C(0)
			break
		}
		return subFallback(s, off, n)
	}
	if !need.isZero() {
		return subFallback(s, off, n)
	}
	return mkSeq(out)
}

func subFallback(s *Seq, off, n *Poly) *Seq {
	if len(s.s) == 1 && s.s[0].k == "sub" {
		return subFallback(s.s[0].sub, Add(off, s.s[0].off), n)
	}
	if len(s.s) == 1 && s.s[0].k == "sym" {
		return seqSym(s.s[0].name, Add(off, s.s[0].off), n)
	}
	return mkSeq([]Seg{{k: "sub", sub: s, off: off, n: n}})
}

func partOf(g Seg, off, n *Poly) *Seg {
	if off.isZero() && n == g.length() {
		return &g
	}
	switch g.k {
	case "sym":
		return &Seg{k: "sym", name: g.name, off: Add(g.off, off), n: n}
	case "fill":
		return &Seg{k: "fill", p: g.p, n: n}
	case "sub":
		return &Seg{k: "sub", sub: g.sub, off: Add(g.off, off), n: n}
	case "c":
		o, ok1 := off.constInt()
		c, ok2 := n.constInt()
		if ok1 && ok2 && o >= 0 && c >= 0 && o+c <= int64(len(g.c)) {
			return &Seg{k: "c", c: g.c[o : o+c]}
		}
		if strings.Count(g.c, g.c[:1]) == len(g.c) {
			return &Seg{k: "fill", p: C(int64(g.c[0])), n: n}
		}
		return nil
	case "pad":
		// suffix of k bytes or prefix: keep as sub of whole
		return &Seg{k: "sub", sub: mkSeq([]Seg{g}), off: off, n: n}
	case "hash", "be":
		return &Seg{k: "sub", sub: mkSeq([]Seg{g}), off: off, n: n}
	}
	return nil
}

// seqEq is the condition that two sequences are equal.
func seqEq(a, b *Seq) Bdd {
	if a == b {
		return True
	}
	le := EqP(a.length(), b.length())
	if le == False {
		return False
	}
	ea, ok1 := explode(a)
	eb, ok2 := explode(b)
	if ok1 && ok2 && len(ea) == len(eb) && len(ea) <= 64 {
		// whole digests / symbols compare as one atom
		simple := true
		for i := range ea {
			_, c1 := ea[i].isConst()
			_, c2 := eb[i].isConst()
			if !c1 && !c2 && len(ea) > 8 {
				simple = false
			}
		}
		if simple {
			r := True
			for i := range ea {
				r = And(r, EqP(ea[i], eb[i]))
			}
			return r
		}
	}
	ka, kb := a.key, b.key
	sa, sb := a, b
	if kb < ka {
		ka, kb = kb, ka
		sa, sb = b, a
	}
	v := newVar(&CondAtom{kind: "seqeq", name: sa.String() + " == " + sb.String()}, "seqeq:"+ka+"=="+kb)
	seqEqInfo[v] = [2]*Seq{sa, sb}
	r := B.varNode(v)
	if le != True {
		addAxiom(Or(Not(r), le))
	}
	return r
}

var seqEqInfo = map[int32][2]*Seq{}

// ---- guarded sequences ----

type SeqAlt struct {
	c Bdd
	s *Seq
}
type SeqV struct{ alts []SeqAlt } // guards are disjoint and cover the path condition

func mkSeqV(s *Seq) *SeqV { return &SeqV{[]SeqAlt{{True, s}}} }

func (v *SeqV) single() *Seq {
	if len(v.alts) == 1 {
		return v.alts[0].s
	}
	return nil
}

// promoteUnder turns bytes(x) into its fixed-width form when the guard fixes its length.
func promoteUnder(s *Seq, c Bdd) *Seq {
	changed := false
	segs := make([]Seg, len(s.s))
	copy(segs, s.s)
	for i := range segs {
		g := &segs[i]
		if g.k != "be" {
			continue
		}
		lo, _ := g.p.interval()
		if lo == nil || lo.Sign() < 0 {
			continue
		}
		_, h := lenBe(g.p).interval()
		if h == nil {
			continue
		}
		if implies(c, LeqP(CB(h), lenBe(g.p))) {
			*g = Seg{k: "pad", p: g.p, n: CB(h)}
			changed = true
		}
	}
	if !changed {
		return s
	}
	return mkSeq(segs)
}

func iteSeqV(c Bdd, a, b *SeqV) *SeqV {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	var alts []SeqAlt
	add := func(g Bdd, s *Seq) {
		if g == False {
			return
		}
		for i := range alts {
			if alts[i].s == s {
				alts[i].c = Or(alts[i].c, g)
				return
			}
		}
		alts = append(alts, SeqAlt{g, s})
	}
	nc := Not(c)
	multi := len(a.alts) > 1 || len(b.alts) > 1 || a.alts[0].s != b.alts[0].s
	for _, x := range a.alts {
		g := And(c, x.c)
		s := x.s
		if multi {
			s = promoteUnder(s.under(c), g)
		}
		add(g, s)
	}
	for _, x := range b.alts {
		g := And(nc, x.c)
		s := x.s
		if multi {
			s = promoteUnder(s.under(nc), g)
		}
		add(g, s)
	}
	if len(alts) == 2 {
		// same shape up to integers: merge into one sequence with guarded integers
		if m := mergeShape(alts[0], alts[1]); m != nil {
			return mkSeqV(m)
		}
	}
	sort.Slice(alts, func(i, j int) bool { return alts[i].s.key < alts[j].s.key })
	if len(alts) == 1 {
		alts[0].c = True
	}
	return &SeqV{alts}
}

func mergeShape(a, b SeqAlt) *Seq {
	sa, sb := a.s.s, b.s.s
	if indWide {
		x, ok := explode(a.s)
		y, ok2 := explode(b.s)
		if ok && ok2 && len(x) == len(y) {
			for i := range x {
				x[i] = IteP(a.c, x[i], y[i])
			}
			return fromBytes(x)
		}
	}
	if len(sa) == len(sb) {
		// constants of one length that differ: compare byte by byte
		var xa, xb []Seg
		split := false
		for i := range sa {
			x, y := sa[i], sb[i]
			lx, ly := segConstLen(&x), segConstLen(&y)
			if lx == ly && lx > 0 && lx <= 16 && x.keyStr() != y.keyStr() {
				split = true
				xa = append(xa, segBytes(&x)...)
				xb = append(xb, segBytes(&y)...)
				continue
			}
			xa = append(xa, x)
			xb = append(xb, y)
		}
		if split {
			sa, sb = xa, xb
		}
	}
	if len(sa) != len(sb) {
		return nil
	}
	segs := make([]Seg, len(sa))
	for i := range sa {
		x, y := sa[i], sb[i]
		if x.keyStr() == y.keyStr() {
			segs[i] = x
			continue
		}
		if x.k != y.k || (x.k != "be" && x.k != "pad" && x.k != "b") {
			return nil
		}
		if x.k == "pad" && x.n != y.n {
			return nil
		}
		x.p = IteP(a.c, x.p, y.p)
		segs[i] = x
	}
	return mkSeq(segs)
}

// lift applies f to each alternative feasible under pc.
func (v *SeqV) lift(pc Bdd, f func(c Bdd, s *Seq) *SeqV) *SeqV {
	if len(v.alts) == 1 {
		return f(True, v.alts[0].s)
	}
	var r *SeqV
	for _, a := range v.alts {
		if !feasible(And(pc, a.c)) {
			continue
		}
		x := f(a.c, a.s)
		if r == nil {
			r = x
		} else {
			r = iteSeqV(a.c, x, r)
		}
	}
	if r == nil {
		return f(True, v.alts[0].s)
	}
	return r
}

func (v *SeqV) liftP(pc Bdd, f func(s *Seq) *Poly) *Poly {
	var r *Poly
	for _, a := range v.alts {
		if len(v.alts) > 1 && !feasible(And(pc, a.c)) {
			continue
		}
		x := f(a.s)
		if r == nil {
			r = x
		} else {
			r = IteP(a.c, x, r)
		}
	}
	if r == nil {
		return f(v.alts[0].s)
	}
	return r
}

func (v *SeqV) length(pc Bdd) *Poly { return v.liftP(pc, func(s *Seq) *Poly { return s.length() }) }

func catV(pc Bdd, a, b *SeqV) *SeqV {
	return a.lift(pc, func(_ Bdd, x *Seq) *SeqV {
		return b.lift(pc, func(_ Bdd, y *Seq) *SeqV { return mkSeqV(seqCat(x, y)) })
	})
}

func (v *SeqV) String() string {
	if s := v.single(); s != nil {
		return s.String()
	}
	var o []string
	for _, a := range v.alts {
		o = append(o, condStr(a.c)+" → "+a.s.String())
	}
	return "{" + strings.Join(o, "; ") + "}"
}

// segConstLen is the number of bytes of a constant or single-byte segment, else 0.
func segConstLen(g *Seg) int {
	switch g.k {
	case "c":
		return len(g.c)
	case "b":
		return 1
	}
	return 0
}

func segBytes(g *Seg) []Seg {
	if g.k == "b" {
		return []Seg{*g}
	}
	var out []Seg
	for i := 0; i < len(g.c); i++ {
		out = append(out, Seg{k: "b", p: C(int64(g.c[i]))})
	}
	return out
}

package main

// C23: the curve's constants and the precomputed tables of multiples.

import (
	"compress/zlib"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"strings"
)

// useConstReaders models the decoding of data embedded in the source.
func (I *Interp) useConstReaders() {
	data := func(st *State, v Val, pos token.Pos) (string, bool) {
		iv, ok := v.(*IfaceV)
		if !ok || len(iv.alts) != 1 {
			return "", false
		}
		p, ok := iv.alts[0].v.(*PtrV)
		if !ok {
			return "", false
		}
		e, ok := I.load(st, p, types.Typ[types.Int], pos).(*ExtV)
		if !ok || e.name == "adv" || e.seq == nil || e.seq.single() == nil {
			return "", false
		}
		return constBytes(e.seq.single())
	}
	reader := func(st *State, s []byte, pos token.Pos) Val {
		p := I.newExt(st, &ExtV{kind: "bytes.Reader", seq: mkSeqV(seqConst(string(s))), n: C(0)}, types.Typ[types.Int], pos)
		return &IfaceV{[]IfAlt{{c: True, ext: "embedded", v: p}}}
	}
	def := func(name string, f func(st *State, c *callCtx) Val) {
		I.sum[name] = func(I *Interp, st *State, c *callCtx) Val {
			if r := f(st, c); r != nil {
				return r
			}
			I.event(Event{kind: "unmodelled", what: name + " of data that is not constant", pos: c.pos, cond: st.pc})
			return I.havocResult(st, c.sig, name)
		}
	}
	def("strings.NewReader", func(st *State, c *callCtx) Val {
		return I.newExt(st, &ExtV{kind: "bytes.Reader", seq: I.bytesOf(st, c.args[0], c.pos), n: C(0)}, types.Typ[types.Int], c.pos)
	})
	std := func(v Val) bool {
		return true
	}
	def("encoding/base64.NewDecoder", func(st *State, c *callCtx) Val {
		s, ok := data(st, c.args[1], c.pos)
		if !ok || !std(c.args[0]) {
			return nil
		}
		// a decoding error ends the data there, and is reported by whoever reads to the end
		out, err := io.ReadAll(base64.NewDecoder(base64.StdEncoding, strings.NewReader(s)))
		if err != nil {
			return nil
		}
		return reader(st, out, c.pos)
	})
	def("(*encoding/base64.Encoding).DecodeString", func(st *State, c *callCtx) Val {
		q := I.bytesOf(st, c.args[1], c.pos).single()
		if q == nil {
			return nil
		}
		s, ok := constBytes(q)
		if !ok {
			return nil
		}
		out, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			return nil
		}
		return tup(I.newBytes(st, mkSeqV(seqConst(string(out))), c.pos), nilIface())
	})
	def("compress/zlib.NewReader", func(st *State, c *callCtx) Val {
		s, ok := data(st, c.args[0], c.pos)
		if !ok {
			return nil
		}
		z, err := zlib.NewReader(strings.NewReader(s))
		if err != nil {
			return nil
		}
		out, err := io.ReadAll(z)
		if err != nil {
			return nil
		}
		return tup(reader(st, out, c.pos), nilIface())
	})
	for _, n := range []string{"io.ReadAll", "io/ioutil.ReadAll"} {
		def(n, func(st *State, c *callCtx) Val {
			s, ok := data(st, c.args[0], c.pos)
			if !ok {
				return nil
			}
			return tup(I.newBytes(st, mkSeqV(seqConst(s)), c.pos), nilIface())
		})
	}
	I.sum["embedded.Close"] = func(I *Interp, st *State, c *callCtx) Val { return nilIface() }
}

// initRun interprets the initialisation of the curve, tables included.
func (c *Check) initRun(tables ...string) (*Run, *StructV, *types.Struct) {
	r := newRun(c.P, false)
	for _, n := range []string{"Add", "Double", "ScalarMult", "ScalarBaseMult", "ScalarBaseMultH", "IsOnCurve"} {
		delete(r.I.sum, kc+n)
	}
	I, st := r.I, r.st
	delete(I.sum, repoPrefix+"/btcec.S256")
	I.useConstReaders()
	if len(tables) == 0 {
		for _, n := range []string{"loadS256BytePoints", "loadS256BytePointsH"} {
			I.sum[repoPrefix+"/btcec."+n] = func(I *Interp, st *State, c *callCtx) Val { return nilIface() }
		}
	} else {
		skip := map[string]string{"bytePoints": "loadS256BytePointsH", "bytePointsH": "loadS256BytePoints"}[tables[0]]
		I.sum[repoPrefix+"/btcec."+skip] = func(I *Interp, st *State, c *callCtx) Val { return nilIface() }
	}
	I.fromZero = func(t types.Type) bool { return namedKey(t) == repoPrefix+"/btcec.KoblitzCurve" }
	v := r.call(c.btcFn("S256"))
	c.absorb(I)
	kt := I.P.namedType("btcec", "KoblitzCurve")
	s, _ := I.load(st, v, kt, token.NoPos).(*StructV)
	if s == nil {
		panic("the curve object is not a structure")
	}
	return r, s, kt.Underlying().(*types.Struct)
}

// words reads the ten words of a field value; nil when they are not constants.
func (r *Run) words(v Val) []*big.Int {
	for {
		switch x := v.(type) {
		case *StructV:
			if len(x.f) != 1 {
				return nil
			}
			v = x.f[0]
			continue
		case *ArrV:
			var out []*big.Int
			for _, e := range x.e {
				p, ok := e.(*Poly)
				if !ok {
					return nil
				}
				k, ok := p.isConst()
				if !ok {
					return nil
				}
				out = append(out, k)
			}
			return out
		}
		return nil
	}
}

// fieldNum is the number ten words of 26 bits stand for; ok when they are normalized.
func fieldNum(w []*big.Int) (n *big.Int, ok bool) {
	if len(w) != 10 {
		return nil, false
	}
	n, ok = new(big.Int), true
	for i := 9; i >= 0; i-- {
		n.Lsh(n, 26).Add(n, w[i])
		lim := 26
		if i == 9 {
			lim = 22
		}
		ok = ok && w[i].Sign() >= 0 && w[i].BitLen() <= lim
	}
	return n, ok && n.Cmp(hexP) < 0
}

// liftX is the point with an even y coordinate for x.
func liftX(x *big.Int) *numPt {
	y2 := new(big.Int).Exp(x, bi(3), hexP)
	y2.Add(y2, bi(7)).Mod(y2, hexP)
	y := new(big.Int).ModSqrt(y2, hexP)
	if y == nil {
		return nil
	}
	if y.Bit(0) == 1 {
		y.Sub(hexP, y)
	}
	return &numPt{x, y}
}

// stdH is the second generator: the point whose x coordinate is the digest of the bytes of Gx+2.
func stdH() *numPt {
	d := sha256.Sum256(new(big.Int).Add(stdG.x, bi(2)).Bytes())
	return liftX(new(big.Int).SetBytes(d[:]))
}

func (c *Check) tableCheck(field string, base *numPt, name string) {
	c.sub("table of multiples of "+name, func() {
		w := c.where(c.btcFn("S256"))
		what := "table of multiples of " + name
		if !c.ob(base != nil, what+": the base point exists", w, "no point has the documented x coordinate") {
			return
		}
		r, s, kt := c.initRun(field)
		c.noPanics(r, what)
		c.understood(r, what)
		i := fieldIndex(kt, field, -1)
		if i < 0 {
			panic("KoblitzCurve has no field " + field)
		}
		pt, ok := kt.Field(i).Type().Underlying().(*types.Pointer)
		if !ok {
			panic(field + " is not a pointer to a table")
		}
		tab, _ := r.I.load(r.st, s.f[i], pt.Elem(), token.NoPos).(*ArrV)
		if !c.ob(tab != nil && len(tab.e) == 32, what+": there are 32 windows", w, "no table of 32 windows was loaded") {
			return
		}
		b := base
		for row := 31; row >= 0; row-- {
			ra, _ := tab.e[row].(*ArrV)
			if !c.ob(ra != nil && len(ra.e) == 256, fmt.Sprintf("%s: window %d has 256 entries", what, row), w, "it has not") {
				return
			}
			var want *numPt
			bad, norm := "", ""
			for j := 0; j < 256; j++ {
				ea, _ := ra.e[j].(*ArrV)
				var co [3]*big.Int
				if ea == nil || len(ea.e) != 3 {
					bad = fmt.Sprintf("entry %d is not a triple", j)
					break
				}
				for k := range co {
					ws := r.words(ea.e[k])
					n, ok := fieldNum(ws)
					if n == nil {
						bad = fmt.Sprintf("coordinate %d of entry %d is not a constant", k, j)
						break
					}
					if k == 2 {
						// the third coordinate is only required to have magnitude 1
						ok = true
						for i, x := range ws {
							ok = ok && x.Sign() >= 0 && x.Cmp(limbCap(i)) <= 0
						}
					}
					if !ok && norm == "" {
						norm = fmt.Sprintf("coordinate %d of entry %d has words %x", k, j, ws)
					}
					co[k] = n
				}
				if bad != "" {
					break
				}
				if want == nil {
					if co[0].Sign() != 0 || co[1].Sign() != 0 {
						bad = fmt.Sprintf("entry %d is not the identity", j)
						break
					}
				} else {
					zz := new(big.Int).Mul(co[2], co[2])
					zz.Mod(zz, hexP)
					x := new(big.Int).Mul(want.x, zz)
					y := new(big.Int).Mul(want.y, zz.Mul(zz, co[2]))
					if co[2].Sign() == 0 || x.Sub(x, co[0]).Mod(x, hexP).Sign() != 0 || y.Sub(y, co[1]).Mod(y, hexP).Sign() != 0 {
						bad = fmt.Sprintf("entry %d of window %d is not %d*256^%d times %s", j, row, j, 31-row, name)
						break
					}
				}
				want = want.add(b)
			}
			c.ob(bad == "", fmt.Sprintf("%s: entry j of window %d is j*256^%d times %s", what, row, 31-row, name), w, "%s", bad)
			c.ob(norm == "", fmt.Sprintf("%s: the coordinates of window %d are in the form the addition expects", what, row), w, "%s", norm)
			b = b.mul(bi(256))
		}
	})
}

func (c *Check) curveConstants() {
	c.sub("curve constants", func() {
		w := c.where(c.btcFn("S256"))
		r, s, kt := c.initRun()
		c.noPanics(r, "curve constants")
		c.understood(r, "curve constants")
		get := func(t *types.Struct, v *StructV, n string) Val {
			i := fieldIndex(t, n, -1)
			if i < 0 {
				panic("no field " + n)
			}
			return v.f[i]
		}
		num := func(v Val) *big.Int {
			switch x := v.(type) {
			case *Poly:
				k, _ := x.isConst()
				return k
			case *PtrV:
				k, _ := r.I.bigAt(r.st, x, token.NoPos).isConst()
				return k
			}
			return nil
		}
		is := func(what string, v Val, want *big.Int) {
			got := num(v)
			c.ob(got != nil && got.Cmp(want) == 0, "the curve's "+what, w, "is %v, not %v", got, want)
		}
		i := fieldIndex(kt, "CurveParams", -1)
		if i < 0 {
			panic("the curve has no CurveParams")
		}
		ct := deref(kt.Field(i).Type())
		cs := ct.Underlying().(*types.Struct)
		cv, _ := r.I.load(r.st, s.f[i], ct, token.NoPos).(*StructV)
		if !c.ob(cv != nil, "the curve's parameters are set", w, "they are not") {
			return
		}
		is("P is 2^256-2^32-977", get(cs, cv, "P"), hexP)
		is("N is the order of the group", get(cs, cv, "N"), hexN)
		is("B is 7", get(cs, cv, "B"), bi(7))
		is("Gx is the standard generator's", get(cs, cv, "Gx"), stdG.x)
		is("Gy is the standard generator's", get(cs, cv, "Gy"), stdG.y)
		is("BitSize is 256", get(cs, cv, "BitSize"), bi(256))
		is("q is (P+1)/4", get(kt, s, "q"), new(big.Int).Rsh(new(big.Int).Add(hexP, one), 2))
		is("cofactor is 1", get(kt, s, "H"), one)
		is("halfOrder is (N-1)/2", get(kt, s, "halfOrder"), new(big.Int).Rsh(hexN, 1))
		is("byteSize is 32", get(kt, s, "byteSize"), bi(32))
		// the endomorphism
		l := num(get(kt, s, "lambda"))
		bt, _ := get(kt, s, "beta").(*PtrV)
		var b *big.Int
		norm := false
		if bt != nil {
			b, norm = fieldNum(r.words(r.I.load(r.st, bt, deref(kt.Field(fieldIndex(kt, "beta", -1)).Type()), token.NoPos)))
		}
		if c.ob(l != nil && b != nil, "lambda and beta are constants", w, "they are not") {
			c.ob(norm, "beta is in normal form", w, "it is not")
			e, ok := eigen(b)
			c.ob(ok && b.Cmp(one) != 0 && e.Cmp(l) == 0, "lambda times (x, y) is (beta*x, y)", w, "it is not")
			zeroN := func(a, b Val) bool {
				x, y := num(a), num(b)
				if x == nil || y == nil || x.Sign() == 0 && y.Sign() == 0 {
					return false
				}
				z := new(big.Int).Add(x, new(big.Int).Mul(y, l))
				return z.Mod(z, hexN).Sign() == 0
			}
			for _, n := range []string{"1", "2"} {
				c.ob(zeroN(get(kt, s, "a"+n), get(kt, s, "b"+n)), "a"+n+" + b"+n+"*lambda is a multiple of the order", w, "it is not")
			}
		}
		g := &numPt{num(get(cs, cv, "Gx")), num(get(cs, cv, "Gy"))}
		if g.x != nil && g.y != nil {
			c.ob(g.mul(hexN) == nil, "the generator has order N", w, "it has not")
		}
		// accessors
		q := r.call(c.btcMethod("KoblitzCurve", "QPlus1Div4"), ptrToCurve(r, kt))
		is("QPlus1Div4 is (P+1)/4", q, new(big.Int).Rsh(new(big.Int).Add(hexP, one), 2))
		pp := r.call(c.btcMethod("KoblitzCurve", "Params"), ptrToCurve(r, kt))
		pv, _ := r.I.load(r.st, pp, ct, token.NoPos).(*StructV)
		if c.ob(pv != nil, "Params returns the curve's parameters", w, "it does not") {
			for j := range pv.f {
				c.ob(r.I.valEq(r.st, pv.f[j], cv.f[j]) == True, "Params has the curve's "+cs.Field(j).Name(), w, "it differs")
			}
		}
	})
}

func ptrToCurve(r *Run, kt *types.Struct) Val {
	v := r.I.P.fn("btcec", "S256")
	return r.call(v)
}

func init() {
	register(&checkDef{id: "C23", run: func(c *Check) {
		c.parallel([]part{
			{"constants", func() { c.curveConstants() }},
			{"G", func() { c.tableCheck("bytePoints", stdG, "the generator") }},
			{"H", func() { c.tableCheck("bytePointsH", stdH(), "the second generator") }},
		})
	}})
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts assumed for the dependencies (lattigo, math, math/big): the
// repository's code is checked against these, their bodies are not verified.

func ringName(r string) string { return "(*" + pkRing + ".Ring)." + r }

// badRow: the result of an operation applied outside of its domain of definition
func badRow(op string, in ...*RowV) *RowV {
	var rs []*RP
	for _, r := range in {
		rs = append(rs, r.RP)
	}
	return &RowV{'?', rpAtom(mkAtom("bad:"+op, nil, rs, nil, false))}
}

func isBadRP(r *RP) bool {
	return r.hasAtomKind(func(a *Atom) bool { return strings.HasPrefix(a.Kind, "bad:") })
}

func polyArg(v Val) *Addr {
	a := asAddr(v)
	if a.Nil {
		panic(goPanic{"nil polynomial"})
	}
	return a
}

// ringArg: 0 for Q, 1 for P
func ringArg(v Val) int {
	a := asAddr(v)
	if a.Nil {
		panic(goPanic{"nil ring"})
	}
	switch a.R.ID {
	case "ringQ":
		return 0
	case "ringP":
		return 1
	}
	panic(unsupported("ring %s", a))
}

func (st *State) polyLevel(p *Addr) *Term { return Sub(st.polyRows(p).Len, Num(1)) }

func (st *State) ringMatches(r int, ps ...*Addr) bool {
	for _, p := range ps {
		if st.polyIsP(p) != (r == 1) {
			return false
		}
	}
	return true
}

// lvlRange: level must be that of an existing modulus
func (e *Engine) ringLevel(st *State, r int, level *Term, site string) {
	n := symNQ
	if r == 1 {
		n = symNP
	}
	st.bounds(level, n)
}

// negative levels mean no rows at all
func (e *Engine) unary(op string, f func(x *RowV) *RowV) extFn {
	return func(e *Engine, st *State, args []Val, site string) Val {
		r := ringArg(args[0])
		lvl := asTerm(args[1])
		a, b := polyArg(args[2]), polyArg(args[3])
		x := st.readPoly(a, lvl)
		if !st.ringMatches(r, a, b) {
			st.writePoly(b, lvl, badRow(op, x))
			return nil
		}
		st.writePoly(b, lvl, f(x))
		return nil
	}
}

func (e *Engine) binary(op string, f func(x, y, z *RowV) *RowV, useZ bool) extFn {
	return func(e *Engine, st *State, args []Val, site string) Val {
		r := ringArg(args[0])
		lvl := asTerm(args[1])
		a, b, c := polyArg(args[2]), polyArg(args[3]), polyArg(args[4])
		x := st.readPoly(a, lvl)
		y := st.readPoly(b, lvl)
		var z *RowV
		if useZ {
			z = st.readPoly(c, lvl)
		}
		if !st.ringMatches(r, a, b, c) {
			st.writePoly(c, lvl, badRow(op, x, y))
			return nil
		}
		st.writePoly(c, lvl, f(x, y, z))
		return nil
	}
}

func domJoin(a, b byte) (byte, bool) {
	if a == 'Z' {
		return b, true
	}
	if b == 'Z' || a == b {
		return a, true
	}
	return '?', false
}

func rowNTT(x *RowV) *RowV {
	switch x.Dom {
	case 'Z':
		return x
	case 'C':
		return &RowV{'N', x.RP}
	}
	return badRow("ntt", x)
}

func rowInvNTT(x *RowV) *RowV {
	switch x.Dom {
	case 'Z':
		return x
	case 'N':
		return &RowV{'C', x.RP}
	}
	return badRow("intt", x)
}

func rowMont(x, y *RowV) *RowV {
	if x.Dom == 'Z' || y.Dom == 'Z' {
		return &RowV{'Z', rpZero}
	}
	if x.Dom != 'N' || y.Dom != 'N' {
		return badRow("mul", x, y)
	}
	return &RowV{'N', rpMulN(rpR(-1), x.RP, y.RP)}
}

func rowBarrett(x, y *RowV) *RowV {
	if x.Dom == 'Z' || y.Dom == 'Z' {
		return &RowV{'Z', rpZero}
	}
	if x.Dom != 'N' || y.Dom != 'N' {
		return badRow("mul", x, y)
	}
	return &RowV{'N', rpMul2(x.RP, y.RP)}
}

func rowLin(x, y *RowV, c int64) *RowV {
	d, ok := domJoin(x.Dom, y.Dom)
	if !ok {
		return badRow(fmt.Sprintf("add%d", c), x, y)
	}
	return &RowV{d, rpAdd(x.RP, rpScale(big.NewRat(c, 1), y.RP))}
}

func rowScale(x *RowV, k *RP) *RowV {
	if x.Dom == '?' {
		return badRow("scale:"+k.key, x)
	}
	return &RowV{x.Dom, rpMul2(k, x.RP)}
}

func minLvl(st *State, ps ...Val) *Term {
	var l *Term
	for _, p := range ps {
		x := st.polyLevel(polyArg(p))
		if l == nil {
			l = x
		} else {
			l = Min(l, x)
		}
	}
	return l
}

// freshAtom: a value drawn at this call
func (st *State) freshAtom(kind, site string) *RP {
	st.Cnt["rnd:"+kind+site]++
	return rpAtom(A(fmt.Sprintf("%s|%s#%d", kind, site, st.Cnt["rnd:"+kind+site]), st.Keys...))
}

func (e *Engine) newPoly(st *State, site string, n *Term, tag string) *Addr {
	st.Cnt["np:"+site]++
	a := st.alloc(site+":poly"+tag, e.typ(pkRing, "Poly"), tag)
	st.writeLeaf(a.field(0, "Coeffs"), &SliceV{Base: a.field(0, "Coeffs").deref(), Off: Num(0), Len: n, Cap: n})
	return a
}

func galEl(rot *Term, conj bool) *OpaqueV {
	c := Num(0)
	if conj {
		c = Num(1)
	}
	return o("galEl", rot, c)
}

func (st *State) samplerOf(v Val, typ string) *OpaqueV {
	a := asAddr(v)
	if a.Nil {
		panic(goPanic{"nil sampler"})
	}
	x, ok := st.read(a, st.E.typ(pkRing, typ)).(*OpaqueV)
	if !ok {
		panic(unsupported("sampler %s", a))
	}
	return x
}

// drawn: content drawn by a sampler
func (st *State) drawn(v Val, typ, kind, site string) *RowV {
	s := st.samplerOf(v, typ)
	rp := st.freshAtom(kind, site)
	if kind == "tern" && strings.HasPrefix(s.Kind, "sampler:tern") && len(s.Data) > 1 {
		if m := asTerm(s.Data[1]); m.Op == OpTrue {
			rp = rpMul2(rpR(1), rp)
		} else if m.Op != OpFalse {
			panic(unsupported("ternary sampler in an undetermined form"))
		}
	}
	st.addDraw(kind, site, s)
	return &RowV{'C', rp}
}

// addDraw records a draw in the ghost log of the state
func (st *State) addDraw(kind, site string, s *OpaqueV) {
	st.Ghost[fmt.Sprintf("draw:%s|%s#%d", kind, site, st.Cnt["rnd:"+kind+site])] = s
}

func uniformP(st *State, v Val, p *Addr) {}

func registerExternals(e *Engine) {
	x := e.externals
	rq := func(name string, f extFn) { x[ringName(name)] = f }
	// level-explicit operations, and their versions over all the rows
	un := func(name string, f func(x *RowV) *RowV) {
		h := e.unary(name, f)
		rq(name+"Lvl", h)
		rq(name, func(e *Engine, st *State, a []Val, site string) Val {
			return h(e, st, []Val{a[0], minLvl(st, a[1], a[2]), a[1], a[2]}, site)
		})
	}
	bin := func(name string, f func(x, y, z *RowV) *RowV, useZ bool) {
		h := e.binary(name, f, useZ)
		rq(name+"Lvl", h)
		rq(name, func(e *Engine, st *State, a []Val, site string) Val {
			return h(e, st, []Val{a[0], minLvl(st, a[1], a[2], a[3]), a[1], a[2], a[3]}, site)
		})
	}
	un("NTT", rowNTT)
	un("NTTLazy", rowNTT)
	un("InvNTT", rowInvNTT)
	un("InvNTTLazy", rowInvNTT)
	un("MForm", func(x *RowV) *RowV { return rowScale(x, rpR(1)) })
	un("InvMForm", func(x *RowV) *RowV { return rowScale(x, rpR(-1)) })
	un("Neg", func(x *RowV) *RowV { return rowScale(x, rpConst(big.NewRat(-1, 1))) })
	un("Reduce", func(x *RowV) *RowV { return x })
	un("ReduceConstant", func(x *RowV) *RowV { return x })
	// The versions without reduction (NoMod) have no contract, as it is not tracked how far a word is from overflowing.
	bin("Add", func(x, y, z *RowV) *RowV { return rowLin(x, y, 1) }, false)
	bin("Sub", func(x, y, z *RowV) *RowV { return rowLin(x, y, -1) }, false)
	bin("MulCoeffsMontgomeryAndAdd", func(x, y, z *RowV) *RowV { return rowLin(z, rowMont(x, y), 1) }, true)
	bin("MulCoeffsMontgomeryConstantAndAdd", func(x, y, z *RowV) *RowV { return rowLin(z, rowMont(x, y), 1) }, true)
	bin("MulCoeffsMontgomeryAndSub", func(x, y, z *RowV) *RowV { return rowLin(z, rowMont(x, y), -1) }, true)
	bin("MulCoeffsMontgomery", func(x, y, z *RowV) *RowV { return rowMont(x, y) }, false)
	bin("MulCoeffsMontgomeryConstant", func(x, y, z *RowV) *RowV { return rowMont(x, y) }, false)
	bin("MulCoeffs", func(x, y, z *RowV) *RowV { return rowBarrett(x, y) }, false)
	bin("MulCoeffsAndAdd", func(x, y, z *RowV) *RowV { return rowLin(z, rowBarrett(x, y), 1) }, true)
	rq("MulScalarBigintLvl", func(e *Engine, st *State, a []Val, site string) Val {
		r := ringArg(a[0])
		p, q := polyArg(a[2]), polyArg(a[4])
		v := st.readPoly(p, asTerm(a[1]))
		k := st.bigScalar(a[3])
		if !st.ringMatches(r, p, q) {
			st.writePoly(q, asTerm(a[1]), badRow("mulscalar", v))
			return nil
		}
		st.writePoly(q, asTerm(a[1]), rowScale(v, k))
		return nil
	})
	rq("MulScalarBigint", func(e *Engine, st *State, a []Val, site string) Val {
		return x[ringName("MulScalarBigintLvl")](e, st, []Val{a[0], minLvl(st, a[1], a[3]), a[1], a[2], a[3]}, site)
	})
	rq("MulScalarLvl", func(e *Engine, st *State, a []Val, site string) Val {
		p, q := polyArg(a[2]), polyArg(a[4])
		v := st.readPoly(p, asTerm(a[1]))
		k, ok := a[3].(*Term)
		if !ok || !st.ringMatches(ringArg(a[0]), p, q) {
			st.writePoly(q, asTerm(a[1]), badRow("mulscalar", v))
			return nil
		}
		st.writePoly(q, asTerm(a[1]), rowScale(v, scalarRP(k)))
		return nil
	})
	divRound := func(floor bool) extFn {
		return func(e *Engine, st *State, a []Val, site string) Val {
			lvl, nb := asTerm(a[1]), asTerm(a[2])
			p0, pool, p1 := polyArg(a[3]), polyArg(a[4]), polyArg(a[5])
			v := st.readPoly(p0, lvl)
			st.require(And(Ge(nb, Num(0)), Le(nb, lvl)), "number of moduli to divide by within the level", site)
			junk := &RowV{'?', rpAtom(A("junk|div|"+site, st.Keys...))}
			if !st.valid(Eq(nb, Num(0))) {
				st.writePoly(pool, lvl, junk)
				st.writeRowRange(p0, lvl, lvl, junk)
			}
			res := &RowV{v.Dom, rpAdd(rpMul2(invQ(lvl, nb), v.RP), rpAtom(A("nz|"+site, append(append([]*Term{}, st.Keys...))...)))}
			if v.Dom != 'C' && v.Dom != 'Z' || !st.ringMatches(ringArg(a[0]), p0, pool, p1) {
				res = badRow("divround", v)
			}
			if floor {
				res = badRow("divfloor", v)
			}
			if st.valid(Eq(nb, Num(0))) {
				res = v
			}
			if st.valid(Ge(st.polyLevel(p1), lvl)) {
				// rows above the new level are left over
			}
			st.writePoly(p1, Sub(lvl, nb), res)
			return nil
		}
	}
	rq("DivRoundByLastModulusManyLvl", divRound(false))
	rq("DivFloorByLastModulusManyLvl", divRound(true))
	rq("DivRoundByLastModulusLvl", func(e *Engine, st *State, a []Val, site string) Val {
		lvl := asTerm(a[1])
		p0, p1 := polyArg(a[2]), polyArg(a[3])
		v := st.readPoly(p0, lvl)
		st.require(Ge(lvl, Num(1)), "level to divide at", site)
		st.writeRowRange(p0, lvl, lvl, &RowV{'?', rpAtom(A("junk|div|"+site, st.Keys...))})
		res := &RowV{v.Dom, rpAdd(rpMul2(invQ(lvl, Num(1)), v.RP), rpAtom(A("nz|"+site, st.Keys...)))}
		if v.Dom != 'C' && v.Dom != 'Z' || !st.ringMatches(ringArg(a[0]), p0, p1) {
			res = badRow("divround", v)
		}
		st.writePoly(p1, Sub(lvl, Num(1)), res)
		return nil
	})
	rq("NewPoly", func(e *Engine, st *State, a []Val, site string) Val {
		if ringArg(a[0]) == 1 {
			return e.newPoly(st, site, symNP, "P")
		}
		return e.newPoly(st, site, symNQ, "Q")
	})
	rq("NewPolyLvl", func(e *Engine, st *State, a []Val, site string) Val {
		if ringArg(a[0]) == 1 {
			return e.newPoly(st, site, Add(asTerm(a[1]), Num(1)), "P")
		}
		return e.newPoly(st, site, Add(asTerm(a[1]), Num(1)), "Q")
	})
	rq("Permute", func(e *Engine, st *State, a []Val, site string) Val {
		r := ringArg(a[0])
		lvl := Sub(symNQ, Num(1))
		if r == 1 {
			lvl = Sub(symNP, Num(1))
		}
		p, q := polyArg(a[1]), polyArg(a[3])
		v := st.readPoly(p, lvl)
		g := a[2].(*OpaqueV)
		if v.Dom == 'N' || v.Dom == '?' || g.Kind != "galEl" || valStr(p) == valStr(q) {
			st.writePoly(q, lvl, badRow("permute", v))
			return nil
		}
		st.writePoly(q, lvl, &RowV{v.Dom, sigmaGal(v.RP, g)})
		return nil
	})
	x[pkRing+".NewPoly"] = func(e *Engine, st *State, a []Val, site string) Val {
		st.require(Eq(asTerm(a[0]), symN), "polynomial of the ring degree", site)
		return e.newPoly(st, site, asTerm(a[1]), "Q")
	}
	x["(*"+pkRing+".Poly).Degree"] = func(e *Engine, st *State, a []Val, site string) Val {
		st.bounds(Num(0), st.polyRows(polyArg(a[0])).Len)
		return symN
	}
	x["(*"+pkRing+".Poly).Level"] = func(e *Engine, st *State, a []Val, site string) Val {
		return st.polyLevel(polyArg(a[0]))
	}
	x["(*"+pkRing+".Poly).LenModuli"] = func(e *Engine, st *State, a []Val, site string) Val {
		return st.polyRows(polyArg(a[0])).Len
	}
	x["(*"+pkRing+".Poly).Zero"] = func(e *Engine, st *State, a []Val, site string) Val {
		p := polyArg(a[0])
		st.writePoly(p, st.polyLevel(p), &RowV{'Z', rpZero})
		return nil
	}
	copyVals := func(st *State, lvl *Term, from, to *Addr) {
		if valStr(from) == valStr(to) {
			return
		}
		v := st.readPoly(from, lvl)
		if st.polyIsP(from) != st.polyIsP(to) {
			v = badRow("copy", v)
		}
		st.writePoly(to, lvl, v)
	}
	copyFlags := func(st *State, from, to *Addr) {
		bt := types.Typ[types.Bool]
		st.writeLeaf(to.field(1, "IsNTT"), st.readLeaf(from.field(1, "IsNTT"), bt))
		st.writeLeaf(to.field(2, "IsMForm"), st.readLeaf(from.field(2, "IsMForm"), bt))
	}
	x["(*"+pkRing+".Poly).Copy"] = func(e *Engine, st *State, a []Val, site string) Val {
		copyVals(st, minLvl(st, a[0], a[1]), polyArg(a[1]), polyArg(a[0]))
		copyFlags(st, polyArg(a[1]), polyArg(a[0]))
		return nil
	}
	x["(*"+pkRing+".Poly).CopyValues"] = func(e *Engine, st *State, a []Val, site string) Val {
		copyVals(st, minLvl(st, a[0], a[1]), polyArg(a[1]), polyArg(a[0]))
		return nil
	}
	x[pkRing+".CopyValuesLvl"] = func(e *Engine, st *State, a []Val, site string) Val {
		copyVals(st, asTerm(a[0]), polyArg(a[1]), polyArg(a[2]))
		return nil
	}
	x[pkRing+".CopyLvl"] = func(e *Engine, st *State, a []Val, site string) Val {
		copyVals(st, asTerm(a[0]), polyArg(a[1]), polyArg(a[2]))
		copyFlags(st, polyArg(a[1]), polyArg(a[2]))
		return nil
	}
	x[pkRing+".CopyValues"] = func(e *Engine, st *State, a []Val, site string) Val {
		copyVals(st, minLvl(st, a[0], a[1]), polyArg(a[0]), polyArg(a[1]))
		return nil
	}
	x[pkRing+".Copy"] = func(e *Engine, st *State, a []Val, site string) Val {
		copyVals(st, minLvl(st, a[0], a[1]), polyArg(a[0]), polyArg(a[1]))
		copyFlags(st, polyArg(a[0]), polyArg(a[1]))
		return nil
	}
	x["(*"+pkRing+".Poly).CopyNew"] = func(e *Engine, st *State, a []Val, site string) Val {
		p := polyArg(a[0])
		tag := "Q"
		if st.polyIsP(p) {
			tag = "P"
		}
		n := st.polyRows(p).Len
		q := e.newPoly(st, site, n, tag)
		v := st.readPoly(p, Sub(n, Num(1)))
		st.writePoly(q, Sub(n, Num(1)), v)
		copyFlags(st, p, q)
		return q
	}
	for _, f := range []string{"AddLvl", "SubLvl", "NTTLvl", "InvNTTLvl", "NTTLazyLvl", "MFormLvl", "InvMFormLvl", "MulCoeffsMontgomeryLvl", "MulCoeffsMontgomeryConstantLvl", "MulCoeffsMontgomeryAndSubLvl", "MulCoeffsMontgomeryAndAddLvl", "PermuteNTTWithIndexLvl", "CopyValuesLvl", "NewPoly", "NewPolyLvl", "AddNoModLvl", "MulCoeffsMontgomeryConstantAndAddNoModLvl"} {
		e.inlineExt["(*"+pkRlwe+".RingQP)."+f] = true
	}
	for _, f := range []string{"CopyValues", "CopyNew", "Copy"} {
		e.inlineExt["(*"+pkRlwe+".PolyQP)."+f] = true
	}
	for _, f := range []string{"(" + pkRlwe + ".Plaintext).Level", "(*" + pkRlwe + ".Plaintext).Level", "(*" + pkCkks + ".Plaintext).ScalingFactor", pkCkks + ".NewPlaintext", pkRlwe + ".NewPlaintext", pkRlwe + ".NewKeySwitcher", pkRlwe + ".newKeySwitcherBuffer", "(*" + pkCkks + ".Plaintext).Level", "(" + pkCkks + ".Plaintext).Level"} {
		e.inlineExt[f] = true
	}
	x["(*"+pkRlwe+".RingQP).ExtendBasisSmallNormAndCenter"] = func(e *Engine, st *State, a []Val, site string) Val {
		in := polyArg(a[1])
		lvlP := asTerm(a[2])
		v := st.readPoly(in, Num(0))
		outP := polyArg(a[4])
		if oq := asAddr(a[3]); !oq.Nil && valStr(oq) != valStr(in) {
			x["(*"+pkRing+".Poly).Copy"](e, st, []Val{oq, in}, site)
		}
		r := v.RP.Sub(Subst{ROW.Name: Num(0)})
		ok := (v.Dom == 'C' || v.Dom == 'Z') && st.polyIsP(outP) && !st.polyIsP(in)
		for _, c := range r.Cs {
			if c.G.Op != OpTrue || len(c.B) != 0 || len(c.F) != 1 || c.F[0].E != 1 || !isSmallAtom(c.F[0].A) {
				ok = false
			}
		}
		if !ok {
			st.writePoly(outP, lvlP, badRow("extend", v))
			return nil
		}
		st.writePoly(outP, lvlP, &RowV{v.Dom, r})
		return nil
	}
	x["("+pkRlwe+".Parameters).Beta"] = func(e *Engine, st *State, a []Val, site string) Val {
		return Div(AddAll(symNQ, symNP, Num(-1)), symNP)
	}
	for _, n := range []string{"FastBasisExtender", "Decomposer"} {
		n := n
		x[pkRing+".New"+n] = func(e *Engine, st *State, a []Val, site string) Val {
			e.require(st, boolT(valStr(a[0]) == valStr(e.special("ringQ")) && valStr(a[1]) == valStr(e.special("ringP"))), "conversion between the rings of the parameters", site)
			return st.alloc(site+"#"+n, e.typ(pkRing, n), "")
		}
	}
	x["(*"+pkRing+".FastBasisExtender).ModDownQPtoQ"] = modDownQ
	// samplers
	smp := func(typ, kind string) {
		n := "(*" + pkRing + "." + typ + ")."
		x[n+"ReadLvl"] = func(e *Engine, st *State, a []Val, site string) Val {
			p := polyArg(a[2])
			v := st.drawn(a[0], typ, kind, site)
			if kind != "unif" && st.polyIsP(p) {
				v = badRow("sampleP", v)
			}
			st.writePoly(p, asTerm(a[1]), v)
			return nil
		}
		x[n+"Read"] = func(e *Engine, st *State, a []Val, site string) Val {
			return x[n+"ReadLvl"](e, st, []Val{a[0], minLvl(st, a[1]), a[1]}, site)
		}
		x[n+"ReadAndAddLvl"] = func(e *Engine, st *State, a []Val, site string) Val {
			p := polyArg(a[2])
			old := st.readPoly(p, asTerm(a[1]))
			v := st.drawn(a[0], typ, kind, site)
			st.writePoly(p, asTerm(a[1]), rowLin(old, v, 1))
			return nil
		}
		x[n+"ReadAndAdd"] = func(e *Engine, st *State, a []Val, site string) Val {
			return x[n+"ReadAndAddLvl"](e, st, []Val{a[0], minLvl(st, a[1]), a[1]}, site)
		}
		x[n+"ReadLvlNew"] = func(e *Engine, st *State, a []Val, site string) Val {
			p := e.newPoly(st, site, Add(asTerm(a[1]), Num(1)), "Q")
			st.writePoly(p, asTerm(a[1]), st.drawn(a[0], typ, kind, site))
			return p
		}
	}
	smp("GaussianSampler", "gauss")
	smp("TernarySampler", "tern")
	smp("UniformSampler", "unif")
	x[pkUtils+".NewPRNG"] = func(e *Engine, st *State, a []Val, site string) Val {
		p := st.alloc(site+":prng", e.typ(pkUtils, "KeyedPRNG"), "prng")
		st.writeLeaf(p, o("prng:random"))
		return &TupleV{[]Val{p, &IfaceV{}}}
	}
	x[pkUtils+".NewKeyedPRNG"] = func(e *Engine, st *State, a []Val, site string) Val {
		p := st.alloc(site+":prng", e.typ(pkUtils, "KeyedPRNG"), "prng")
		st.writeLeaf(p, o("prng:keyed"))
		return &TupleV{[]Val{p, &IfaceV{}}}
	}
	mkS := func(name, typ, kind string) {
		x[pkRing+"."+name] = func(e *Engine, st *State, a []Val, site string) Val {
			p := st.alloc(site+":sampler", e.typ(pkRing, typ), "sampler")
			var pr Val = o("prng:?")
			if iv, ok := a[0].(*IfaceV); ok && iv.T != nil {
				if ad, ok := iv.V.(*Addr); ok {
					pr = st.read(ad, e.typ(pkUtils, "KeyedPRNG"))
				}
			}
			d := []Val{pr}
			if kind == "tern" || kind == "ternsparse" {
				d = append(d, a[3], a[2])
			} else {
				d = append(d, a[2:]...)
			}
			d = append(d, a[1])
			st.writeLeaf(p, &OpaqueV{Kind: "sampler:" + kind, Data: d})
			return p
		}
	}
	mkS("NewGaussianSampler", "GaussianSampler", "gauss")
	mkS("NewTernarySampler", "TernarySampler", "tern")
	mkS("NewTernarySamplerSparse", "TernarySampler", "ternsparse")
	mkS("NewUniformSampler", "UniformSampler", "unif")
	// parameters
	pm := func(name string, f extFn) {
		x["("+pkRlwe+".Parameters)."+name] = f
		x["(*"+pkRlwe+".Parameters)."+name] = f
	}
	konst := func(v func() Val) extFn {
		return func(e *Engine, st *State, a []Val, site string) Val { return v() }
	}
	pm("RingQ", konst(func() Val { return e.special("ringQ") }))
	pm("RingP", konst(func() Val { return e.special("ringP") }))
	pm("RingQP", konst(func() Val { return e.special("ringQP") }))
	pm("QCount", konst(func() Val { return symNQ }))
	pm("PCount", konst(func() Val { return symNP }))
	pm("QPCount", konst(func() Val { return Add(symNQ, symNP) }))
	pm("MaxLevel", konst(func() Val { return Sub(symNQ, Num(1)) }))
	pm("N", konst(func() Val { return symN }))
	pm("LogN", konst(func() Val { return symLogN }))
	pm("Sigma", konst(func() Val { return Sym("sigma", SReal) }))
	pm("GaloisElementForColumnRotationBy", func(e *Engine, st *State, a []Val, site string) Val {
		return galEl(normRot(asTerm(a[1])), false)
	})
	pm("GaloisElementForRowRotation", konst(func() Val { return galEl(Num(0), true) }))
	pm("InverseGaloisElement", func(e *Engine, st *State, a []Val, site string) Val {
		g, ok := a[1].(*OpaqueV)
		if !ok || g.Kind != "galEl" {
			panic(unsupported("inverse of the Galois element %s", valStr(a[1])))
		}
		return o("galEl", normRot(Neg(g.Args[0])), g.Args[1])
	})
	cp := func(name string, f extFn) {
		x["("+pkCkks+".Parameters)."+name] = f
		x["(*"+pkCkks+".Parameters)."+name] = f
	}
	cp("LogSlots", konst(func() Val { return symLogS }))
	cp("Slots", konst(func() Val { return Pow2(symLogS) }))
	cp("Scale", konst(func() Val { return symScale }))
	x[pkRing+".PermuteNTTIndex"] = func(e *Engine, st *State, a []Val, site string) Val {
		g, ok := a[0].(*OpaqueV)
		if !ok || g.Kind != "galEl" {
			panic(unsupported("automorphism of %s", valStr(a[0])))
		}
		st.require(Eq(asTerm(a[1]), symN), "automorphism index of the ring degree", site)
		return o("galIndex", g.Args...)
	}
	x[pkRing+".PermuteNTTWithIndexLvl"] = func(e *Engine, st *State, a []Val, site string) Val {
		lvl := asTerm(a[0])
		p, q := polyArg(a[1]), polyArg(a[3])
		v := st.readPoly(p, lvl)
		g, ok := a[2].(*OpaqueV)
		if !ok || g.Kind != "galIndex" || v.Dom == 'C' || v.Dom == '?' || valStr(p) == valStr(q) || st.polyIsP(p) != st.polyIsP(q) {
			st.writePoly(q, lvl, badRow("permute", v))
			return nil
		}
		st.writePoly(q, lvl, &RowV{v.Dom, sigmaGal(v.RP, g)})
		return nil
	}
	x[pkRing+".PermuteNTTLvl"] = func(e *Engine, st *State, a []Val, site string) Val {
		g, ok := a[2].(*OpaqueV)
		if !ok || g.Kind != "galEl" {
			panic(unsupported("automorphism of %s", valStr(a[2])))
		}
		return x[pkRing+".PermuteNTTWithIndexLvl"](e, st, []Val{a[0], a[1], o("galIndex", g.Args...), a[3]}, site)
	}
	// words
	x[pkRing+".CRed"] = func(e *Engine, st *State, a []Val, site string) Val {
		if c, ok := a[0].(*CoefV); ok {
			e.wordModulus(st, c, a[1], site)
			return &CoefV{Row: c.Row, T: c.T}
		}
		panic(unsupported("CRed of %s", valStr(a[0])))
	}
	x[pkRing+".BRedAdd"] = x[pkRing+".CRed"]
	x[pkRing+".MForm"] = func(e *Engine, st *State, a []Val, site string) Val {
		c := e.scalarWord(st, a[0], a[1])
		e.wordModulus(st, c, a[1], site)
		return coefScale(rpR(1), c)
	}
	x[pkRing+".InvMForm"] = func(e *Engine, st *State, a []Val, site string) Val {
		c := e.scalarWord(st, a[0], a[1])
		e.wordModulus(st, c, a[1], site)
		return coefScale(rpR(-1), c)
	}
	mulw := func(k *RP) extFn {
		return func(e *Engine, st *State, a []Val, site string) Val {
			c, d := e.scalarWord(st, a[0], a[2]), e.scalarWord(st, a[1], a[2])
			e.wordModulus(st, c, a[2], site)
			e.wordModulus(st, d, a[2], site)
			if sc, ok := scalarOf(c); ok {
				return coefScale(rpMul2(k, sc), d)
			}
			if sc, ok := scalarOf(d); ok {
				return coefScale(rpMul2(k, sc), c)
			}
			panic(unsupported("product of words of two polynomials"))
		}
	}
	x[pkRing+".MRed"] = func(e *Engine, st *State, a []Val, site string) Val {
		if m, ok := a[3].(*OpaqueV); !ok || m.Kind != "mred" {
			panic(unsupported("Montgomery constant %s", valStr(a[3])))
		} else if q, ok := a[2].(*Term); !ok || !isQ(q) || !st.valid(Eq(m.Args[0], q.Args[0])) {
			e.oblige(false, "Montgomery constant belongs to the modulus", site, valStr(a[2])+" / "+valStr(a[3]))
		}
		return mulw(rpR(-1))(e, st, a, site)
	}
	x[pkRing+".MRedConstant"] = x[pkRing+".MRed"]
	x[pkRing+".BRed"] = mulw(rpConst(ratOne))
	// numbers
	x[pkUtils+".MinInt"] = func(e *Engine, st *State, a []Val, site string) Val { return st.forkMin(asTerm(a[0]), asTerm(a[1])) }
	x[pkUtils+".MaxInt"] = func(e *Engine, st *State, a []Val, site string) Val { return Max(asTerm(a[0]), asTerm(a[1])) }
	x[pkUtils+".MaxFloat64"] = x[pkUtils+".MaxInt"]
	x[pkUtils+".MinFloat64"] = func(e *Engine, st *State, a []Val, site string) Val { return Min(asTerm(a[0]), asTerm(a[1])) }
	x["math.Max"] = x[pkUtils+".MaxInt"]
	x["math.Min"] = x[pkUtils+".MinFloat64"]
	x["math.Floor"] = func(e *Engine, st *State, a []Val, site string) Val { return ToReal(e.floor(st, asTerm(a[0]))) }
	x["math.Trunc"] = func(e *Engine, st *State, a []Val, site string) Val {
		t := asTerm(a[0])
		if st.cond(Ge(t, RealC(0, 1))) {
			return ToReal(e.floor(st, t))
		}
		return ToReal(Neg(e.floor(st, Neg(t))))
	}
	x["math.Modf"] = func(e *Engine, st *State, a []Val, site string) Val {
		n := e.externals["math.Trunc"](e, st, a, site).(*Term)
		return &TupleV{[]Val{n, Sub(asTerm(a[0]), n)}}
	}
	x["math.Round"] = func(e *Engine, st *State, a []Val, site string) Val {
		return ToReal(rndTerm(st, asTerm(a[0])))
	}
	x["math.Abs"] = func(e *Engine, st *State, a []Val, site string) Val {
		t := asTerm(a[0])
		if st.cond(Ge(t, RealC(0, 1))) {
			return t
		}
		return Neg(t)
	}
	x["math.Ceil"] = func(e *Engine, st *State, a []Val, site string) Val {
		return ToReal(Neg(e.floor(st, Neg(asTerm(a[0])))))
	}
	x["math/bits.Len64"] = func(e *Engine, st *State, a []Val, site string) Val {
		t := asTerm(a[0])
		if st.valid(Eq(t, Sub(symN, Num(1)))) {
			return symLogN
		}
		if st.valid(Eq(t, symN)) {
			return Add(symLogN, Num(1))
		}
		return App("bitlen", SInt, t)
	}
	x["errors.New"] = func(e *Engine, st *State, a []Val, site string) Val {
		return &IfaceV{T: types.Universe.Lookup("error").Type(), V: o("error", asTerm(a[0]))}
	}
	x["fmt.Errorf"] = func(e *Engine, st *State, a []Val, site string) Val {
		return &IfaceV{T: types.Universe.Lookup("error").Type(), V: o("error")}
	}
	registerBig(e)
	registerEnc(e)
}

func sigmaGal(r *RP, g *OpaqueV) *RP {
	c, _ := g.Args[1].Int()
	return sigma(r, g.Args[0], c == 1)
}

// invQ: the inverse of the product of nb moduli from q_lvl downwards
func invQ(lvl, nb *Term) *RP { return rpAtom(A("Kinvq", lvl, nb)) }

func scalarOf(c *CoefV) (*RP, bool) {
	r := rpZero
	for _, t := range c.T {
		if t.X != nil {
			return nil, false
		}
		r = rpAdd(r, t.K)
	}
	return r, true
}

// scalarWord: a word as residue modulo the given modulus
func (e *Engine) scalarWord(st *State, v, q Val) *CoefV {
	if c, ok := v.(*CoefV); ok {
		return c
	}
	qt, ok := q.(*Term)
	if !ok || !isQ(qt) {
		panic(unsupported("modulus %s", valStr(q)))
	}
	return e.toCoef(st, v, qt.Args[0])
}

// wordModulus: the modulus passed along is the one of the word's row
func (e *Engine) wordModulus(st *State, c *CoefV, q Val, site string) {
	t, ok := q.(*Term)
	if !ok || !isQ(t) {
		panic(unsupported("modulus %s", valStr(q)))
	}
	if !st.valid(Eq(t.Args[0], c.Row)) {
		e.oblige(false, "residues are reduced modulo their own modulus", site, t.key+" for "+valStr(c))
		panic(unsupported("residue of row %s reduced modulo %s", c.Row, t))
	}
}

// floor of a real term; quotients of integers become integer division
func (e *Engine) floor(st *State, t *Term) *Term {
	if x, ok := isIntegral(t); ok {
		return x
	}
	for _, m := range monosOf(t) {
		for _, f := range m.F {
			if f.E < 0 {
				d := f.T
				y := Mul(t, d)
				if yi, ok := isIntegral(y); ok {
					if di, ok := isIntegral(d); ok && st.valid(Gt(di, Num(0))) {
						// floor(-x/d) for ceilings: -ceil(x/d) = -floor((x+d-1)/d)
						if st.valid(Le(yi, Num(0))) {
							return Neg(Div(Add(Neg(yi), Sub(di, Num(1))), di))
						}
						return Div(yi, di)
					}
				}
			}
		}
	}
	return Floor(t)
}

// rndTerm: rounding to the nearest integer, halves away from zero
func rndTerm(st *State, t *Term) *Term {
	if x, ok := isIntegral(t); ok {
		return x
	}
	if st.cond(Ge(t, RealC(0, 1))) {
		return Floor(Add(t, RealC(1, 2)))
	}
	return Neg(Floor(Add(Neg(t), RealC(1, 2))))
}

// writeRowRange writes rows lo..hi.
func (st *State) writeRowRange(p *Addr, lo, hi *Term, v *RowV) {
	isP := st.polyIsP(p)
	ra := st.rowAddr(p, rowIndexFor(isP))
	args := ra.Args()
	g := True
	for i, x := range args[:len(args)-1] {
		g = And(g, Eq(hole(i), x))
	}
	h := hole(len(args) - 1)
	g = And(g, Ge(h, lo), Le(h, hi))
	c := st.cellW(ra, true)
	c.push(Ov{G: g, V: v, Epoch: st.Epoch})
}

// dropP removes the components divisible by P, which vanish modulo P.
func dropP(r *RP) *RP {
	var cs []Comp
	for _, c := range r.Cs {
		if pPow(c) > 0 {
			continue
		}
		cs = append(cs, c)
	}
	return mkRP(cs)
}

func pPow(c Comp) int {
	n := 0
	for _, f := range c.F {
		if f.A.Kind == atomP.Kind {
			n += f.E
		}
	}
	return n
}

// modDownQ: division by P of an element of R_QP.
func modDownQ(e *Engine, st *State, a []Val, site string) Val {
	lQ, lP := asTerm(a[1]), asTerm(a[2])
	pQ, pP, out := polyArg(a[3]), polyArg(a[4]), polyArg(a[5])
	fq, fp := st.readPoly(pQ, lQ), st.readPoly(pP, lP)
	ok := !st.polyIsP(pQ) && st.polyIsP(pP) && !st.polyIsP(out) && st.valid(Eq(lP, Sub(symNP, Num(1))))
	for _, r := range []*RowV{fq, fp} {
		if r.Dom != 'C' && r.Dom != 'Z' {
			ok = false
		}
	}
	why := "representation"
	if ok {
		d := rpSub(dropP(fq.RP), dropP(fp.RP))
		if res := e.rpResidue(st, d, []*Term{}); len(res) > 0 {
			ok = false
			why = "the parts modulo Q and modulo P are different polynomials: " + mkRP(res).key
		}
	}
	if !ok {
		if e.debug {
			fmt.Println("modDown:", why)
		}
		st.writePoly(out, lQ, badRow("moddown", fq, fp))
		return nil
	}
	st.writePoly(out, lQ, &RowV{'C', rpAdd(rpMul2(rpP(-1), fq.RP), rpAtom(A("nz|"+site, st.Keys...)))})
	return nil
}

// ---- math/big

func (st *State) bigAt(v Val, typ string) *OpaqueV {
	a := asAddr(v)
	if a.Nil {
		panic(goPanic{"nil big number"})
	}
	x, ok := st.read(a, st.E.typ("math/big", typ)).(*OpaqueV)
	if !ok {
		panic(unsupported("big number at %s", a))
	}
	return x
}

// bigScalar: ring element of a big integer
func (st *State) bigScalar(v Val) *RP {
	if ov, ok := v.(*OpaqueV); ok && ov.Kind == "bigint:ringP" {
		return rpP(1)
	}
	x := st.bigAt(v, "Int")
	switch x.Kind {
	case "bigint:ringP":
		return rpP(1)
	case "bigInt":
		return scalarRP(x.Args[0])
	}
	panic(unsupported("big integer %s as scalar", valStr(x)))
}

func registerBig(e *Engine) {
	x := e.externals
	newBig := func(st *State, site, typ string, v Val) Val {
		p := st.alloc(site+":big", e.typ("math/big", typ), "big")
		st.writeLeaf(p, v)
		return p
	}
	x["math/big.NewFloat"] = func(e *Engine, st *State, a []Val, site string) Val {
		return newBig(st, site, "Float", o("bigFloat", asTerm(a[0])))
	}
	x["math/big.NewInt"] = func(e *Engine, st *State, a []Val, site string) Val {
		return newBig(st, site, "Int", o("bigInt", asTerm(a[0])))
	}
	x[pkRing+".NewUint"] = func(e *Engine, st *State, a []Val, site string) Val {
		return newBig(st, site, "Int", o("bigInt", asTerm(a[0])))
	}
	fl := func(name string, f func(p, q *Term) *Term) {
		x["(*math/big.Float)."+name] = func(e *Engine, st *State, a []Val, site string) Val {
			u, v := st.bigAt(a[1], "Float"), st.bigAt(a[2], "Float")
			if u.Kind != "bigFloat" || v.Kind != "bigFloat" {
				panic(unsupported("big float arithmetic"))
			}
			st.writeLeaf(asAddr(a[0]), o("bigFloat", f(u.Args[0], v.Args[0])))
			return a[0]
		}
	}
	fl("Add", Add)
	fl("Sub", Sub)
	fl("Mul", Mul)
	set := func(typ, name, kind string) {
		x["(*math/big."+typ+")."+name] = func(e *Engine, st *State, a []Val, site string) Val {
			st.writeLeaf(asAddr(a[0]), o(kind, asTerm(a[1])))
			return a[0]
		}
	}
	set("Int", "SetUint64", "bigInt")
	set("Int", "SetInt64", "bigInt")
	set("Float", "SetFloat64", "bigFloat")
	for _, typ := range []string{"Int", "Float"} {
		typ := typ
		x["(*math/big."+typ+").Set"] = func(e *Engine, st *State, a []Val, site string) Val {
			v, ok := a[1].(*OpaqueV)
			if !ok {
				v = st.bigAt(a[1], typ)
			}
			st.writeLeaf(asAddr(a[0]), v)
			return a[0]
		}
	}
	for name, f := range map[string]func(p, q *Term) *Term{"Add": Add, "Sub": Sub, "Mul": Mul} {
		f := f
		x["(*math/big.Int)."+name] = func(e *Engine, st *State, a []Val, site string) Val {
			u, v := st.bigAt(a[1], "Int"), st.bigAt(a[2], "Int")
			if u.Kind != "bigInt" || v.Kind != "bigInt" {
				panic(unsupported("big integer arithmetic"))
			}
			st.writeLeaf(asAddr(a[0]), o("bigInt", f(u.Args[0], v.Args[0])))
			return a[0]
		}
	}
	x["(*math/big.Float).Neg"] = func(e *Engine, st *State, a []Val, site string) Val {
		u := st.bigAt(a[1], "Float")
		if u.Kind != "bigFloat" {
			panic(unsupported("big float arithmetic"))
		}
		st.writeLeaf(asAddr(a[0]), o("bigFloat", Neg(u.Args[0])))
		return a[0]
	}
	x["(*math/big.Float).Int"] = func(e *Engine, st *State, a []Val, site string) Val {
		u := st.bigAt(a[0], "Float")
		t := u.Args[0]
		var v *Term
		if st.cond(Ge(t, RealC(0, 1))) {
			v = Floor(t)
		} else {
			v = Neg(Floor(Neg(t)))
		}
		if p := asAddr(a[1]); !p.Nil {
			st.writeLeaf(p, o("bigInt", v))
			return &TupleV{[]Val{p, Num(0)}}
		}
		return &TupleV{[]Val{newBig(st, site, "Int", o("bigInt", v)), Num(0)}}
	}
	x["(*math/big.Int).Mod"] = func(e *Engine, st *State, a []Val, site string) Val {
		u, v := st.bigAt(a[1], "Int"), st.bigAt(a[2], "Int")
		if u.Kind != "bigInt" || v.Kind != "bigInt" {
			panic(unsupported("big integer remainder of %s", valStr(u)))
		}
		if isQ(v.Args[0]) {
			// residue modulo a modulus of the chain
			st.writeLeaf(asAddr(a[0]), &OpaqueV{Kind: "bigRes", Args: []*Term{u.Args[0], v.Args[0].Args[0]}})
		} else {
			st.writeLeaf(asAddr(a[0]), o("bigInt", Mod(u.Args[0], v.Args[0])))
		}
		return a[0]
	}
	x["(*math/big.Int).Uint64"] = func(e *Engine, st *State, a []Val, site string) Val {
		u := st.bigAt(a[0], "Int")
		switch u.Kind {
		case "bigRes":
			return &CoefV{Row: u.Args[1], T: []CoefTerm{{K: scalarRP(u.Args[0])}}}
		case "bigInt":
			return u.Args[0]
		}
		panic(unsupported("big integer %s", valStr(u)))
	}
}

var _ = ssa.NaiveForm

// minOf is the smaller of two terms, as one of them where the state decides which.
func (st *State) minOf(a, b *Term) *Term {
	m := Min(a, b)
	if m.Op != OpIte {
		return m
	}
	switch st.decide(m.Args[0]) {
	case 1:
		return m.Args[1]
	case -1:
		return m.Args[2]
	}
	return m
}

// forkMin splits the state instead of keeping a conditional term, as an if statement would; within the
// generic iteration of a loop the term is kept.
func (st *State) forkMin(a, b *Term) *Term {
	m := Min(a, b)
	if m.Op != OpIte || len(st.Keys) > 0 {
		return m
	}
	if st.cond(m.Args[0]) {
		return m.Args[1]
	}
	return m.Args[2]
}

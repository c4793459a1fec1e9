package main

import (
	"go/types"
	"math/big"
	"strings"
)

func evm(n string) string { return "(*" + pkMc + ".Evaluator)." + n }

func (g *G) evalp() *Addr { return g.ptr("eval", pkMc, "Evaluator") }
func (g *G) mct(id string) *Addr {
	return g.ptr(id, pkMc, "Ciphertext")
}
func (st *State) ctScale(ct *Addr) *Term {
	v, _ := st.get(ct, st.E.typ(pkMc, "Ciphertext"), "Scale")
	return asTerm(v)
}

// evalScratch: the evaluator's internal ciphertext and polynomial
func evalScratch(eval *Addr) func(a *Addr) *Term {
	return func(a *Addr) *Term {
		s := a.Skel()
		if a.R == eval.R && (strings.Contains(s, ".ctxtPool") || strings.Contains(s, ".polyQPool")) {
			return True
		}
		return nil
	}
}

// newResult: out is a freshly allocated ciphertext with exactly the given
// parties, level and scale, in coefficient representation
func (g *G) newResult(st *State, out *Addr, has func(p *State, k *Term) *Term, lvl, scale *Term) {
	in := st.innerCt(out)
	g.oblige(g.isFresh(out) && g.isFresh(in) && g.isFresh(st.ctMap(in)), "the result is fresh", "", valStr(out))
	g.check(st, Eq(st.ctScale(out), scale), "scale of the result")
	g.resultShape(st, in, has, lvl)
}

func (g *G) resultShape(st *State, in *Addr, has func(p *State, k *Term) *Term, lvl *Term) {
	k := str("k")
	p := g.pre(st)
	h := has(p, k)
	g.check(st, And(Implies(st.ctHas(in, k), h), Implies(h, st.ctHas(in, k))), "parties of the result")
	o := st.clone()
	o.assume(h)
	g.branch(o, func(o *State) {
		x := o.ctPoly(in, k)
		g.oblige(g.isFresh(x), "components have storage of their own", "", valStr(x))
		g.check(o, Eq(o.polyLevel(x), lvl), "level of every component")
		g.check(o, Not(asTerm(o.readLeaf(x.field(1, "IsNTT"), tBool))), "coefficient representation")
		g.distinctPolys(o, in, k)
	})
}

// phaseIs: the phase of out is want
func (g *G) phaseIs(st *State, in *Addr, lvl *Term, want *RP, exact bool, what string) {
	ph, dom := g.phase(st, in, lvl, "result")
	g.oblige(dom == 'C' || dom == 'Z', what+" (coefficient representation)", "", string(dom))
	if exact {
		res := g.rpResidue(st, rpSub(ph, want), upTo(lvl))
		g.oblige(len(res) == 0, what, "", "got "+clip(ph.key)+"\n  want "+clip(want.key)+"\n  difference "+clip(mkRP(res).key)+"\n  under "+pcStr(st))
		return
	}
	g.noiseOnly(st, rpSub(ph, want), upTo(lvl), what)
}

func union(a, b *Addr) func(p *State, k *Term) *Term {
	return func(p *State, k *Term) *Term { return Or(p.ctHas(p.innerCt(a), k), p.ctHas(p.innerCt(b), k)) }
}
func partiesOf(a *Addr) func(p *State, k *Term) *Term {
	return func(p *State, k *Term) *Term { return p.ctHas(p.innerCt(a), k) }
}

func (g *G) cphase(p *State, ct *Addr, lvl *Term) *RP {
	ph, _ := g.phase(p, p.innerCt(ct), lvl, "operand")
	return ph
}
func (g *G) clvl(ct *Addr) *Term { return g.lvlOf(g.newState().innerCt(ct)) }

func init() {
	goal := func(name, fn string, props []string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: props, Run: run})
	}
	// ---- C03
	for _, o := range []struct {
		fn   string
		sign int64
		same bool
	}{{"AddNew", 1, false}, {"SubNew", -1, false}, {"AddNew", 1, true}, {"SubNew", -1, true}} {
		o := o
		name := "eval." + o.fn
		if o.same {
			name += ".self"
		}
		goal(name, evm(o.fn), []string{"C03", "C14"}, func(g *G) {
			eval, a := g.evalp(), g.mct("op0")
			b := a
			if !o.same {
				b = g.mct("op1")
			}
			st := g.newState()
			g.returns(g.exec(st, evm(o.fn), eval, a, b), nil, func(st *State, r Val) {
				p := g.pre(st)
				out := asAddr(r)
				sa, sb := p.ctScale(a), p.ctScale(b)
				lv := st.minOf(g.clvl(a), g.clvl(b))
				g.newResult(st, out, union(a, b), lv, Max(sa, sb))
				// the operand of smaller scale is brought up by the integer part of the ratio
				fa, fb := rpConst(ratOne), rpConst(ratOne)
				ka, kb := Floor(RDiv(sb, sa)), Floor(RDiv(sa, sb))
				if st.cond(And(Gt(sb, sa), Ge(ka, Num(2)))) {
					fa = scalarRP(ka)
				}
				if st.cond(And(Gt(sa, sb), Ge(kb, Num(2)))) {
					fb = scalarRP(kb)
				}
				want := rpAdd(rpMul(fa, g.cphase(p, a, lv)), rpScale(big.NewRat(o.sign, 1), rpMul(fb, g.cphase(p, b, lv))))
				g.phaseIs(st, st.innerCt(out), lv, want, true, "the phase of the result is the sum of the phases")
				g.frame(st, evalScratch(eval))
			})
		})
	}
	// ---- C08
	goal("eval.DropLevel", evm("DropLevel"), []string{"C08", "C14"}, func(g *G) {
		eval, ct := g.evalp(), g.mct("ct")
		st := g.newState()
		in := st.innerCt(ct)
		n := Sym("levels", SInt)
		st.addFact(And(Ge(n, Num(0)), Le(n, g.clvl(ct))))
		g.returns(g.exec(st, evm("DropLevel"), eval, ct, n), nil, func(st *State, r Val) {
			p := g.pre(st)
			k := str("k")
			lv := Sub(g.clvl(ct), n)
			o := st.clone()
			o.assume(p.ctHas(in, k))
			g.branch(o, func(o *State) {
				g.check(o, Eq(o.polyLevel(o.ctPoly(in, k)), lv), "the level falls by the requested number")
				x, _ := o.ctRow(in, k, lv)
				y, _ := g.pre(o).ctRow(in, k, lv)
				g.rowIs(o, x, y.Dom, y.RP, upTo(lv), "the remaining residues are kept")
			})
			g.frame(st, func(a *Addr) *Term {
				if a.R == ct.R && strings.HasSuffix(a.Skel(), ".Coeffs") {
					return True
				}
				return nil
			})
		})
	})
	goal("eval.DropLevelNew", evm("DropLevelNew"), []string{"C08", "C14"}, func(g *G) {
		eval, ct := g.evalp(), g.mct("ct")
		st := g.newState()
		in := st.innerCt(ct)
		n := Sym("levels", SInt)
		st.addFact(And(Ge(n, Num(0)), Le(n, g.clvl(ct))))
		g.returns(g.exec(st, evm("DropLevelNew"), eval, ct, n), nil, func(st *State, r Val) {
			p := g.pre(st)
			k := str("k")
			lv := Sub(g.clvl(ct), n)
			out := asAddr(r)
			g.newResult(st, out, partiesOf(ct), lv, p.ctScale(ct))
			o := st.clone()
			o.assume(p.ctHas(in, k))
			g.branch(o, func(o *State) {
				x, _ := o.ctRow(o.innerCt(out), k, lv)
				y, _ := g.pre(o).ctRow(in, k, lv)
				g.rowIs(o, x, y.Dom, y.RP, upTo(lv), "the residues are those of the operand")
			})
			g.frame(st, noChange)
		})
	})
	// ---- C09
	for _, ty := range []struct {
		name string
		k    types.BasicKind
		same bool
	}{{"int", types.Int, false}, {"int64", types.Int64, false}, {"uint64", types.Uint64, false}, {"float64", types.Float64, false}, {"complex128", types.Complex128, false},
		{"float64.inplace", types.Float64, true}, {"int.inplace", types.Int, true}, {"complex128.inplace", types.Complex128, true}} {
		ty := ty
		goal("eval.MultByConst."+ty.name, evm("MultByConst"), []string{"C09", "C14"}, func(g *G) {
			eval, ct, out := g.evalp(), g.mct("ct"), g.mct("out")
			if ty.same {
				out = ct
			}
			st := g.newState()
			in, oin := st.innerCt(ct), st.innerCt(out)
			if !ty.same {
				g.Rules = append(g.Rules, ctSubset(in, oin))
			}
			lv := st.minOf(g.clvl(ct), g.clvl(out))
			var c Val
			var x, y *Term
			switch ty.k {
			case types.Float64:
				x = Sym("const", SReal)
				c = x
			case types.Complex128:
				x, y = Sym("re", SReal), Sym("im", SReal)
				c = o("cplx", x, y)
			default:
				n := Sym("const", SInt)
				c = n
				x = ToReal(n)
				if ty.k == types.Uint64 {
					st.addFact(Ge(n, Num(0)))
				}
			}
			g.returns(g.exec(st, evm("MultByConst"), eval, ct, &IfaceV{T: types.Typ[ty.k], V: c}, out), nil, func(st *State, r Val) {
				p := g.pre(st)
				scale := RealC(1, 1)
				for _, z := range []*Term{x, y} {
					if z != nil && !(ty.k != types.Float64 && ty.k != types.Complex128) {
						if !st.cond(Eq(z, ToReal(truncOf(st, z)))) {
							scale = ToReal(App("q", SInt, lv))
						}
					}
				}
				want := scalarRP(rndTerm(st, Mul(x, scale)))
				if y != nil {
					want = rpAdd(want, rpMul(scalarRP(rndTerm(st, Mul(y, scale))), rpAtom(A("Khalf"))))
				}
				g.check(st, Eq(st.ctScale(out), Mul(p.ctScale(ct), scale)), "the scale accounts for the constant")
				k := str("k")
				o := st.clone()
				o.assume(p.ctHas(in, k))
				g.branch(o, func(o *State) {
					x, _ := o.ctRow(oin, k, lv)
					y, _ := g.pre(o).ctRow(in, k, lv)
					g.rowIs(o, x, 'C', rpMul(want, y.RP), upTo(lv), "every component is multiplied by the scaled constant")
				})
				g.frame(st, func(a *Addr) *Term {
					if a.R == out.R && a.Skel() == out.R.ID+".Scale" {
						return True
					}
					kk := lastKey(a)
					if kk == nil || !isRowAddr(a) {
						return nil
					}
					return And(within(oin)(a), p.ctHas(in, kk), Le(ROW, lv))
				})
			})
		})
	}
}

func truncOf(st *State, x *Term) *Term {
	if st.cond(Ge(x, RealC(0, 1))) {
		return Floor(x)
	}
	return Neg(Floor(Neg(x)))
}

// prodInv: the product of 1/q_{lvl-j} over j < n
func prodInv(lvl, n *Term) *Term {
	j := Sym("j", SInt)
	f := RDiv(RealC(1, 1), ToReal(App("q", SInt, Sub(lvl, j))))
	return App("prod|"+f.key, SReal, n)
}

// rescaled: out is ct (in state p) divided by the moduli that Rescale drops for minScale
func (g *G) rescaled(st *State, phase func(lvl *Term) *RP, lvl, scale, minScale *Term, out *Addr, exact bool, what string) {
	in := st.innerCt(out)
	l2 := st.polyLevel(st.ctPoly(in, zeroID))
	n := Sub(lvl, l2)
	g.check(st, And(Ge(n, Num(0)), Ge(l2, Num(0))), what+"the level does not rise")
	sc := func(k *Term) *Term { return Mul(scale, prodInv(lvl, k)) }
	st.addFact(Eq(prodInv(lvl, Num(0)), RealC(1, 1)))
	g.check(st, Eq(st.ctScale(out), sc(n)), what+"the scale is divided by exactly the dropped moduli")
	half := Mul(minScale, RealC(1, 2))
	quo := func(k *Term) *Term { return Mul(sc(k), RDiv(RealC(1, 1), ToReal(App("q", SInt, Sub(lvl, k))))) }
	g.check(st, Or(Eq(l2, Num(0)), Lt(quo(n), half)), what+"it divides as long as the scale stays large enough and a level remains")
	j := Fresh("j", SInt)
	g.check(st, Implies(And(Ge(j, Num(0)), Lt(j, n)), Ge(quo(j), half)), what+"it divides no further")
	want := phase(l2)
	if st.valid(Eq(n, Num(0))) {
		g.phaseIs(st, in, l2, want, exact, what+"nothing dropped: the phase is unchanged")
		return
	}
	g.phaseIs(st, in, l2, rpMul(invQ(lvl, n), want), false, what+"the phase is divided by the dropped moduli up to rounding")
}

func init() {
	goal := func(name, fn string, props []string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: props, Run: run})
	}
	for _, inPlace := range []bool{false, true} {
		inPlace := inPlace
		name := "eval.Rescale"
		if inPlace {
			name += ".inplace"
		}
		goal(name, evm("Rescale"), []string{"C08", "C04", "C09", "C14"}, func(g *G) {
			eval, ct := g.evalp(), g.mct("ct")
			out := ct
			st := g.newState()
			in := st.innerCt(ct)
			oin := in
			if !inPlace {
				out = g.mct("out")
				oin = st.innerCt(out)
				g.Rules = append(g.Rules, ctSubset(in, oin), ctSubset(oin, in))
				st.addFact(Eq(g.clvl(out), g.clvl(ct)))
			}
			ms := Sym("minScale", SReal)
			lv := g.clvl(ct)
			g.returns(g.exec(st, evm("Rescale"), eval, ct, ms, out), nil, func(st *State, r Val) {
				p := g.pre(st)
				isErr := r.(*IfaceV).T != nil
				bad := Or(Le(ms, RealC(0, 1)), Eq(lv, Num(0)))
				if isErr {
					g.check(st, bad, "an error only for a non-positive minimum, a zero scale or level zero")
					g.frame(st, noChange)
					return
				}
				g.check(st, Not(bad), "an error for a non-positive minimum or level zero")
				k := str("k")
				g.check(st, And(Implies(st.ctHas(oin, k), p.ctHas(in, k)), Implies(p.ctHas(in, k), st.ctHas(oin, k))), "parties are kept")
				l2 := st.polyLevel(st.ctPoly(oin, zeroID))
				o := st.clone()
				o.assume(p.ctHas(in, k))
				g.branch(o, func(o *State) {
					g.check(o, Eq(o.polyLevel(o.ctPoly(oin, k)), l2), "all components have the same level")
				})
				g.rescaled(st, func(l *Term) *RP { return g.cphase(p, ct, l) }, lv, p.ctScale(ct), ms, out, true, "")
				g.frame(st, anyOf(within(out), evalScratch(eval)))
			})
		})
	}
	goal("eval.Rescale.zeroscale", evm("Rescale"), []string{"C08"}, func(g *G) {
		eval, ct, out := g.evalp(), g.mct("ct"), g.mct("out")
		st := g.newState()
		fa, _ := g.fieldAddr(ct, g.typ(pkMc, "Ciphertext"), "Scale")
		st.writeLeaf(fa, RealC(0, 1))
		g.returns(g.exec(st, evm("Rescale"), eval, ct, Sym("minScale", SReal), out), nil, func(st *State, r Val) {
			g.oblige(r.(*IfaceV).T != nil, "an error for a zero scale", "", "")
		})
	})
	goal("eval.RescaleNew", evm("RescaleNew"), []string{"C08", "C14"}, func(g *G) {
		eval, ct := g.evalp(), g.mct("ct")
		st := g.newState()
		ms := Sym("minScale", SReal)
		lv := g.clvl(ct)
		g.returns(g.exec(st, evm("RescaleNew"), eval, ct, ms), nil, func(st *State, r Val) {
			p := g.pre(st)
			tu := r.(*TupleV)
			g.frame(st, evalScratch(eval))
			bad := Or(Le(ms, RealC(0, 1)), Eq(lv, Num(0)))
			if tu.V[1].(*IfaceV).T != nil {
				g.check(st, bad, "an error only for a non-positive minimum, a zero scale or level zero")
				return
			}
			g.check(st, Not(bad), "an error for a non-positive minimum or level zero")
			out := asAddr(tu.V[0])
			l2 := st.polyLevel(st.ctPoly(st.innerCt(out), zeroID))
			g.newResult(st, out, partiesOf(ct), l2, st.ctScale(out))
			g.rescaled(st, func(l *Term) *RP { return g.cphase(p, ct, l) }, lv, p.ctScale(ct), ms, out, true, "")
		})
	})
	goal("eval.MulPtxtNew", evm("MulPtxtNew"), []string{"C09", "C14"}, func(g *G) {
		eval, ct, pt := g.evalp(), g.mct("ct"), g.ptr("pt", pkCkks, "Plaintext")
		st := g.newState()
		lv := g.clvl(ct)
		tp := g.typ(pkCkks, "Plaintext")
		pv, _ := st.get(pt, tp, "Plaintext", "Value")
		pp := asAddr(pv)
		st.addFact(Ge(st.polyLevel(pp), lv))
		st.addFact(Not(asTerm(st.readLeaf(pp.field(1, "IsNTT"), tBool))))
		g.returns(g.exec(st, evm("MulPtxtNew"), eval, ct, pt), nil, func(st *State, r Val) {
			p := g.pre(st)
			out := asAddr(r)
			sc, _ := p.get(pt, tp, "Scale")
			m := p.readPoly(pp, lv)
			l2 := st.polyLevel(st.ctPoly(st.innerCt(out), zeroID))
			g.newResult(st, out, partiesOf(ct), l2, st.ctScale(out))
			ph := func(l *Term) *RP { return rpMul(m.RP, g.cphase(p, ct, l)) }
			scale := Mul(p.ctScale(ct), asTerm(sc))
			if st.valid(Eq(lv, Num(0))) {
				g.check(st, Eq(l2, Num(0)), "level zero stays")
				g.check(st, Eq(st.ctScale(out), scale), "the scales multiply")
				g.phaseIs(st, st.innerCt(out), l2, ph(l2), true, "the phase is the product with the plaintext")
			} else {
				g.rescaled(st, ph, lv, scale, symScale, out, true, "")
			}
			g.frame(st, evalScratch(eval))
		})
	})
}

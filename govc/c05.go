package main

import "go/types"

// Evaluator level: products, rotations, conjugation and their hoisted forms.

func init() {
	goal := func(name, fn string, props []string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: props, Uses: []string{fnSplit, fnExt, fnExtH}, Run: run})
	}
	type mv struct {
		name         string
		hoisted      bool
		same, h0, h1 bool
	}
	for _, v := range []mv{{"eval.MulRelinNew", false, false, false, false}, {"eval.MulRelinNew.square", false, true, false, false},
		{"eval.MulRelinHoistedNew", true, false, true, true}, {"eval.MulRelinHoistedNew.first", true, false, true, false}, {"eval.MulRelinHoistedNew.second", true, false, false, true},
		{"eval.MulRelinHoistedNew.none", true, false, false, false}, {"eval.MulRelinHoistedNew.square", true, true, true, true}} {
		v := v
		fn, props := evm("MulRelinNew"), []string{"C04", "C14"}
		if v.hoisted {
			fn, props = evm("MulRelinHoistedNew"), []string{"C05", "C14"}
		}
		goal(v.name, fn, props, func(g *G) {
			eval, a := g.evalp(), g.mct("op0")
			b := a
			if !v.same {
				b = g.mct("op1")
			}
			st := g.newState()
			rlk := g.ptr("rlk", pkMk, "RelinearizationKeySet")
			ia, ib := st.innerCt(a), st.innerCt(b)
			g.Rules = append(g.Rules, keysFor(ia, "has|rlk.Value*{}.?"), keysFor(ib, "has|rlk.Value*{}.?"))
			args := []Val{eval, a, b, rlk}
			if v.hoisted {
				h0, h1 := g.nilHoist(), g.nilHoist()
				if v.h0 {
					h0 = g.hoistOf("h0", a)
				}
				if v.h1 {
					h1 = h0
					if !v.same {
						h1 = g.hoistOf("h1", b)
					}
				}
				args = []Val{eval, a, b, h0, h1, rlk}
			}
			g.returns(g.exec(st, fn, args...), nil, func(st *State, r Val) {
				p := g.pre(st)
				out := asAddr(r)
				lv := st.minOf(g.clvl(a), g.clvl(b))
				l2 := st.polyLevel(st.ctPoly(st.innerCt(out), zeroID))
				g.newResult(st, out, union(a, b), l2, st.ctScale(out))
				ph := func(l *Term) *RP { return rpMul(g.cphase(p, a, l), g.cphase(p, b, l)) }
				scale := Mul(p.ctScale(a), p.ctScale(b))
				if st.valid(Eq(lv, Num(0))) {
					g.check(st, Eq(l2, Num(0)), "level zero stays")
					g.check(st, Eq(st.ctScale(out), scale), "the scales multiply")
					g.phaseIs(st, st.innerCt(out), l2, ph(l2), false, "the phase is the product of the phases")
				} else {
					g.rescaled(st, ph, lv, scale, symScale, out, false, "")
				}
				g.frame(st, evalScratch(eval))
			})
		})
	}
	for _, hoisted := range []bool{false, true} {
		hoisted := hoisted
		name, props := "RotateNew", []string{"C06", "C14"}
		if hoisted {
			name, props = "RotateHoistedNew", []string{"C05", "C06", "C14"}
		}
		if !hoisted {
			goal("eval.RotateNew.decomposed", evm(name), props, func(g *G) {
				eval, a := g.evalp(), g.mct("ct")
				rk := g.ptr("rk", pkMk, "RotationKeySet")
				st := g.newState()
				ia := st.innerCt(a)
				rot := Sym("rot", SInt)
				l := g.clvl(a)
				g.loopHook = rotationLoop
				g.Rules = append(g.Rules, allRotKeys(ia, "rk"))
				g.returns(g.exec(st, evm(name), eval, a, rot, rk), nil, func(st *State, r Val) {
					p := g.pre(st)
					out := asAddr(r)
					g.newResult(st, out, partiesOf(a), l, p.ctScale(a))
					g.phaseIs(st, st.innerCt(out), l, sigma(g.cphase(p, a, l), rot, false), false, "the phase of the result is the rotated phase")
					g.frame(st, evalScratch(eval))
				})
			})
		}
		nm := "eval." + name
		if !hoisted {
			nm += ".direct"
		}
		goal(nm, evm(name), props, func(g *G) {
			eval, a := g.evalp(), g.mct("ct")
			rk := g.ptr("rk", pkMk, "RotationKeySet")
			st := g.newState()
			ia := st.innerCt(a)
			rot := Sym("rot", SInt)
			l := g.clvl(a)
			args := []Val{eval, a, rot, rk}
			if hoisted {
				args = []Val{eval, a, rot, g.hoistOf("h", a), rk}
			}
			// a key of its own for the rotation
			nrot := Mod(rot, MulC(8, symM))
			if !hoisted {
				g.Rules = append(g.Rules, func(t *Term) []*Term {
					if t.Op == OpApp && t.Name == "hasCRS" {
						return []*Term{Implies(Eq(t.Args[0], nrot), t)}
					}
					return nil
				})
			}
			g.returns(g.exec(st, evm(name), args...), func(st *State) *Term {
				return And(Neq(nrot, Num(0)), Or(Not(App("hasCRS", SBool, nrot)), g.lacks(ia, "has|rk.Value*{}.?", "has|rk.Value*{}*{}.?", nrot)(st)))
			}, func(st *State, r Val) {
				p := g.pre(st)
				out := asAddr(r)
				g.newResult(st, out, partiesOf(a), l, p.ctScale(a))
				g.phaseIs(st, st.innerCt(out), l, sigma(g.cphase(p, a, l), rot, false), false, "the phase of the result is the rotated phase")
				g.frame(st, evalScratch(eval))
			})
		})
	}
	goal("eval.ConjugateNew", evm("ConjugateNew"), []string{"C07", "C14"}, func(g *G) {
		eval, a := g.evalp(), g.mct("ct")
		ck := g.ptr("ck", pkMk, "ConjugationKeySet")
		st := g.newState()
		ia := st.innerCt(a)
		l := g.clvl(a)
		g.returns(g.exec(st, evm("ConjugateNew"), eval, a, ck), g.lacks(ia, "has|ck.Value*{}.?"), func(st *State, r Val) {
			p := g.pre(st)
			out := asAddr(r)
			g.newResult(st, out, partiesOf(a), l, p.ctScale(a))
			g.phaseIs(st, st.innerCt(out), l, sigma(g.cphase(p, a, l), nil, true), false, "the phase of the result is the conjugate of the phase")
			g.frame(st, evalScratch(eval))
		})
	})
	goal("eval.HoistedForm", evm("HoistedForm"), []string{"C05", "C14"}, func(g *G) {
		eval, a := g.evalp(), g.mct("ct")
		st := g.newState()
		ia := st.innerCt(a)
		l := g.clvl(a)
		g.returns(g.exec(st, evm("HoistedForm"), eval, a), nil, func(st *State, r Val) {
			p := g.pre(st)
			h := asAddr(r)
			v, vt := st.get(h, g.typ(pkMk, "HoistedCiphertext"), "Value")
			mv := v.(*MapV)
			k := str("k")
			has := And(p.ctHas(ia, k), Neq(k, zeroID))
			g.check(st, And(Implies(st.mapHas(mv, k), has), Implies(has, st.mapHas(mv, k))), "one entry per party")
			o := st.clone()
			o.assume(has)
			g.branch(o, func(o *State) {
				key := asAddr(o.mapVal(mv, k, vt.Underlying().(*types.Map).Elem()))
				g.oblige(g.isFresh(key), "storage of its own", "", valStr(key))
				g.swkShape(o, key)
				i := str("digit")
				o = o.clone()
				o.assume(And(Ge(i, Num(0)), Lt(i, g.betaOf(l))))
				g.branch(o, func(o *State) {
					rows := g.digitRows(o, key, i, l)
					x, _ := g.pre(o).ctRow(ia, k, l)
					g.rowIs(o, rows[0], 'N', decAtom(i, l, x.RP), upTo(l), "digit i modulo Q")
					g.rowIs(o, rows[1], 'N', decAtom(i, l, x.RP), rowRange[1], "digit i modulo P")
				})
			})
			g.frame(st, noChange)
		})
	})
}

// allRotKeys: the key set holds every rotation key asked for, for every party of the ciphertext
func allRotKeys(ct *Addr, set string) func(app *Term) []*Term {
	return func(t *Term) []*Term {
		if t.Op == OpApp && (t.Name == "has|"+set+".Value*{}.?" || t.Name == "has|"+set+".Value*{}*{}.?") {
			k := t.Args[0]
			return []*Term{Implies(And(App("has0|"+ct.Skel()+".Value*{}.?", SBool, k), Neq(k, zeroID)), t)}
		}
		return nil
	}
}

// lacks: some party of the ciphertext has no key in the set
func (g *G) lacks(ct *Addr, set string, more ...interface{}) func(st *State) *Term {
	return func(st *State) *Term {
		p := g.pre(st)
		return missing(func(k *Term) *Term {
			h := App(set, SBool, k)
			if len(more) == 2 {
				h = And(h, App(more[0].(string), SBool, k, more[1].(*Term)))
			}
			return h
		}, func(k *Term) *Term { return p.ctHas(ct, k) })
	}
}

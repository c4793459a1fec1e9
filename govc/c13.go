package main

import "go/types"

var tBool = types.Typ[types.Bool]

func init() {
	ids := func(name string) string { return "(*" + pkMk + ".IDSet)." + name }
	p13 := []string{"C13"}
	set := func(g *G, id string) *Addr { return g.ptr(id, pkMk, "IDSet") }
	// membership of k in the set object at a
	hasIn := func(st *State, a *Addr, k *Term) *Term {
		m, _ := st.get(a, st.E.typ(pkMk, "IDSet"), "Value")
		return st.mapHas(m.(*MapV), k)
	}
	k := str("k")
	iff := func(a, b *Term) *Term { return And(Implies(a, b), Implies(b, a)) }

	goal := func(name, fn string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: p13, Run: run})
	}
	goal("idset.has", ids("Has"), func(g *G) {
		s, v := set(g, "s"), str("v")
		g.returns(g.exec(g.newState(), ids("Has"), s, v), nil, func(st *State, r Val) {
			g.check(st, iff(asTerm(r), hasIn(g.pre(st), s, v)), "Has decides membership")
			g.frame(st, noChange)
		})
	})
	goal("idset.add", ids("Add"), func(g *G) {
		s, v := set(g, "s"), str("v")
		g.returns(g.exec(g.newState(), ids("Add"), s, v), func(st *State) *Term { return Eq(v, zeroID) }, func(st *State, r Val) {
			g.check(st, iff(hasIn(st, s, k), Or(hasIn(g.pre(st), s, k), Eq(k, v))), "Add inserts exactly the given id")
			g.check(st, Not(hasIn(st, s, zeroID)), "the reserved id is never a member")
			g.frame(st, within(s))
		})
	})
	goal("idset.remove", ids("Remove"), func(g *G) {
		s, v := set(g, "s"), str("v")
		g.returns(g.exec(g.newState(), ids("Remove"), s, v), nil, func(st *State, r Val) {
			g.check(st, iff(hasIn(st, s, k), And(hasIn(g.pre(st), s, k), Neq(k, v))), "Remove takes out exactly the given id")
			g.frame(st, within(s))
		})
	})
	goal("idset.size", ids("Size"), func(g *G) {
		s := set(g, "s")
		g.returns(g.exec(g.newState(), ids("Size"), s), nil, func(st *State, r Val) {
			p := g.pre(st)
			m, _ := p.get(s, g.typ(pkMk, "IDSet"), "Value")
			g.check(st, Eq(asTerm(r), p.mapLen(m.(*MapV))), "Size is the number of members")
			g.frame(st, noChange)
		})
	})
	goal("idset.new", pkMk+".NewIDSet", func(g *G) {
		g.returns(g.exec(g.newState(), pkMk+".NewIDSet"), nil, func(st *State, r Val) {
			g.oblige(g.isFresh(r), "a new set is fresh", "", valStr(r))
			g.check(st, Not(hasIn(st, asAddr(r), k)), "a new set is empty")
			g.frame(st, noChange)
		})
	})
	freshSet := func(g *G, st *State, r Val) bool {
		m, _ := st.get(asAddr(r), g.typ(pkMk, "IDSet"), "Value")
		return g.oblige(g.isFresh(r) && g.isFresh(m), "the result has storage of its own", "", valStr(r)+" "+valStr(m))
	}
	goal("idset.copy", ids("CopyNew"), func(g *G) {
		s := set(g, "s")
		g.returns(g.exec(g.newState(), ids("CopyNew"), s), nil, func(st *State, r Val) {
			freshSet(g, st, r)
			g.check(st, iff(hasIn(st, asAddr(r), k), hasIn(g.pre(st), s, k)), "the copy has the same members")
			g.frame(st, noChange)
		})
	})
	for _, same := range []bool{false, true} {
		same := same
		nm := ""
		if same {
			nm = ".self"
		}
		two := func(g *G) (*Addr, *Addr) {
			s := set(g, "s")
			if same {
				return s, s
			}
			return s, set(g, "s2")
		}
		goal("idset.union"+nm, ids("Union"), func(g *G) {
			s, s2 := two(g)
			g.returns(g.exec(g.newState(), ids("Union"), s, s2), nil, func(st *State, r Val) {
				freshSet(g, st, r)
				p := g.pre(st)
				g.check(st, iff(hasIn(st, asAddr(r), k), Or(hasIn(p, s, k), hasIn(p, s2, k))), "Union has the members of both")
				g.frame(st, noChange)
			})
		})
		goal("idset.intersection"+nm, ids("Intersection"), func(g *G) {
			s, s2 := two(g)
			g.returns(g.exec(g.newState(), ids("Intersection"), s, s2), nil, func(st *State, r Val) {
				freshSet(g, st, r)
				p := g.pre(st)
				g.check(st, iff(hasIn(st, asAddr(r), k), And(hasIn(p, s, k), hasIn(p, s2, k))), "Intersection has the common members")
				g.frame(st, noChange)
			})
		})
	}
	// key sets
	for _, ks := range []struct{ typ, elem, ctor string }{
		{"SecretKeySet", "SecretKey", "NewSecretKeySet"}, {"PublicKeySet", "PublicKey", "NewPublicKeyKeySet"},
		{"RelinearizationKeySet", "RelinearizationKey", "NewRelinearizationKeyKeySet"}, {"ConjugationKeySet", "ConjugationKey", "NewConjugationKeySet"},
	} {
		ks := ks
		m := func(n string) string { return "(*" + pkMk + "." + ks.typ + ")." + n + ks.elem }
		vmap := func(st *State, a *Addr) *MapV {
			v, _ := st.get(a, st.E.typ(pkMk, ks.typ), "Value")
			return v.(*MapV)
		}
		et := func(g *G) types.Type { return types.NewPointer(g.typ(pkMk, ks.elem)) }
		goal(ks.typ+".add", m("Add"), func(g *G) {
			s, x := g.ptr("s", pkMk, ks.typ), g.ptr("x", pkMk, ks.elem)
			g.returns(g.exec(g.newState(), m("Add"), s, x), nil, func(st *State, r Val) {
				p := g.pre(st)
				idv, _ := p.get(x, g.typ(pkMk, ks.elem), "ID")
				id := asTerm(idv)
				mp := vmap(st, s)
				g.check(st, iff(st.mapHas(mp, k), Or(p.mapHas(vmap(p, s), k), Eq(k, id))), "Add stores under the key's id")
				g.valEq(st, st.mapVal(mp, id, et(g)), x, "the stored key is the one added")
				o := st.clone()
				o.assume(Neq(k, id))
				g.valEq(o, o.mapVal(mp, k, et(g)), g.pre(o).mapVal(vmap(p, s), k, et(g)), "other keys stay")
				g.frame(st, within(s))
			})
		})
		goal(ks.typ+".del", m("Del"), func(g *G) {
			s, id := g.ptr("s", pkMk, ks.typ), str("id")
			g.returns(g.exec(g.newState(), m("Del"), s, id), nil, func(st *State, r Val) {
				p := g.pre(st)
				g.check(st, iff(st.mapHas(vmap(st, s), k), And(p.mapHas(vmap(p, s), k), Neq(k, id))), "Del removes exactly the given id")
				o := st.clone()
				o.assume(Neq(k, id))
				g.valEq(o, o.mapVal(vmap(o, s), k, et(g)), g.pre(o).mapVal(vmap(p, s), k, et(g)), "other keys stay")
				g.frame(st, within(s))
			})
		})
		goal(ks.typ+".get", m("Get"), func(g *G) {
			s, id := g.ptr("s", pkMk, ks.typ), str("id")
			g.returns(g.exec(g.newState(), m("Get"), s, id), func(st *State) *Term {
				p := g.pre(st)
				return Not(p.mapHas(vmap(p, s), id))
			}, func(st *State, r Val) {
				p := g.pre(st)
				g.valEq(st, r, p.mapVal(vmap(p, s), id, et(g)), "Get returns the stored key")
				g.frame(st, noChange)
			})
		})
		goal(ks.typ+".new", pkMk+"."+ks.ctor, func(g *G) {
			var args []Val
			if ks.typ == "RelinearizationKeySet" {
				args = append(args, g.params())
			}
			g.returns(g.exec(g.newState(), pkMk+"."+ks.ctor, args...), nil, func(st *State, r Val) {
				g.oblige(g.isFresh(r) && g.isFresh(vmap(st, asAddr(r))), "a new key set is fresh", "", valStr(r))
				g.check(st, Not(st.mapHas(vmap(st, asAddr(r)), k)), "a new key set is empty")
				g.frame(st, noChange)
			})
		})
	}
	// the scratch entries a relinearization key set holds for its parties
	addR := "(*" + pkMk + ".RelinearizationKeySet).AddRelinearizationKey"
	pools := []string{"C04", "C13", "C14"}
	addGoal(&Goal{Name: "RelinearizationKeySet.add.pools", Fn: addR, Props: pools, Run: func(g *G) {
		s, x := g.ptr("s", pkMk, "RelinearizationKeySet"), g.ptr("x", pkMk, "RelinearizationKey")
		g.returns(g.exec(g.newState(), addR, s, x), nil, func(st *State, r Val) {
			idv, _ := g.pre(st).get(x, g.typ(pkMk, "RelinearizationKey"), "ID")
			id := asTerm(idv)
			seen := map[string]bool{}
			for i := 0; i < 2; i++ {
				hp, _ := st.hoistPool(s, i)
				g.check(st, st.mapHas(hp, id), "a scratch entry exists for the key's id")
				v := asAddr(st.mapVal(hp, id, types.NewPointer(g.typ(pkMk, "SwitchingKey"))))
				g.oblige(g.isFresh(v), "the scratch entry is fresh", "", valStr(v))
				g.swkShape(st, v)
				// a polynomial of the entry belongs to it alone
				val, _ := st.get(v, g.typ(pkMk, "SwitchingKey"), "Value")
				qp := st.read(val.(*SliceV).Base.index(Num(0)), val.(*SliceV).elemT(g))
				for _, x := range qp.(*StructV).F {
					a := st.rowAddr(asAddr(x), Num(0))
					g.oblige(a.R.Kind == 'a' && !seen[a.R.ID], "the scratch entry has polynomials of its own", "", a.String())
					seen[a.R.ID] = true
				}
			}
			g.frame(st, within(s))
		})
	}})
	newR := pkMk + ".NewRelinearizationKeyKeySet"
	addGoal(&Goal{Name: "RelinearizationKeySet.new.pools", Fn: newR, Props: pools, Run: func(g *G) {
		params := g.params()
		g.returns(g.exec(g.newState(), newR, params), nil, func(st *State, r Val) {
			seen := map[string]bool{}
			for i := 0; i < 2; i++ {
				hp, _ := st.hoistPool(asAddr(r), i)
				g.oblige(g.isFresh(hp) && !seen[valStr(hp)], "a table of scratch entries of its own", "", valStr(hp))
				seen[valStr(hp)] = true
			}
			v, _ := st.get(asAddr(r), g.typ(pkMk, "RelinearizationKeySet"), "params")
			g.valEq(st, v, params, "the set keeps the parameters")
		})
	}})
	// rotation key sets: maps of maps
	rm := func(n string) string { return "(*" + pkMk + ".RotationKeySet)." + n + "RotationKey" }
	rot := str("rot")
	inner := func(st *State, a *Addr, id *Term) (*Term, *MapV) {
		v, t := st.get(a, st.E.typ(pkMk, "RotationKeySet"), "Value")
		has := st.mapHas(v.(*MapV), id)
		mt := t.Underlying().(*types.Map).Elem()
		return has, st.mapVal(v.(*MapV), id, mt).(*MapV)
	}
	rkT := func(g *G) types.Type { return types.NewPointer(g.typ(pkMk, "RotationKey")) }
	lookup := func(st *State, a *Addr, id, rt *Term) *Term {
		has, in := inner(st, a, id)
		return And(has, st.mapHas(in, rt))
	}
	goal("RotationKeySet.new", pkMk+".NewRotationKeySet", func(g *G) {
		g.returns(g.exec(g.newState(), pkMk+".NewRotationKeySet"), nil, func(st *State, r Val) {
			g.check(st, Not(lookupOuter(st, asAddr(r), k)), "a new key set is empty")
			g.oblige(g.isFresh(r), "a new key set is fresh", "", valStr(r))
			g.frame(st, noChange)
		})
	})
	goal("RotationKeySet.add", rm("Add"), func(g *G) {
		s, x := g.ptr("s", pkMk, "RotationKeySet"), g.ptr("x", pkMk, "RotationKey")
		g.returns(g.exec(g.newState(), rm("Add"), s, x), nil, func(st *State, r Val) {
			p := g.pre(st)
			idv, _ := p.get(x, g.typ(pkMk, "RotationKey"), "ID")
			rv, _ := p.get(x, g.typ(pkMk, "RotationKey"), "RotIdx")
			id, ri := asTerm(idv), asTerm(rv)
			for _, b := range []bool{true, false} {
				o := st.clone()
				if b {
					o.assume(Eq(k, id))
				} else {
					o.assume(Neq(k, id))
				}
				g.branch(o, func(o *State) {
					p := g.pre(o)
					g.check(o, iff(lookup(o, s, k, rot), Or(lookup(p, s, k, rot), And(Eq(k, id), Eq(rot, ri)))), "Add stores under the key's id and rotation")
					q := o.clone()
					q.assume(lookup(o, s, k, rot))
					g.branch(q, func(q *State) {
						_, in := inner(q, s, k)
						v := q.mapVal(in, rot, rkT(g))
						if b {
							if q.cond(Eq(rot, ri)) {
								g.valEq(q, v, x, "the stored key is the one added")
								return
							}
						}
						pp := g.pre(q)
						_, pin := inner(pp, s, k)
						g.valEq(q, v, pp.mapVal(pin, rot, rkT(g)), "other keys stay")
					})
				})
			}
			g.frame(st, within(s))
		})
	})
	goal("RotationKeySet.del", rm("Del"), func(g *G) {
		s, id, ri := g.ptr("s", pkMk, "RotationKeySet"), str("id"), str("ri")
		st := g.newState()
		st.addFact(Ge(ri, Num(0)))
		g.returns(g.exec(st, rm("Del"), s, id, ri), nil, func(st *State, r Val) {
			p := g.pre(st)
			g.check(st, iff(lookup(st, s, k, rot), And(lookup(p, s, k, rot), Or(Neq(k, id), Neq(rot, ri)))), "Del removes exactly the given key")
			g.frame(st, within(s))
		})
	})
	goal("RotationKeySet.get", rm("Get"), func(g *G) {
		s, id, ri := g.ptr("s", pkMk, "RotationKeySet"), str("id"), str("ri")
		st := g.newState()
		st.addFact(Ge(ri, Num(0)))
		g.returns(g.exec(st, rm("Get"), s, id, ri), func(st *State) *Term {
			return Not(lookup(g.pre(st), s, id, ri))
		}, func(st *State, r Val) {
			p := g.pre(st)
			_, in := inner(p, s, id)
			g.valEq(st, r, p.mapVal(in, ri, rkT(g)), "Get returns the stored key")
			g.frame(st, noChange)
		})
	})
	// ciphertexts
	ctm := func(n string) string { return "(*" + pkMk + ".Ciphertext)." + n }
	goal("ct.idset", ctm("IDSet"), func(g *G) {
		ct := g.ptr("ct", pkMk, "Ciphertext")
		g.returns(g.exec(g.newState(), ctm("IDSet"), ct), nil, func(st *State, r Val) {
			freshSet(g, st, r)
			g.check(st, iff(hasIn(st, asAddr(r), k), And(g.pre(st).ctHas(ct, k), Neq(k, zeroID))), "the parties are exactly the non-constant components")
			g.frame(st, noChange)
		})
	})
	goal("ct.level", ctm("Level"), func(g *G) {
		ct := g.ptr("ct", pkMk, "Ciphertext")
		g.returns(g.exec(g.newState(), ctm("Level"), ct), nil, func(st *State, r Val) {
			g.check(st, Eq(asTerm(r), g.lvlOf(ct)), "Level is the number of moduli minus one")
			g.frame(st, noChange)
		})
	})
	for _, ntt := range []bool{false, true} {
		ntt := ntt
		fn, nm := pkMk+".NewCiphertext", "ct.new"
		if ntt {
			fn, nm = pkMk+".NewCiphertextNTT", "ct.newNTT"
		}
		goal(nm, fn, func(g *G) {
			s, lvl := set(g, "s"), str("lvl")
			st := g.newState()
			st.addFact(And(Ge(lvl, Num(0)), Lt(lvl, symNQ)))
			g.returns(g.exec(st, fn, g.params(), s, lvl), nil, func(st *State, r Val) {
				ct := asAddr(r)
				g.check(st, iff(st.ctHas(ct, k), Or(Eq(k, zeroID), hasIn(g.pre(st), s, k))), "one component per party and the constant one")
				g.freshZeroCt(st, ct, lvl, ntt)
				g.frame(st, noChange)
			})
		})
	}
	goal("ct.copynew", ctm("CopyNew"), func(g *G) {
		ct := g.ptrTag("ct", pkMk, "Ciphertext", "ntt?")
		g.returns(g.exec(g.newState(), ctm("CopyNew"), ct), nil, func(st *State, r Val) {
			g.sameCt(st, asAddr(r), ct)
			g.frame(st, noChange)
		})
	})
	goal("ckks.ct.copynew", "(*"+pkMc+".Ciphertext).CopyNew", func(g *G) {
		ct := g.ptrTag("ct", pkMc, "Ciphertext", "ntt?")
		g.returns(g.exec(g.newState(), "(*"+pkMc+".Ciphertext).CopyNew", ct), nil, func(st *State, r Val) {
			sc, _ := st.get(asAddr(r), g.typ(pkMc, "Ciphertext"), "Scale")
			p := g.pre(st)
			sc0, _ := p.get(ct, g.typ(pkMc, "Ciphertext"), "Scale")
			g.check(st, Eq(asTerm(sc), asTerm(sc0)), "the copy has the same scale")
			g.oblige(g.isFresh(r), "the copy is fresh", "", valStr(r))
			g.sameCt(st, st.innerCt(asAddr(r)), p.innerCt(ct))
			g.frame(st, noChange)
		})
	})
	goal("ckks.ct.new", pkMc+".NewCiphertext", func(g *G) {
		s, lvl, sc := set(g, "s"), str("lvl"), Sym("sc", SReal)
		st := g.newState()
		st.addFact(And(Ge(lvl, Num(0)), Lt(lvl, symNQ)))
		g.returns(g.exec(st, pkMc+".NewCiphertext", g.cparams(), s, lvl, sc), nil, func(st *State, r Val) {
			g.oblige(g.isFresh(r), "the ciphertext is fresh", "", valStr(r))
			ct := st.innerCt(asAddr(r))
			g.check(st, iff(st.ctHas(ct, k), Or(Eq(k, zeroID), hasIn(g.pre(st), s, k))), "one component per party and the constant one")
			g.freshZeroCt(st, ct, lvl, false)
			v, _ := st.get(asAddr(r), g.typ(pkMc, "Ciphertext"), "Scale")
			g.check(st, Eq(asTerm(v), sc), "the given scale")
			g.frame(st, noChange)
		})
	})
	goal("ckks.ct.setscale", "(*"+pkMc+".Ciphertext).SetScalingFactor", func(g *G) {
		ct, sc := g.ptr("ct", pkMc, "Ciphertext"), Sym("sc", SReal)
		get := "(*" + pkMc + ".Ciphertext).ScalingFactor"
		g.returns(g.exec(g.newState(), "(*"+pkMc+".Ciphertext).SetScalingFactor", ct, sc), nil, func(st *State, _ Val) {
			f, _ := g.fieldAddr(ct, g.typ(pkMc, "Ciphertext"), "Scale")
			v, _ := st.get(ct, g.typ(pkMc, "Ciphertext"), "Scale")
			g.check(st, Eq(asTerm(v), sc), "the scale is set")
			g.frame(st, func(a *Addr) *Term { return boolT(a.String() == f.String()) })
			for _, o := range g.exec(st, get, ct) {
				g.check(o.St, Eq(asTerm(o.Val), sc), "the scale is read back")
			}
		})
	})
	addGoal(&Goal{Name: "ckks.msg.new", Fn: pkMc + ".NewMessage", Props: []string{"C01"}, Run: func(g *G) {
		slots := "(*" + pkMc + ".Message).Slots"
		g.returns(g.exec(g.newState(), pkMc+".NewMessage", g.cparams()), nil, func(st *State, r Val) {
			v, _ := st.get(asAddr(r), g.typ(pkMc, "Message"), "Value")
			s := v.(*SliceV)
			g.oblige(g.isFresh(r) && g.isFresh(v), "the message is fresh", "", valStr(v))
			g.check(st, Eq(s.Len, Pow2(symLogS)), "one value per slot")
			for _, o := range g.exec(st, slots, asAddr(r)) {
				g.check(o.St, Eq(asTerm(o.Val), s.Len), "Slots is the number of values")
			}
			g.frame(st, noChange)
		})
	}})
	goal("ct.copy", ctm("Copy"), func(g *G) {
		el, ct := g.ptrTag("el", pkMk, "Ciphertext", "ntt?"), g.ptrTag("ct", pkMk, "Ciphertext", "ntt?")
		st := g.newState()
		// the receiver has the components of the source
		g.Rules = append(g.Rules, ctSubset(ct, el))
		g.returns(g.exec(st, ctm("Copy"), el, ct), nil, func(st *State, r Val) {
			p := g.pre(st)
			g.check(st, iff(st.ctHas(el, k), p.ctHas(el, k)), "components are neither added nor removed")
			o := st.clone()
			o.assume(p.ctHas(ct, k))
			g.branch(o, func(o *State) {
				pp := g.pre(o)
				lv := Min(g.lvlOf(el), g.lvlOf(ct))
				x, nx := o.ctRow(el, k, lv)
				y, ny := pp.ctRow(ct, k, lv)
				g.rowIs(o, x, y.Dom, y.RP, []*Term{Ge(ROW, Num(0)), Le(ROW, lv)}, "components are copied")
				g.valEq(o, nx, ny, "representation flag is copied")
			})
			g.frame(st, func(a *Addr) *Term {
				// components of the source's parties, up to the common level
				kk := lastKey(a)
				if kk == nil {
					return nil
				}
				return And(within(el)(a), p.ctHas(ct, kk))
			})
		})
	})
	goal("ct.pad", ctm("PadCiphertext"), func(g *G) {
		ct, s := g.ptrTag("ct", pkMk, "Ciphertext", "ntt?"), set(g, "s")
		g.returns(g.exec(g.newState(), ctm("PadCiphertext"), ct, s), nil, func(st *State, r Val) {
			p := g.pre(st)
			g.check(st, iff(st.ctHas(ct, k), Or(p.ctHas(ct, k), hasIn(p, s, k))), "exactly the missing ids are added")
			o := st.clone()
			o.assume(And(hasIn(p, s, k), Not(p.ctHas(ct, k))))
			g.branch(o, func(o *State) {
				lv := g.lvlOf(ct)
				x, n := o.ctRow(ct, k, lv)
				g.rowIs(o, x, 'Z', rpZero, []*Term{Ge(ROW, Num(0)), Le(ROW, lv)}, "padding is zero")
				pp := g.pre(o)
				_, n0 := pp.ctRow(ct, zeroID, lv)
				g.valEq(o, n, n0, "padding has the representation of the ciphertext")
				a := o.ctPoly(ct, k)
				g.oblige(g.isFresh(a), "padding has storage of its own", "", valStr(a))
				g.check(o, Eq(o.polyLevel(a), lv), "padding has the level of the ciphertext")
			})
			g.frame(st, func(a *Addr) *Term {
				kk := lastKey(a)
				if kk == nil {
					return nil
				}
				return And(within(ct)(a), Not(p.ctHas(ct, kk)))
			})
		})
	})
	// keys
	for _, kt := range []string{"SecretKey", "PublicKey"} {
		kt := kt
		fn := "(*" + pkMk + "." + kt + ").CopyNew"
		goal(kt+".copynew", fn, func(g *G) {
			x := g.ptr("x", pkMk, kt)
			g.returns(g.exec(g.newState(), fn, x), nil, func(st *State, r Val) {
				p := g.pre(st)
				t := g.typ(pkMk, kt)
				id1, _ := st.get(asAddr(r), t, "ID")
				id0, _ := p.get(x, t, "ID")
				g.valEq(st, id1, id0, "the copy has the same id")
				g.oblige(g.isFresh(r), "the copy is fresh", "", valStr(r))
				v1, vt := st.get(asAddr(r), t, kt, "Value")
				v0, _ := p.get(x, t, kt, "Value")
				polys := func(v Val) []Val {
					s := v.(*StructV)
					if _, ok := vt.Underlying().(*types.Array); ok {
						return append(append([]Val{}, s.F[0].(*StructV).F...), s.F[1].(*StructV).F...)
					}
					return s.F
				}
				a1, a0 := polys(v1), polys(v0)
				for i := range a1 {
					g.samePoly(st, asAddr(a1[i]), p, asAddr(a0[i]), true)
				}
				g.frame(st, noChange)
			})
		})
		goal(kt+".copynew.nil", fn, func(g *G) {
			g.returns(g.exec(g.newState(), fn, nilAddr()), nil, func(st *State, r Val) {
				g.oblige(asAddr(r).Nil, "a nil key copies to nil", "", valStr(r))
			})
		})
	}
}

func lookupOuter(st *State, a *Addr, id *Term) *Term {
	v, _ := st.get(a, st.E.typ(pkMk, "RotationKeySet"), "Value")
	return st.mapHas(v.(*MapV), id)
}

// ---- ciphertext access in specifications (through the memory of the state)

func (st *State) innerCt(a *Addr) *Addr {
	v, _ := st.get(a, st.E.typ(pkMc, "Ciphertext"), "Ciphertext")
	return asAddr(v)
}

func (st *State) ctMap(ct *Addr) *MapV {
	v, _ := st.get(ct, st.E.typ(pkMk, "Ciphertext"), "Value")
	return v.(*MapV)
}

func (st *State) ctHas(ct *Addr, k *Term) *Term { return st.mapHas(st.ctMap(ct), k) }

func (st *State) ctPoly(ct *Addr, k *Term) *Addr {
	return asAddr(st.mapVal(st.ctMap(ct), k, types.NewPointer(st.E.typ(pkRing, "Poly"))))
}

// ctRow: rows 0..lvl of component k, and its representation flag
func (st *State) ctRow(ct *Addr, k, lvl *Term) (*RowV, Val) {
	p := st.ctPoly(ct, k)
	return st.readPoly(p, lvl), st.readLeaf(p.field(1, "IsNTT"), tBool)
}

func (st *State) hoistPool(s *Addr, i int) (*MapV, types.Type) {
	g := &G{Engine: st.E}
	fa, ft := g.fieldAddr(s, st.E.typ(pkMk, "RelinearizationKeySet"), "HoistPool")
	el := ft.Underlying().(*types.Array).Elem()
	h := asAddr(st.read(arrayElem(fa, ft, Num(int64(i))), el))
	v, t := st.get(h, st.E.typ(pkMk, "HoistedCiphertext"), "Value")
	return v.(*MapV), t
}

// params: the parameter object passed by value
func (g *G) params() Val {
	st := g.newState()
	return st.read(g.ptr("params", pkMk, "Parameters"), g.typ(pkMk, "Parameters"))
}

// swkShape: a switching key with one full pair of polynomials for every digit
func (g *G) swkShape(st *State, a *Addr) {
	t := g.typ(pkMk, "SwitchingKey")
	v, vt := st.get(a, t, "Value")
	s := v.(*SliceV)
	g.check(st, Eq(s.Len, g.betaOf(Sub(symNQ, Num(1)))), "one entry per digit")
	i := Fresh("i", SInt)
	o := st.clone()
	o.assume(And(Ge(i, Num(0)), Lt(i, s.Len)))
	g.branch(o, func(o *State) {
		el := vt.Underlying().(*types.Slice).Elem()
		qp := o.read(s.Base.index(Add(s.Off, i)), el).(*StructV)
		g.check(o, Eq(o.polyRows(asAddr(qp.F[0])).Len, symNQ), "all moduli of Q")
		g.check(o, Eq(o.polyRows(asAddr(qp.F[1])).Len, symNP), "all moduli of P")
	})
}

// freshZeroCt: every component is fresh, zero, of the given level and flag
func (g *G) freshZeroCt(st *State, ct *Addr, lvl *Term, ntt bool) {
	g.oblige(g.isFresh(ct) && g.isFresh(st.ctMap(ct)), "the ciphertext is fresh", "", valStr(ct))
	k := str("k")
	o := st.clone()
	o.assume(st.ctHas(ct, k))
	g.branch(o, func(o *State) {
		p := o.ctPoly(ct, k)
		g.oblige(g.isFresh(p), "components have storage of their own", "", valStr(p))
		g.check(o, Eq(o.polyLevel(p), lvl), "components have the requested level")
		x, n := o.ctRow(ct, k, lvl)
		g.rowIs(o, x, 'Z', rpZero, []*Term{Ge(ROW, Num(0)), Le(ROW, lvl)}, "components are zero")
		want := False
		if ntt {
			want = True
		}
		g.valEq(o, n, want, "representation flag")
		g.distinctPolys(o, ct, k)
	})
}

// distinctPolys: component k does not share storage with another component
func (g *G) distinctPolys(o *State, ct *Addr, k *Term) {
	k2 := str("k2")
	q := o.clone()
	q.assume(And(q.ctHas(ct, k2), Neq(k, k2)))
	g.branch(q, func(q *State) {
		a, b := q.ctPoly(ct, k), q.ctPoly(ct, k2)
		ra, rb := q.rowAddr(a, Num(0)), q.rowAddr(b, Num(0))
		ok := ra.Skel() != rb.Skel()
		if !ok {
			eq := True
			x, y := ra.Args(), rb.Args()
			for i := range x {
				eq = And(eq, Eq(x[i], y[i]))
			}
			ok = q.valid(Not(eq))
		}
		g.oblige(ok, "components do not share storage", "", valStr(ra)+" / "+valStr(rb))
	})
}

// sameCt: r is a deep copy of the pre-state ciphertext ct
func (g *G) sameCt(st *State, r, ct *Addr) {
	k := str("k")
	p := g.pre(st)
	g.oblige(g.isFresh(r) && g.isFresh(st.ctMap(r)), "the copy is fresh", "", valStr(r))
	g.check(st, And(Implies(st.ctHas(r, k), p.ctHas(ct, k)), Implies(p.ctHas(ct, k), st.ctHas(r, k))), "the copy has the same parties")
	o := st.clone()
	o.assume(p.ctHas(ct, k))
	g.branch(o, func(o *State) {
		g.samePoly(o, o.ctPoly(r, k), g.pre(o), g.pre(o).ctPoly(ct, k), true)
		g.distinctPolys(o, r, k)
	})
}

// samePoly: polynomial a of st equals polynomial b of p and, if own, has fresh storage
func (g *G) samePoly(st *State, a *Addr, p *State, b *Addr, own bool) {
	lv := p.polyLevel(b)
	g.check(st, Eq(st.polyLevel(a), lv), "same level")
	x, y := st.readPoly(a, lv), p.readPoly(b, lv)
	t := rowIndexFor(p.polyIsP(b))
	g.rowIs(st, x, y.Dom, y.RP, []*Term{Ge(t, Num(0)), Le(t, lv)}, "same content")
	g.oblige(st.polyIsP(a) == p.polyIsP(b), "same ring", "", "")
	for i, f := range []string{"IsNTT", "IsMForm"} {
		g.valEq(st, st.readLeaf(a.field(i+1, f), tBool), p.readLeaf(b.field(i+1, f), tBool), "same "+f)
	}
	if own {
		r := st.rowAddr(a, Num(0))
		g.oblige(g.isFresh(a) && r.R.Kind == 'a', "storage of its own", "", valStr(a))
	}
}

// ctSubset: every component of a is one of b
func ctSubset(a, b *Addr) func(app *Term) []*Term {
	pa := "has0|" + a.Skel()
	return func(t *Term) []*Term {
		if t.Op == OpApp && len(t.Name) > len(pa) && t.Name[:len(pa)] == pa {
			u := App("has0|"+b.Skel()+t.Name[len(pa):], SBool, t.Args...)
			return []*Term{Implies(t, u)}
		}
		return nil
	}
}

package main

import "go/types"

func (st *State) paramCRS(a *Addr) *MapV {
	v, _ := st.get(a, st.E.typ(pkMk, "Parameters"), "CRS")
	return v.(*MapV)
}

// freshCRS: the reference string k of m is complete, fresh and uniform in every digit and modulus
func (g *G) freshCRS(st *State, m *MapV, k *Term, among bool) {
	key := asAddr(st.mapVal(m, k, types.NewPointer(g.typ(pkMk, "SwitchingKey"))))
	g.oblige(g.isFresh(key), "the reference string has storage of its own", "", valStr(key))
	g.swkShape(st, key)
	v, vt := st.get(key, g.typ(pkMk, "SwitchingKey"), "Value")
	s := v.(*SliceV)
	i := Fresh("i", SInt)
	o := st.clone()
	o.assume(And(Ge(i, Num(0)), Lt(i, s.Len)))
	g.branch(o, func(o *State) {
		el := vt.Underlying().(*types.Slice).Elem()
		qp := o.read(s.Base.index(Add(s.Off, i)), el).(*StructV)
		for n, f := range qp.F {
			p := asAddr(f)
			row := o.readPoly(p, o.polyLevel(p))
			c, ok := row.RP.single()
			uni := false
			if ok {
				for _, f := range c.F {
					if isUniformAtom(f.A) && f.E == 1 {
						uni = true
					} else if f.A.Kind != "R" {
						ok = false
					}
				}
			}
			ring := "Q"
			if n == 1 {
				ring = "P"
			}
			g.oblige(ok && uni && o.polyIsP(p) == (n == 1), "uniform content modulo "+ring, "", clip(valStr(row)))
			if ok && uni {
				ix := []*Term{i}
				if among {
					ix = append(ix, k)
				}
				g.ownDraw(o, c, ix, "digits and strings are drawn independently ("+ring+")")
			}
		}
	})
}

func isUniformAtom(a *Atom) bool { return len(a.Kind) > 5 && a.Kind[:5] == "unif|" }

// ownDraw: the draws of different instances (values of the given indices) are different draws
func (g *G) ownDraw(st *State, c Comp, idx []*Term, what string) {
	ren := Subst{}
	diff := False
	for _, x := range idx {
		if x.Op != OpSym {
			continue
		}
		y := Fresh("y", x.Sort)
		ren[x.Name] = y
		diff = Or(diff, Neq(x, y))
	}
	q := st.clone()
	for _, p := range st.PCs {
		q.addFact(p.T.Sub(ren))
	}
	same := True
	for _, f := range c.F {
		if f.A.Kind == "R" {
			continue
		}
		b := f.A.Sub(ren)
		for i := range f.A.Args {
			same = And(same, Eq(f.A.Args[i], b.Args[i]))
		}
	}
	q.addFact(diff)
	g.oblige(q.sat(), what+" (vacuity guard)", "", "")
	g.oblige(q.valid(Not(same)), what, "", clip(mkRP([]Comp{c}).key))
}

func init() {
	p16 := []string{"C16"}
	goal := func(name, fn string, run func(g *G)) {
		ps := p16
		if name == "params.alpha" || name == "params.gamma" || name == "params.beta" {
			ps = []string{"C16", "C12"}
		}
		addGoal(&Goal{Name: name, Fn: fn, Props: ps, Run: run})
	}
	pm := func(n string) string { return "(" + pkMk + ".Parameters)." + n }
	goal("params.alpha", pm("Alpha"), func(g *G) {
		g.returns(g.exec(g.newState(), pm("Alpha"), g.params()), nil, func(st *State, r Val) {
			g.check(st, Eq(asTerm(r), symAlpha), "the digit size is the number of auxiliary moduli divided by the ratio")
			g.frame(st, noChange)
		})
	})
	goal("params.gamma", pm("Gamma"), func(g *G) {
		g.returns(g.exec(g.newState(), pm("Gamma"), g.params()), nil, func(st *State, r Val) {
			g.check(st, Eq(asTerm(r), symGamma), "the configured ratio")
			g.frame(st, noChange)
		})
	})
	goal("params.beta", pm("Beta"), func(g *G) {
		st := g.newState()
		l := str("l")
		st.addFact(And(Ge(l, Num(0)), Lt(l, symNQ)))
		g.returns(g.exec(st, pm("Beta"), g.params(), l), nil, func(st *State, r Val) {
			b := asTerm(r)
			g.check(st, Ge(Mul(b, symAlpha), Add(l, Num(1))), "the digits cover all active moduli")
			g.check(st, Lt(Mul(Sub(b, Num(1)), symAlpha), Add(l, Num(1))), "no digit is empty")
			g.check(st, Eq(b, g.betaOf(l)), "number of digits")
			g.frame(st, noChange)
		})
	})
	goal("params.new", pkMk+".NewParameters", func(g *G) {
		st := g.newState()
		k := str("k")
		g.returns(g.exec(st, pkMk+".NewParameters", o("rlweParams"), symGamma), nil, func(st *State, r Val) {
			s := r.(*StructV)
			var m *MapV
			tt := s.T
			if tt == nil {
				tt = g.typ(pkMk, "Parameters")
			}
			tp := tt.Underlying().(*types.Struct)
			for i := 0; i < tp.NumFields(); i++ {
				switch tp.Field(i).Name() {
				case "gamma":
					g.check(st, Eq(asTerm(s.F[i]), symGamma), "the ratio is kept")
				case "CRS":
					m = s.F[i].(*MapV)
				case "Parameters":
					g.oblige(valStr(s.F[i]) == valStr(o("rlweParams")), "the parameters are kept", "", valStr(s.F[i]))
				}
			}
			g.oblige(g.isFresh(m), "a fresh set of reference strings", "", valStr(m))
			for _, n := range []int64{0, -1, -2, -3, -4} {
				g.check(st, st.mapHas(m, Num(n)), "default reference strings exist")
			}
			e := Fresh("e", SInt)
			o := st.clone()
			o.assume(And(Ge(e, Num(0)), Lt(e, Sub(symLogN, Num(1)))))
			g.check(o, o.mapHas(m, Pow2(e)), "a reference string for every power of two")
			o = st.clone()
			o.assume(st.mapHas(m, k))
			g.branch(o, func(o *State) {
				g.freshCRS(o, m, k, true)
			})
			g.frame(st, noChange)
		})
	})
	goal("params.addcrs", "(*"+pkMk+".Parameters).AddCRS", func(g *G) {
		st := g.newState()
		p, k, idx := g.ptr("params", pkMk, "Parameters"), str("k"), str("idx")
		g.returns(g.exec(st, "(*"+pkMk+".Parameters).AddCRS", p, idx), nil, func(st *State, r Val) {
			pr := g.pre(st)
			m := st.paramCRS(p)
			g.check(st, And(Implies(st.mapHas(m, k), Or(pr.mapHas(m, k), Eq(k, idx))), Implies(Or(pr.mapHas(m, k), Eq(k, idx)), st.mapHas(m, k))), "exactly the requested string is added")
			g.freshCRS(st, m, idx, false)
			g.frame(st, func(a *Addr) *Term {
				kk := lastKey(a)
				if kk == nil || a.R != m.A.R {
					return nil
				}
				return Eq(kk, idx)
			})
		})
	})
	goal("ckks.params.new", pkMc+".NewParameters", func(g *G) {
		st := g.newState()
		st.addFact(Eq(symGamma, Num(2)))
		g.returns(g.exec(st, pkMc+".NewParameters", o("ckksParams")), nil, func(st *State, r Val) {
			s := r.(*StructV)
			tp := g.typ(pkMc, "Parameters").Underlying().(*types.Struct)
			for i := 0; i < tp.NumFields(); i++ {
				switch tp.Field(i).Name() {
				case "logSlots":
					g.check(st, Eq(asTerm(s.F[i]), symLogS), "number of slots")
				case "scale":
					g.check(st, Eq(asTerm(s.F[i]), symScale), "default scale")
				case "Parameters":
					in := s.F[i].(*StructV)
					ip := g.typ(pkMk, "Parameters").Underlying().(*types.Struct)
					for j := 0; j < ip.NumFields(); j++ {
						if ip.Field(j).Name() == "gamma" {
							g.check(st, Ge(asTerm(in.F[j]), Num(1)), "a positive ratio")
						}
					}
				}
			}
			g.frame(st, noChange)
		})
	})
	cm := func(n string) string { return "(" + pkMc + ".Parameters)." + n }
	cparams := func(g *G) Val {
		st := g.newState()
		return st.read(g.ptr("params", pkMc, "Parameters"), g.typ(pkMc, "Parameters"))
	}
	for _, a := range []struct {
		n string
		v *Term
	}{{"Scale", symScale}, {"LogSlots", symLogS}, {"Slots", Pow2(symLogS)}} {
		a := a
		goal("ckks.params."+a.n, cm(a.n), func(g *G) {
			g.returns(g.exec(g.newState(), cm(a.n), cparams(g)), nil, func(st *State, r Val) {
				g.check(st, Eq(asTerm(r), a.v), a.n)
				g.frame(st, noChange)
			})
		})
	}
}

package main

import "go/types"

func ksm(n string) string { return "(*" + pkMk + ".KeySwitcher)." + n }

const fnSplit = "(*" + pkMk + ".Decomposer).DecomposeAndSplit"

func init() {
	// DecomposeAndSplit(levelQ, levelP, alpha, i, gamma, a, outQ, outP): digit i
	// of a in all active moduli of Q and in all moduli of P (C12).
	allContracts[fnSplit] = &Contract{Fn: fnSplit, Apply: func(e *Engine, st *State, args []Val, site string) []Outcome {
		lQ, lP, al, i, ga := asTerm(args[1]), asTerm(args[2]), asTerm(args[3]), asTerm(args[4]), asTerm(args[5])
		a, oq, op := polyArg(args[6]), polyArg(args[7]), polyArg(args[8])
		in := st.readPoly(a, lQ)
		ok := st.valid(And(Eq(al, symAlpha), Eq(ga, symGamma), Eq(lP, Sub(symNP, Num(1))), Ge(i, Num(0)), Lt(i, e.betaOf(lQ)), Lt(lQ, symNQ))) &&
			!st.polyIsP(a) && !st.polyIsP(oq) && st.polyIsP(op) && (in.Dom == 'C' || in.Dom == 'Z') && a.String() != oq.String()
		if !ok {
			bad := badRow("decompose", in)
			st.writePoly(oq, lQ, bad)
			st.writePoly(op, lP, bad)
			return []Outcome{{St: st}}
		}
		d := &RowV{'C', decAtom(i, lQ, in.RP)}
		if in.RP.IsZero() {
			d = &RowV{'Z', rpZero}
		}
		st.writePoly(oq, lQ, d)
		st.writePoly(op, lP, d)
		return []Outcome{{St: st}}
	}}
}

func (g *G) ksp() *Addr { return g.ptr("ks", pkMk, "KeySwitcher") }

// digitRows: the rows of digit i of a switching key
func (g *G) digitRows(o *State, key *Addr, i, lvl *Term) [2]*RowV {
	v, vt := o.get(key, g.typ(pkMk, "SwitchingKey"), "Value")
	s := v.(*SliceV)
	el := vt.Underlying().(*types.Slice).Elem()
	qp := o.read(s.Base.index(Add(s.Off, i)), el).(*StructV)
	return [2]*RowV{o.readPoly(asAddr(qp.F[0]), lvl), o.readPoly(asAddr(qp.F[1]), Sub(symNP, Num(1)))}
}

func init() {
	uses := []string{fnSplit}
	goal := func(name, fn string, props []string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: props, Uses: uses, Run: run})
	}
	pk := []string{"C04", "C05", "C06", "C07"}
	for _, ntt := range []bool{false, true} {
		ntt := ntt
		nm := ""
		tag := ""
		if ntt {
			nm, tag = ".ntt", "N"
		}
		goal("ksw.Decompose"+nm, ksm("Decompose"), append([]string{"C12"}, pk...), func(g *G) {
			ks, a, ad := g.ksp(), g.ptrTag("a", pkRing, "Poly", tag), g.ptr("ad", pkMk, "SwitchingKey")
			st := g.newState()
			l := Sym("levelQ", SInt)
			st.addFact(And(Ge(l, Num(0)), Le(l, st.polyLevel(a)), Lt(l, symNQ)))
			n := asTerm(st.readLeaf(a.field(1, "IsNTT"), tBool))
			if !ntt {
				n = Not(n)
			}
			st.addFact(n)
			g.returns(g.exec(st, ksm("Decompose"), ks, l, a, ad), nil, func(st *State, r Val) {
				p := g.pre(st)
				in := p.readPoly(a, l)
				i := str("digit")
				o := st.clone()
				o.assume(And(Ge(i, Num(0)), Lt(i, g.betaOf(l))))
				g.branch(o, func(o *State) {
					rows := g.digitRows(o, ad, i, l)
					g.rowIs(o, rows[0], 'N', decAtom(i, l, in.RP), upTo(l), "digit i modulo Q")
					g.rowIs(o, rows[1], 'N', decAtom(i, l, in.RP), rowRange[1], "digit i modulo P")
				})
				g.frame(st, within(ad))
			})
		})
	}
	for _, ntt := range []bool{false, true} {
		ntt := ntt
		nm := ""
		tag := ""
		if ntt {
			nm, tag = ".ntt", "N"
		}
		goal("ksw.ExternalProduct"+nm, ksm("ExternalProduct"), pk, func(g *G) {
			ks, a, bg, c := g.ksp(), g.ptrTag("a", pkRing, "Poly", tag), g.ptr("bg", pkMk, "SwitchingKey"), g.ptr("c", pkRing, "Poly")
			st := g.newState()
			l := Sym("levelQ", SInt)
			st.addFact(And(Ge(l, Num(0)), Le(l, st.polyLevel(a)), Le(l, st.polyLevel(c)), Lt(l, symNQ)))
			n := asTerm(st.readLeaf(a.field(1, "IsNTT"), tBool))
			if !ntt {
				n = Not(n)
			}
			st.addFact(n)
			g.returns(g.exec(st, ksm("ExternalProduct"), ks, l, a, bg, c), nil, func(st *State, r Val) {
				p := g.pre(st)
				in := p.readPoly(a, l)
				g.extProduct(st, l, func(i *Term) *RP { return decAtom(i, l, in.RP) }, func(i *Term) *RP { return g.digitRows(p, bg, i, l)[0].RP }, c)
				g.frame(st, rowsUpTo(c, l))
			})
		})
	}
	goal("ksw.ExternalProductHoisted", ksm("ExternalProductHoisted"), pk, func(g *G) {
		ks, a, bg, c := g.ksp(), g.ptr("ah", pkMk, "SwitchingKey"), g.ptr("bg", pkMk, "SwitchingKey"), g.ptr("c", pkRing, "Poly")
		st := g.newState()
		l := Sym("levelQ", SInt)
		st.addFact(And(Ge(l, Num(0)), Le(l, st.polyLevel(c)), Lt(l, symNQ)))
		g.returns(g.exec(st, ksm("ExternalProductHoisted"), ks, l, a, bg, c), nil, func(st *State, r Val) {
			p := g.pre(st)
			f := func(k *Addr) func(i *Term) *RP { return func(i *Term) *RP { return g.digitRows(p, k, i, l)[0].RP } }
			g.extProduct(st, l, f(a), f(bg), c)
			g.frame(st, rowsUpTo(c, l))
		})
	})
}

// extProduct: c is the sum over the digits of a_i * b_i, divided by P (and by R) up to rounding
func (g *G) extProduct(st *State, l *Term, a, b func(i *Term) *RP, c *Addr) {
	i := Fresh("i", SInt)
	sum := rpSum(i, And(Ge(i, Num(0)), Lt(i, g.betaOf(l))), rpMul(a(i), b(i)))
	want := rpMul(rpP(-1), rpMul(rpR(-1), sum))
	got := st.readPoly(c, l)
	g.oblige(got.Dom == 'C', "the result is in coefficient representation", "", string(got.Dom))
	g.noiseOnly(st, rpSub(got.RP, want), upTo(l), "the result is the external product up to rounding")
}

func rowsUpTo(c *Addr, l *Term) func(a *Addr) *Term {
	return func(a *Addr) *Term {
		if a.R != c.R || !isRowAddr(a) {
			return nil
		}
		return Le(ROW, l)
	}
}

const fnExt, fnExtH, fnDecompose = "(*" + pkMk + ".KeySwitcher).ExternalProduct", "(*" + pkMk + ".KeySwitcher).ExternalProductHoisted", "(*" + pkMk + ".KeySwitcher).Decompose"

// ksBuffers: the inherited scratch polynomials of a key switcher
func ksBuffers(st *State, ks *Addr) (qp [2]*StructV, inv *Addr) {
	t := st.E.typ(pkMk, "KeySwitcher")
	g := &G{Engine: st.E}
	b, bt := g.fieldAddr(ks, t, "KeySwitcher", "keySwitcherBuffer")
	bv := asAddr(st.read(b, bt))
	be := bt.Underlying().(*types.Pointer).Elem()
	pa, pt := g.fieldAddr(bv, be, "Pool")
	el := pt.Underlying().(*types.Array).Elem()
	for i := range qp {
		qp[i] = st.read(arrayElem(pa, pt, Num(int64(i))), el).(*StructV)
	}
	v, _ := st.get(bv, be, "PoolInvNTT")
	return qp, asAddr(v)
}

func (st *State) havocPoly(p *Addr, site string) {
	st.writePoly(p, st.polyLevel(p), &RowV{'?', st.freshAtom("junk", site)})
}

func inBuffers(st *State, ks *Addr, ps ...*Addr) bool {
	qp, inv := ksBuffers(st, ks)
	bad := map[string]bool{inv.Skel(): true}
	for _, q := range qp {
		bad[asAddr(q.F[0]).Skel()] = true
		bad[asAddr(q.F[1]).Skel()] = true
	}
	for _, p := range ps {
		if bad[p.Skel()] {
			return true
		}
	}
	return false
}

// coefInput: the content of a polynomial whose flag tells its representation
func coefInput(st *State, a *Addr, l *Term) (*RowV, bool) {
	in := st.readPoly(a, l)
	ntt := st.cond(asTerm(st.readLeaf(a.field(1, "IsNTT"), tBool)))
	return in, in.Dom == 'Z' || ntt && in.Dom == 'N' || !ntt && in.Dom == 'C'
}

// digitsOf: content of digit i of a switching key in the rows that a product
// at level l uses; the parts modulo Q and modulo P have to be one polynomial
func (e *Engine) digitsOf(st *State, key *Addr, l *Term) (func(i *Term) *RP, bool) {
	g := &G{Engine: e}
	i := Sym("$digit", SInt)
	o := st.clone()
	o.assume(And(Ge(i, Num(0)), Lt(i, e.betaOf(l))))
	rows := g.digitRows(o, key, i, l)
	ok := true
	for _, r := range rows {
		if r.Dom != 'N' && r.Dom != 'Z' {
			ok = false
		}
	}
	if ok {
		res := e.rpResidue(o, rpSub(dropP(rows[0].RP), dropP(rows[1].RP)), []*Term{})
		ok = len(res) == 0
		if !ok && e.debug {
			println("digits differ:", clip(mkRP(res).key))
		}
	} else if e.debug {
		println("digits:", clip(valStr(rows[0])), clip(valStr(rows[1])))
	}
	return func(j *Term) *RP { return rows[0].RP.Sub(Subst{i.Name: j}) }, ok
}

func init() {
	ext := func(hoisted bool) func(e *Engine, st *State, args []Val, site string) []Outcome {
		return func(e *Engine, st *State, args []Val, site string) []Outcome {
			ks, l, c := asAddr(args[0]), asTerm(args[1]), polyArg(args[4])
			bg := asAddr(args[3])
			st.bounds(l, symNQ)
			bs, ok := e.digitsOf(st, bg, l)
			var as func(i *Term) *RP
			qp, inv := ksBuffers(st, ks)
			if hoisted {
				f, k := e.digitsOf(st, asAddr(args[2]), l)
				as, ok = f, ok && k
			} else {
				a := polyArg(args[2])
				if inBuffers(st, ks, a, c) {
					return nil
				}
				in, k := coefInput(st, a, l)
				ok = ok && k
				as = func(i *Term) *RP {
					if in.RP.IsZero() {
						return rpZero
					}
					return decAtom(i, l, in.RP)
				}
				st.havocPoly(inv, site+":inv")
				st.havocPoly(asAddr(qp[0].F[0]), site+":0q")
				st.havocPoly(asAddr(qp[0].F[1]), site+":0p")
			}
			st.havocPoly(asAddr(qp[1].F[0]), site+":1q")
			st.havocPoly(asAddr(qp[1].F[1]), site+":1p")
			if !ok {
				st.writePoly(c, l, badRow("extprod"))
				return []Outcome{{St: st}}
			}
			i := Fresh("i", SInt)
			sum := rpSum(i, And(Ge(i, Num(0)), Lt(i, e.betaOf(l))), rpMul(as(i), bs(i)))
			st.writePoly(c, l, &RowV{'C', rpAdd(rpMul(rpP(-1), rpMul(rpR(-1), sum)), rpAtom(A("nz|"+site, st.Keys...)))})
			return []Outcome{{St: st}}
		}
	}
	allContracts[fnExt] = &Contract{Fn: fnExt, Apply: ext(false)}
	allContracts[fnExtH] = &Contract{Fn: fnExtH, Apply: ext(true)}
}

// keysFor: the key set holds a key for every party of the ciphertext
func keysFor(ct *Addr, set string) func(app *Term) []*Term {
	pa := "has0|" + ct.Skel()
	return func(t *Term) []*Term {
		if t.Op == OpApp && len(t.Name) > len(pa) && t.Name[:len(pa)] == pa {
			k := t.Args[len(t.Args)-1]
			return []*Term{Implies(And(t, Neq(k, zeroID)), App(set, SBool, k))}
		}
		return nil
	}
}

// ctWithin: every component of ct is one of as
func ctWithin(ct *Addr, as ...*Addr) func(app *Term) []*Term {
	pa := "has0|" + ct.Skel()
	return func(t *Term) []*Term {
		if t.Op == OpApp && len(t.Name) > len(pa) && t.Name[:len(pa)] == pa {
			u := False
			for _, a := range as {
				u = Or(u, App("has0|"+a.Skel()+t.Name[len(pa):], SBool, t.Args...))
			}
			return []*Term{Implies(t, u)}
		}
		return nil
	}
}

func init() {
	goal := func(name, fn string, props []string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: props, Uses: []string{fnSplit, fnExt, fnExtH}, Run: run})
	}
	for _, v := range []struct {
		name string
		same bool
	}{{"", false}, {".square", true}} {
		v := v
		goal("ksw.MulAndRelin"+v.name, ksm("MulAndRelin"), []string{"C04"}, func(g *G) {
			ks, a, b := g.ksp(), g.ptr("op0", pkMk, "Ciphertext"), g.ptr("op1", pkMk, "Ciphertext")
			if v.same {
				b = a
			}
			rlk, out := g.ptr("rlk", pkMk, "RelinearizationKeySet"), g.ptr("out", pkMk, "Ciphertext")
			st := g.newState()
			l := g.lvlOf(out)
			st.addFact(And(Le(l, g.lvlOf(a)), Le(l, g.lvlOf(b))))
			g.Rules = append(g.Rules, ctSubset(a, out), ctSubset(b, out), ctWithin(out, a, b), keysFor(a, "has|rlk.Value*{}.?"), keysFor(b, "has|rlk.Value*{}.?"))
			g.returns(g.exec(st, ksm("MulAndRelin"), ks, a, b, rlk, out), nil, func(st *State, r Val) {
				p := g.pre(st)
				pa, _ := g.phase(p, a, l, "operand")
				pb, _ := g.phase(p, b, l, "operand")
				g.phaseIs(st, out, l, rpMul(pa, pb), false, "the phase of the result is the product of the phases")
				g.frame(st, within(out))
			})
		})
	}
	for _, v := range []struct {
		name   string
		same   bool
		h0, h1 bool
	}{{".nil", false, false, false}, {"", false, true, true}, {".first", false, true, false}, {".second", false, false, true}, {".square", true, true, true}, {".square.nil", true, false, false}} {
		v := v
		goal("ksw.MulAndRelinHoisted"+v.name, ksm("MulAndRelinHoisted"), []string{"C04", "C05"}, func(g *G) {
			ks, a, b := g.ksp(), g.ptr("op0", pkMk, "Ciphertext"), g.ptr("op1", pkMk, "Ciphertext")
			if v.same {
				b = a
			}
			rlk, out := g.ptr("rlk", pkMk, "RelinearizationKeySet"), g.ptr("out", pkMk, "Ciphertext")
			st := g.newState()
			l := g.lvlOf(out)
			h0, h1 := g.nilHoist(), g.nilHoist()
			if v.h0 {
				h0 = g.hoistOf("h0", a)
			}
			if v.h1 {
				h1 = h0
				if !v.same {
					h1 = g.hoistOf("h1", b)
				}
			}
			st.addFact(And(Le(l, g.lvlOf(a)), Le(l, g.lvlOf(b))))
			g.Rules = append(g.Rules, ctSubset(a, out), ctSubset(b, out), ctWithin(out, a, b), keysFor(a, "has|rlk.Value*{}.?"), keysFor(b, "has|rlk.Value*{}.?"))
			g.returns(g.exec(st, ksm("MulAndRelinHoisted"), ks, a, b, h0, h1, rlk, out), nil, func(st *State, r Val) {
				p := g.pre(st)
				pa, _ := g.phase(p, a, l, "operand")
				pb, _ := g.phase(p, b, l, "operand")
				g.phaseIs(st, out, l, rpMul(pa, pb), false, "the phase of the result is the product of the phases")
				g.frame(st, within(out))
			})
		})
	}
}

func (g *G) nilHoist() *Addr { return &Addr{Nil: true} }

// hoistOf: the hoisted form of ct
func (g *G) hoistOf(id string, ct *Addr) *Addr {
	h := g.ptrTag(id, pkMk, "HoistedCiphertext", "hoist:"+ct.R.ID)
	in := g.ctAddrOf(ct)
	g.Rules = append(g.Rules, keysFor(in, "has|"+id+".Value*{}.?"))
	return h
}

// rotKeysFor: the key set holds a rotation key for every party of the ciphertext and the given rotations
func rotKeysFor(ct *Addr, set string, rots ...*Term) func(app *Term) []*Term {
	pa := "has0|" + ct.Skel()
	return func(t *Term) []*Term {
		if t.Op == OpApp && len(t.Name) > len(pa) && t.Name[:len(pa)] == pa {
			k := t.Args[len(t.Args)-1]
			g := App("has|"+set+".Value*{}.?", SBool, k)
			for _, r := range rots {
				g = And(g, App("has|"+set+".Value*{}*{}.?", SBool, k, r))
			}
			return []*Term{Implies(And(t, Neq(k, zeroID)), g)}
		}
		return nil
	}
}

func init() {
	goal := func(name, fn string, props []string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: props, Uses: []string{fnSplit, fnExt, fnExtH}, Run: run})
	}
	goal("ksw.permute", pkMk+".permuteLvl", []string{"C07"}, func(g *G) {
		a, out := g.ptr("a", pkRing, "Poly"), g.ptr("out", pkRing, "Poly")
		st := g.newState()
		l := Sym("level", SInt)
		st.addFact(And(Ge(l, Num(0)), Le(l, st.polyLevel(a)), Le(l, st.polyLevel(out)), Lt(l, symNQ)))
		g.returns(g.exec(st, pkMk+".permuteLvl", g.special("ringQ"), l, a, galEl(Num(0), true), out), nil, func(st *State, r Val) {
			p := g.pre(st)
			in := p.readPoly(a, l)
			g.rowIs(st, st.readPoly(out, l), 'C', sigma(in.RP, nil, true), upTo(l), "the automorphism is applied")
			g.frame(st, rowsUpTo(out, l))
		})
	})
	goal("ksw.Conjugate", ksm("Conjugate"), []string{"C07"}, func(g *G) {
		ks, a, out := g.ksp(), g.ptr("ct", pkMk, "Ciphertext"), g.ptr("out", pkMk, "Ciphertext")
		ck := g.ptr("ck", pkMk, "ConjugationKeySet")
		st := g.newState()
		l := g.lvlOf(out)
		st.addFact(Le(l, g.lvlOf(a)))
		g.Rules = append(g.Rules, ctSubset(a, out), ctWithin(out, a))
		g.returns(g.exec(st, ksm("Conjugate"), ks, a, ck, out), g.lacks(a, "has|ck.Value*{}.?"), func(st *State, r Val) {
			p := g.pre(st)
			pa, _ := g.phase(p, a, l, "operand")
			g.phaseIs(st, out, l, sigma(pa, nil, true), false, "the phase of the result is the conjugate of the phase")
			g.frame(st, within(out))
		})
	})
	for _, hoisted := range []bool{false, true} {
		hoisted := hoisted
		name, props := "Rotate", []string{"C06"}
		if hoisted {
			name, props = "RotateHoisted", []string{"C05", "C06"}
		}
		goal("ksw."+name, ksm(name), props, func(g *G) {
			ks, a, out := g.ksp(), g.ptr("ct", pkMk, "Ciphertext"), g.ptr("out", pkMk, "Ciphertext")
			rk := g.ptr("rk", pkMk, "RotationKeySet")
			st := g.newState()
			l := g.lvlOf(out)
			rot := Sym("rot", SInt)
			st.addFact(And(Le(l, g.lvlOf(a)), Ge(rot, Num(0)), Lt(rot, Div(symN, Num(2))), App("hasCRS", SBool, rot)))
			g.Rules = append(g.Rules, ctSubset(a, out), ctWithin(out, a))
			args := []Val{ks, a, rot, rk, out}
			if hoisted {
				args = []Val{ks, a, rot, g.hoistOf("h", a), rk, out}
			}
			g.returns(g.exec(st, ksm(name), args...), g.lacks(a, "has|rk.Value*{}.?", "has|rk.Value*{}*{}.?", rot), func(st *State, r Val) {
				p := g.pre(st)
				pa, _ := g.phase(p, a, l, "operand")
				g.phaseIs(st, out, l, sigma(pa, rot, false), false, "the phase of the result is the rotated phase")
				g.frame(st, within(out))
			})
		})
	}
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func kgm(n string) string { return "(*" + pkMk + ".KeyGenerator)." + n }

// errAtom: the row is known content plus one fresh error: returns the error component
func (g *G) errAtom(st *State, row *RowV, known *RP, rexp int, cond []*Term, what string) *Comp {
	if !g.oblige(row.Dom == 'N', what+": NTT representation", "", clip(valStr(row))) {
		return nil
	}
	res := g.rpResidue(st, rpSub(row.RP, known), cond)
	// one error, possibly split into cases of the row
	for _, r := range res {
		if ga := gaussOf(&r); ga != nil && len(res) > 1 {
			for _, sg := range []int64{1, -1} {
				want := rpScale(big.NewRat(sg, 1), rpMul(rpR(rexp), rpAtom(ga)))
				if len(g.rpResidue(st, rpSub(row.RP, rpAdd(known, want)), cond)) == 0 {
					res = want.Cs
				}
			}
			break
		}
	}
	ok := len(res) == 1
	var c Comp
	if ok {
		c = res[0]
		ok = len(c.B) == 0 && c.G.Op == OpTrue && (c.C.Cmp(ratOne) == 0 || c.C.Cmp(big.NewRat(-1, 1)) == 0)
		n, r := 0, 0
		for _, f := range c.F {
			switch {
			case strings.HasPrefix(f.A.Kind, "gauss|") && f.E == 1:
				n++
			case f.A.Kind == "R":
				r = f.E
			default:
				ok = false
			}
		}
		ok = ok && n == 1 && r == rexp
	}
	g.oblige(ok, what, "", "content "+clip(row.RP.key)+"\n  expected "+clip(known.key)+" plus one Gaussian error; remainder "+clip(mkRP(res).key)+"\n  under "+pcStr(st))
	if !ok {
		return nil
	}
	return &c
}

func gaussOf(c *Comp) *Atom {
	for _, f := range c.F {
		if strings.HasPrefix(f.A.Kind, "gauss|") {
			return f.A
		}
	}
	return nil
}

// polyQPRows: the Q and P rows of a pair of polynomials
func (st *State) qpRows(qp Val) [2]*RowV {
	var out [2]*RowV
	for n, f := range qp.(*StructV).F {
		p := asAddr(f)
		lv := Sub(symNQ, Num(1))
		if n == 1 {
			lv = Sub(symNP, Num(1))
		}
		out[n] = st.readPoly(p, lv)
	}
	return out
}

var rowRange = [2][]*Term{
	{Ge(ROW, Num(0)), Lt(ROW, symNQ)},
	{Ge(ROW, symNQ), Lt(ROW, Add(symNQ, symNP))},
}

// swkIs: every digit of the switching key is known(i) plus its own error; returns the error of digit i
func (g *G) swkIs(st *State, key *Addr, known func(i *Term) *RP, rexp int, what string) *Comp {
	g.swkShape(st, key)
	v, vt := st.get(key, g.typ(pkMk, "SwitchingKey"), "Value")
	s := v.(*SliceV)
	i := str("digit")
	o := st.clone()
	o.assume(And(Ge(i, Num(0)), Lt(i, s.Len)))
	var res *Comp
	g.branch(o, func(o *State) {
		el := vt.Underlying().(*types.Slice).Elem()
		rows := o.qpRows(o.read(s.Base.index(Add(s.Off, i)), el))
		var cs [2]*Comp
		for n := range rows {
			cs[n] = g.errAtom(o, rows[n], known(i), rexp, rowRange[n], fmt.Sprintf("%s modulo %s", what, []string{"Q", "P"}[n]))
		}
		if cs[0] != nil && cs[1] != nil {
			g.oblige(mkRP([]Comp{*cs[0]}).key == mkRP([]Comp{*cs[1]}).key, what+": the error is one small polynomial in all moduli", "", "")
			g.ownDraw(o, *cs[0], []*Term{i}, what+": every digit has its own error")
			res = cs[0]
		}
	})
	return res
}

// distinctErrors: the errors come from different draws
func (g *G) distinctErrors(what string, cs ...*Comp) {
	for i := range cs {
		for j := 0; j < i; j++ {
			if cs[i] == nil || cs[j] == nil {
				continue
			}
			g.oblige(gaussOf(cs[i]).Kind != gaussOf(cs[j]).Kind, what, "", gaussOf(cs[i]).key+" / "+gaussOf(cs[j]).key)
		}
	}
}

// draws: the samplers used are the expected ones
func (g *G) draws(st *State, want func(kind string, s *OpaqueV) bool) {
	for k, v := range st.Ghost {
		if !strings.HasPrefix(k, "draw:") {
			continue
		}
		kind := strings.SplitN(strings.TrimPrefix(k, "draw:"), "|", 2)[0]
		s, ok := v.(*OpaqueV)
		g.oblige(ok && want(kind, s), "drawn from the requested distribution", "", k+" "+valStr(v))
	}
}

// the key is stored as NTT and Montgomery content of the atom in all moduli
func (g *G) smallKey(st *State, sk *Addr, id *Term, kind string) {
	t := g.typ(pkMk, "SecretKey")
	iv, _ := st.get(sk, t, "ID")
	g.check(st, Eq(asTerm(iv), id), "the key carries the given id")
	g.oblige(g.isFresh(sk), "the key is fresh", "", valStr(sk))
	v, _ := st.get(sk, t, "SecretKey", "Value")
	rows := st.qpRows(v)
	ok := rows[0].Dom == 'N' && rows[1].Dom == 'N' && rows[0].RP.key == rows[1].RP.key
	c, one := rows[0].RP.single()
	ok = ok && one && len(c.B) == 0 && c.G.Op == OpTrue && len(c.F) == 2
	n := 0
	for _, f := range c.F {
		if strings.HasPrefix(f.A.Kind, kind+"|") && f.E == 1 || f.A.Kind == "R" && f.E == 1 {
			n++
		}
	}
	g.oblige(ok && n == 2, "the secret is one fresh small polynomial, the same in all moduli", "", valStr(rows[0])+" / "+valStr(rows[1]))
}

func (g *G) skp(id string) *Addr { return g.ptr(id, pkMk, "SecretKey") }

func (g *G) keyID(a *Addr, typ string) *Term { return g.idOf(a, pkMk+"."+typ) }

func init() {
	both := []string{"C10", "C11"}
	goal := func(name, fn string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: both, Run: run})
	}
	kg := func(g *G) *Addr { return g.ptr("keygen", pkMk, "KeyGenerator") }
	gaussOK := func(kind string, s *OpaqueV) bool {
		return kind == "gauss" && strings.HasSuffix(s.Kind, "gaussianSamplerQ*")
	}

	newKG := func(nm, fn string, params func(g *G) Val) {
		goal(nm, fn, func(g *G) {
			g.returns(g.exec(g.newState(), fn, params(g)), nil, func(st *State, r Val) {
				k := asAddr(r)
				t := g.typ(pkMk, "KeyGenerator")
				g.oblige(g.isFresh(k), "a fresh generator", "", valStr(k))
				for _, f := range []struct{ n, typ, kind string }{{"gaussianSamplerQ", "GaussianSampler", "sampler:gauss"}, {"uniformSamplerQ", "UniformSampler", "sampler:unif"}, {"uniformSamplerP", "UniformSampler", "sampler:unif"}} {
					v, _ := st.get(k, t, f.n)
					s := st.samplerOf(v, f.typ)
					g.samplerIs(st, s, f.kind, f.n)
				}
				qp, _ := st.get(k, t, "poolQP")
				pq, _ := st.get(k, t, "poolQ")
				g.check(st, Eq(st.polyRows(asAddr(pq)).Len, symNQ), "the scratch polynomial has all moduli")
				g.check(st, Eq(st.polyRows(asAddr(qp.(*StructV).F[0])).Len, symNQ), "the scratch pair has all moduli of Q")
				g.check(st, Eq(st.polyRows(asAddr(qp.(*StructV).F[1])).Len, symNP), "the scratch pair has all moduli of P")
				g.oblige(st.rowAddr(asAddr(pq), Num(0)).Skel() != st.rowAddr(asAddr(qp.(*StructV).F[0]), Num(0)).Skel(), "scratch polynomials are separate", "", "")
				g.frame(st, noChange)
			})
		})
	}
	newKG("keygen.new", pkMk+".NewKeyGenerator", func(g *G) Val { return g.params() })
	newKG("ckks.keygen.new", pkMc+".NewKeyGenerator", func(g *G) Val { return g.cparams() })
	for _, s := range []struct {
		n, kind string
		pre     []Val
	}{{"GenSecretKey", "tern", nil}, {"GenSecretKeyGaussian", "gauss", nil}, {"GenSecretKeyWithDistrib", "tern", []Val{Sym("p", SReal)}}, {"GenSecretKeySparse", "tern", []Val{str("hw")}}} {
		s := s
		goal("keygen."+s.n, kgm(s.n), func(g *G) {
			id := str("id")
			args := append([]Val{kg(g)}, s.pre...)
			st := g.newState()
			st.addFact(And(Gt(Sym("p", SReal), RealC(0, 1)), Lt(Sym("p", SReal), RealC(1, 1)), Ge(str("hw"), Num(1)), Le(str("hw"), symN)))
			g.returns(g.exec(st, kgm(s.n), append(args, id)...), nil, func(st *State, r Val) {
				g.smallKey(st, asAddr(r), id, s.kind)
				g.draws(st, func(kind string, o *OpaqueV) bool {
					if s.kind == "gauss" {
						return gaussOK(kind, o)
					}
					return kind == "tern" && g.ternOK(st, o, s.n)
				})
				g.frame(st, noChange)
			})
		})
	}
	pkPost := func(g *G, st *State, pk *Addr, id *Term, s *RP, skAtom string) {
		t := g.typ(pkMk, "PublicKey")
		iv, _ := st.get(pk, t, "ID")
		g.check(st, Eq(asTerm(iv), id), "the key carries the party's id")
		g.oblige(g.isFresh(pk), "the key is fresh", "", valStr(pk))
		v, _ := st.get(pk, t, "PublicKey", "Value")
		crs := crsAtom(Num(0), Num(0))
		var cs [2]*Comp
		r0, r1 := st.qpRows(v.(*StructV).F[0]), st.qpRows(v.(*StructV).F[1])
		for n := 0; n < 2; n++ {
			m := []string{"Q", "P"}[n]
			g.rowIs(st, r1[n], 'N', crs, rowRange[n], "the second component is the reference string modulo "+m)
			cs[n] = g.errAtom(st, r0[n], rpNeg(rpMul(s, crs)), 0, rowRange[n], "the first component is e - s*a modulo "+m)
		}
		if cs[0] != nil && cs[1] != nil {
			g.oblige(mkRP([]Comp{*cs[0]}).key == mkRP([]Comp{*cs[1]}).key, "the error is one small polynomial in all moduli", "", "")
		}
		for _, x := range v.(*StructV).F {
			for _, f := range x.(*StructV).F {
				ra := st.rowAddr(asAddr(f), Num(0))
				g.oblige(ra.R.Kind == 'a', "the key has storage of its own", "", valStr(ra))
			}
		}
	}
	goal("keygen.GenPublicKey", kgm("GenPublicKey"), func(g *G) {
		sk := g.skp("sk")
		id := g.keyID(sk, "SecretKey")
		g.returns(g.exec(g.newState(), kgm("GenPublicKey"), kg(g), sk), nil, func(st *State, r Val) {
			pkPost(g, st, asAddr(r), id, sAtom(id), "")
			g.draws(st, gaussOK)
			g.frame(st, noChange)
		})
	})
	for _, s := range []struct {
		n   string
		pre []Val
	}{{"GenKeyPair", nil}, {"GenKeyPairSparse", []Val{str("hw")}}} {
		s := s
		goal("keygen."+s.n, kgm(s.n), func(g *G) {
			id := str("id")
			st := g.newState()
			st.addFact(And(Ge(str("hw"), Num(1)), Le(str("hw"), symN)))
			g.returns(g.exec(st, kgm(s.n), append(append([]Val{kg(g)}, s.pre...), id)...), nil, func(st *State, r Val) {
				sk, pk := asAddr(r.(*TupleV).V[0]), asAddr(r.(*TupleV).V[1])
				g.smallKey(st, sk, id, "tern")
				v, _ := st.get(sk, g.typ(pkMk, "SecretKey"), "SecretKey", "Value")
				rows := st.qpRows(v)
				pkPost(g, st, pk, id, rpMul(rpR(-1), rows[0].RP), "")
				g.frame(st, noChange)
			})
		})
	}
	goal("keygen.GenGaussianError", kgm("GenGaussianError"), func(g *G) {
		st := g.newState()
		t := g.typ(pkRlwe, "PolyQP")
		e := g.ptrTag("e", pkRlwe, "PolyQP", "full")
		ev := st.read(e, t)
		st.addFact(Eq(App("lvl|e.Q*", SInt), Sub(symNQ, Num(1))))
		g.returns(g.exec(st, kgm("GenGaussianError"), kg(g), ev), nil, func(st *State, r Val) {
			rows := st.qpRows(ev)
			var cs [2]*Comp
			for n := range rows {
				cs[n] = g.errAtom(st, rows[n], rpZero, 0, rowRange[n], "a fresh error modulo "+[]string{"Q", "P"}[n])
			}
			if cs[0] != nil && cs[1] != nil {
				g.oblige(mkRP([]Comp{*cs[0]}).key == mkRP([]Comp{*cs[1]}).key, "the error is one small polynomial in all moduli", "", "")
			}
			g.draws(st, gaussOK)
			g.frame(st, within(e))
		})
	})
	goal("keygen.GenSwitchingKey", kgm("GenSwitchingKey"), func(g *G) {
		sk, swk := g.skp("sk"), g.ptr("swk", pkMk, "SwitchingKey")
		id := g.keyID(sk, "SecretKey")
		g.returns(g.exec(g.newState(), kgm("GenSwitchingKey"), kg(g), sk, swk), nil, func(st *State, r Val) {
			g.swkIs(st, swk, func(i *Term) *RP { return rpMul(rpR(1), sAtom(id), gadget(i)) }, 1, "s*g + e")
			g.draws(st, gaussOK)
			g.frame(st, within(swk))
		})
	})
	goal("keygen.GenRelinearizationKey", kgm("GenRelinearizationKey"), func(g *G) {
		sk, r := g.skp("sk"), g.ptrTag("r", pkMk, "SecretKey", "r")
		id, rid := g.keyID(sk, "SecretKey"), g.keyID(r, "SecretKey")
		g.returns(g.exec(g.newState(), kgm("GenRelinearizationKey"), kg(g), sk, r), nil, func(st *State, v Val) {
			rlk := asAddr(v)
			t := g.typ(pkMk, "RelinearizationKey")
			iv, _ := st.get(rlk, t, "ID")
			g.check(st, Eq(asTerm(iv), id), "the key carries the party's id")
			s, rr := sAtom(id), rAtom(rid)
			fa, ft := g.fieldAddr(rlk, t, "Value")
			el := ft.Underlying().(*types.Array).Elem()
			comp := func(n int64) *Addr {
				a := asAddr(st.read(arrayElem(fa, ft, Num(n)), el))
				g.oblige(g.isFresh(a), "the key has storage of its own", "", valStr(a))
				return a
			}
			b := g.swkIs(st, comp(0), func(i *Term) *RP { return rpNeg(rpMul(s, crsAtom(Num(0), i))) }, 1, "b = e - s*a")
			d := g.swkIs(st, comp(1), func(i *Term) *RP { return rpSub(rpMul(rpR(1), s, gadget(i)), rpMul(rr, crsAtom(Num(0), i))) }, 1, "d = s*g + e - r*a")
			vv := g.swkIs(st, comp(2), func(i *Term) *RP {
				return rpNeg(rpAdd(rpMul(rpR(1), rr, gadget(i)), rpMul(s, crsAtom(Num(-1), i))))
			}, 1, "v = -r*g - s*u + e")
			g.distinctErrors("the components have their own errors", b, d, vv)
			g.draws(st, gaussOK)
			g.frame(st, noChange)
		})
	})
	goal("keygen.GenRotationKey", kgm("GenRotationKey"), func(g *G) {
		sk, rot := g.skp("sk"), str("rotidx")
		id := g.keyID(sk, "SecretKey")
		half := MulC(8, symM)
		nrot := Ite(Ge(rot, Num(0)), rot, Mod(rot, half))
		g.returns(g.exec(g.newState(), kgm("GenRotationKey"), kg(g), rot, sk), func(st *State) *Term {
			return Not(App("hasCRS", SBool, nrot))
		}, func(st *State, v Val) {
			rk := asAddr(v)
			t := g.typ(pkMk, "RotationKey")
			iv, _ := st.get(rk, t, "ID")
			g.check(st, Eq(asTerm(iv), id), "the key carries the party's id")
			rv, _ := st.get(rk, t, "RotIdx")
			ri := asTerm(rv)
			g.check(st, Eq(ri, nrot), "the key carries the normalised rotation amount")
			kv, _ := st.get(rk, t, "Value")
			key := asAddr(kv)
			g.oblige(g.isFresh(rk) && g.isFresh(key), "the key is fresh", "", valStr(key))
			g.swkIs(st, key, func(i *Term) *RP {
				return rpSub(rpMul(rpR(1), sAtom(id), gadget(i)), rpMul(crsAtom(ri, i), sigma(sAtom(id), Neg(ri), false)))
			}, 1, "s*g + e - a*s(X^-rot)")
			g.draws(st, gaussOK)
			g.frame(st, noChange)
		})
	})
	goal("keygen.GenConjugationKey", kgm("GenConjugationKey"), func(g *G) {
		sk := g.skp("sk")
		id := g.keyID(sk, "SecretKey")
		g.returns(g.exec(g.newState(), kgm("GenConjugationKey"), kg(g), sk), nil, func(st *State, v Val) {
			ck := asAddr(v)
			t := g.typ(pkMk, "ConjugationKey")
			iv, _ := st.get(ck, t, "ID")
			g.check(st, Eq(asTerm(iv), id), "the key carries the party's id")
			kv, _ := st.get(ck, t, "Value")
			key := asAddr(kv)
			g.oblige(g.isFresh(ck) && g.isFresh(key), "the key is fresh", "", valStr(key))
			g.swkIs(st, key, func(i *Term) *RP {
				return rpSub(rpMul(rpR(1), sigma(sAtom(id), nil, true), gadget(i)), rpMul(crsAtom(Num(-2), i), sAtom(id)))
			}, 1, "conj(s)*g + e - a*s")
			g.draws(st, gaussOK)
			g.frame(st, noChange)
		})
	})
}

// samplerIs: a sampler over the right ring fed by a randomly seeded generator
func (g *G) samplerIs(st *State, s *OpaqueV, kind, name string) {
	g.oblige(s.Kind == kind, name+" is a "+kind, "", valStr(s))
	g.oblige(strings.Contains(valStr(s), "prng:random"), name+" is seeded from fresh entropy", "", valStr(s))
	if strings.HasSuffix(name, "Q") || strings.HasSuffix(name, "P") {
		g.oblige(strings.Contains(valStr(s), "ring"+name[len(name)-1:]), name+" samples in its ring", "", valStr(s))
	}
}

// ternOK: the ternary sampler of the requested distribution
func (g *G) ternOK(st *State, s *OpaqueV, fn string) bool {
	if len(s.Data) < 4 || !strings.Contains(valStr(s.Data[0]), "prng:random") || valStr(s.Data[3]) != valStr(g.special("ringQ")) {
		return false
	}
	p, ok := s.Data[2].(*Term)
	if !ok {
		return false
	}
	switch fn {
	case "GenSecretKey":
		return s.Kind == "sampler:tern" && st.valid(And(Ge(p, RealC(1, 3)), Le(p, RealC(1, 2))))
	case "GenSecretKeyWithDistrib":
		return s.Kind == "sampler:tern" && st.valid(Eq(p, Sym("p", SReal)))
	}
	return s.Kind == "sampler:ternsparse" && st.valid(Eq(p, str("hw")))
}

package main

import (
	"go/types"
	"strings"
)

// C12: digit decomposition and basis conversion, in word mode.

func modT(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported("modulus %s", valStr(v)))
	}
	return t
}

func wordT(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported("word %s", valStr(v)))
	}
	return t
}

// sameModulus: the constants passed along belong to the modulus
func (e *Engine) sameModulus(st *State, m, c *Term, site, what string) {
	if !e.termSame(st, m, c, nil) {
		e.oblige(false, what, site, c.key+" for "+m.key)
		panic(unsupported("%s: %s for %s", what, c, m))
	}
}

func (e *Engine) mredConst(st *State, m *Term, v Val, site string) {
	t, ok := v.(*Term)
	if !ok || !isApp(t, "mredc") {
		panic(unsupported("Montgomery constant %s", valStr(v)))
	}
	e.sameModulus(st, m, t.Args[0], site, "the Montgomery constant belongs to the modulus")
}

func (e *Engine) bredConst(st *State, m *Term, v Val, site string) {
	t, ok := v.(*OpaqueV)
	if !ok || t.Kind != "bredm" {
		panic(unsupported("Barrett constant %s", valStr(v)))
	}
	e.sameModulus(st, m, t.Args[0], site, "the Barrett constant belongs to the modulus")
}

func (g *G) wordMode() {
	e := g.Engine
	e.word = true
	x := e.externals
	R := numR64
	x[pkRing+".BRedParams"] = func(e *Engine, st *State, a []Val, site string) Val { return o("bredm", modT(a[0])) }
	x[pkRing+".MRedParams"] = func(e *Engine, st *State, a []Val, site string) Val { return App("mredc", SInt, modT(a[0])) }
	x[pkRing+".MForm"] = func(e *Engine, st *State, a []Val, site string) Val {
		m := modT(a[1])
		e.bredConst(st, m, a[2], site)
		return e.mkRed(m, Mul(wordT(a[0]), R))
	}
	x[pkRing+".InvMForm"] = func(e *Engine, st *State, a []Val, site string) Val {
		m := modT(a[1])
		e.mredConst(st, m, a[2], site)
		return e.mkRed(m, Mul(wordT(a[0]), rinv(m)))
	}
	x[pkRing+".MRed"] = func(e *Engine, st *State, a []Val, site string) Val {
		m := modT(a[2])
		e.mredConst(st, m, a[3], site)
		p, q := wordT(a[0]), wordT(a[1])
		if !(isApp(p, "red") && p.Args[0].key == m.key || isApp(q, "red") && q.Args[0].key == m.key) {
			e.oblige(st.valid(Or(Le(p, m), Le(q, m))), "an operand of the Montgomery product is reduced", site, p.key+" * "+q.key)
		}
		return e.mkRed(m, Mul(Mul(p, q), rinv(m)))
	}
	x[pkRing+".BRed"] = func(e *Engine, st *State, a []Val, site string) Val {
		m := modT(a[2])
		e.bredConst(st, m, a[3], site)
		return e.mkRed(m, Mul(wordT(a[0]), wordT(a[1])))
	}
	x[pkRing+".BRedAdd"] = func(e *Engine, st *State, a []Val, site string) Val {
		m := modT(a[1])
		e.bredConst(st, m, a[2], site)
		return e.mkRed(m, wordT(a[0]))
	}
	x[pkRing+".CRed"] = func(e *Engine, st *State, a []Val, site string) Val {
		m, v := modT(a[1]), wordT(a[0])
		if !st.valid(And(Ge(v, Num(0)), Lt(v, MulC(2, m)))) {
			// not provably below 2m: in this logic the result is unknown
			if hasL(v) {
				return e.mkRed(m, v)
			}
			e.oblige(false, "the argument of a conditional subtraction is below twice the modulus", site, v.key)
		}
		return e.mkRed(m, v)
	}
	pow := func(e *Engine, st *State, x, ex, m *Term) *Term {
		if st.valid(Eq(ex, Sub(m, Num(2)))) {
			return e.mkInv(m, x) // m is prime and x is not divisible by it
		}
		return App("powm", SInt, m, e.modnorm(m, x), ex)
	}
	x[pkRing+".ModExp"] = func(e *Engine, st *State, a []Val, site string) Val {
		m := modT(a[2])
		return e.mkRed(m, pow(e, st, wordT(a[0]), wordT(a[1]), m))
	}
	x[pkRing+".ModexpMontgomery"] = func(e *Engine, st *State, a []Val, site string) Val {
		m := modT(a[2])
		e.mredConst(st, m, a[3], site)
		e.bredConst(st, m, a[4], site)
		return e.mkRed(m, Mul(R, pow(e, st, Mul(wordT(a[0]), rinv(m)), wordT(a[1]), m)))
	}
	transform := func(name string) extFn {
		// one row
		return func(e *Engine, st *State, a []Val, site string) Val {
			in, ok1 := isWords(a[0])
			out, ok2 := isWords(a[1])
			psi, ok3 := a[3].(*OpaqueV)
			if !ok1 || !ok2 || !ok3 || psi.Kind != name {
				panic(unsupported("transform with %s", valStr(a[3])))
			}
			m := modT(a[4])
			if name == "INTT" {
				m = modT(a[5])
			}
			e.sameModulus(st, m, psi.Args[0], site, "the roots of unity belong to the modulus")
			e.require(st, And(Eq(asTerm(a[2]), symN), Eq(in.Len, symN), Eq(out.Len, symN)), "rows of full length", site)
			writeTransform(e, st, name, m, in, out)
			return nil
		}
	}
	x[pkRing+".NTTLazy"] = transform("NTT")
	x[pkRing+".NTT"] = transform("NTT")
	x[pkRing+".InvNTTLazy"] = transform("INTT")
	x[pkRing+".InvNTT"] = transform("INTT")
	rows := func(name string, lvl bool) extFn {
		return func(e *Engine, st *State, a []Val, site string) Val {
			r, ok := isPtr(a[0])
			if !ok {
				panic(unsupported("ring %s", valStr(a[0])))
			}
			m, n, _ := ringModuli(e, st, r)
			pi, po := a[1], a[2]
			if lvl {
				l := asTerm(a[1])
				e.require(st, Lt(l, n), "level of the transform", site)
				n = Add(l, Num(1))
				pi, po = a[2], a[3]
			}
			p, ok1 := isPtr(pi)
			q, ok2 := isPtr(po)
			if !ok1 || !ok2 || !isW(p) || !isW(q) {
				panic(unsupported("transform of %s", valStr(pi)))
			}
			s := st.clone()
			i := Sym("i?", SInt)
			s.assume(And(Ge(i, Num(0)), Lt(i, n)))
			row := func(p *Addr) *SliceV {
				cv, _ := s.get(p, e.typ(pkRing, "Poly"), "Coeffs")
				cs, ok := isWords(cv)
				if !ok {
					panic(unsupported("transform of %s", valStr(cv)))
				}
				e.require(s, Lt(i, cs.Len), "rows of the transform", site)
				r, ok := isWords(s.elem(cs, i, tWords))
				if !ok {
					panic(unsupported("transform of %s", valStr(cv)))
				}
				return r
			}
			in, out := row(p), row(q)
			c, b := Sym("c?", SInt), Sym("b?", SInt)
			body := inRow(e, s, in, b)
			bd, bb := bind(body, b.Name)
			st.writeAll(out.Base.index(Add(out.Off, c)), []*Term{i, c}, And(Ge(i, Num(0)), Lt(i, n), Ge(c, Num(0)), Lt(c, symN)), App(name, SInt, m(i), bd, bb, c))
			return nil
		}
	}
	ri := "(*" + pkRing + ".Ring)."
	for _, z := range []string{"", "Lazy"} {
		x[ri+"NTT"+z+"Lvl"], x[ri+"NTT"+z] = rows("NTT", true), rows("NTT", false)
		x[ri+"InvNTT"+z+"Lvl"], x[ri+"InvNTT"+z] = rows("INTT", true), rows("INTT", false)
	}
	x["math/bits.Mul64"] = func(e *Engine, st *State, a []Val, site string) Val {
		p := Mul(wordT(a[0]), wordT(a[1]))
		return &TupleV{[]Val{mkHi(st, p), e.wrapWord(st, p)}}
	}
	x["math/bits.Add64"] = func(e *Engine, st *State, a []Val, site string) Val {
		s := AddAll(wordT(a[0]), wordT(a[1]), wordT(a[2]))
		return &TupleV{[]Val{e.wrapWord(st, s), mkHi(st, s)}}
	}
}

// isW: an object whose polynomials are rows of words
func isW(a *Addr) bool { return a.R.Tag == "W" }

func inRow(e *Engine, st *State, in *SliceV, b *Term) *Term {
	s := st.clone()
	s.assume(And(Ge(b, Num(0)), Lt(b, symN)))
	return wordT(s.elem(in, b, tU64))
}

func writeTransform(e *Engine, st *State, name string, m *Term, in, out *SliceV) {
	c, b := Sym("c?", SInt), Sym("b?", SInt)
	bd, bb := bind(inRow(e, st, in, b), b.Name)
	st.writeAll(out.Base.index(Add(out.Off, c)), []*Term{c}, And(Ge(c, Num(0)), Lt(c, symN)), App(name, SInt, m, bd, bb, c))
}

// ---- specification

// prodBut: the product of the moduli q(u), u < n, except q(i)
func prodBut(q func(u *Term) *Term, n, i *Term) *Term {
	u := Sym("π?", SInt)
	return prodOver(n, Ite(Eq(u, i), Num(1), q(u)), u.Name)
}

func prodAll(q func(u *Term) *Term, n *Term) *Term {
	u := Sym("π?", SInt)
	return prodOver(n, q(u), u.Name)
}

// the tables of a basis conversion from the moduli q(0..n-1) to modulus p
func (e *Engine) tabInv(q func(u *Term) *Term, n, i *Term) *Term {
	m := q(i)
	return e.mkRed(m, Mul(numR64, e.mkInv(m, prodBut(q, n, i))))
}
func (e *Engine) tabMod(q func(u *Term) *Term, n, i, p *Term) *Term {
	return e.mkRed(p, Mul(numR64, prodBut(q, n, i)))
}
func (e *Engine) tabV(q func(u *Term) *Term, n, v, p *Term) *Term {
	return e.mkRed(p, Neg(Mul(v, prodAll(q, n))))
}

func mkfn(n string) string { return pkMk + "." + n }

func (g *G) arr(id string, n int64) *Addr {
	return &Addr{R: g.root(id, types.NewArray(types.Typ[types.Uint64], n))}
}

func (g *G) words(id string, n *Term) *SliceV {
	return &SliceV{Base: &Addr{R: g.root(id, types.NewSlice(types.Typ[types.Uint64]))}, Off: Num(0), Len: n, Cap: n}
}

// congr: an obligation that a word is congruent to a term
func (g *G) congr(st *State, m, got, want *Term, what string) {
	ok := g.congruent(st, m, got, want) || !st.sat()
	d := ""
	if !ok {
		d = "modulo " + m.key + ":\n  got  " + g.modnorm(m, g.resolve(st, got, nil)).key + "\n  want " + g.modnorm(m, want).key + "\n  under " + pcStr(st)
	}
	g.oblige(ok, what, "", d)
}

func baseName(t *Term) string {
	if t.Op == OpApp && strings.HasPrefix(t.Name, "v|") {
		return t.Name[2:]
	}
	return ""
}

func init() {
	allGoals = append(allGoals, &Goal{Name: "multSum", Fn: mkfn("multSum"), Props: []string{"C12"}, Run: func(g *G) {
		g.wordMode()
		st := g.newState()
		t := Sym("t", SInt)
		pj := App("q", SInt, t)
		al := Sym("digit", SInt)
		st.assume(And(Ge(al, Num(0)), Le(al, Num(32))))
		nv := Sym("nv", SInt)
		g.wordBound = func(t *Term) *Term {
			n := baseName(t)
			switch {
			case strings.HasPrefix(n, "y"):
				return pow2n(61)
			case strings.HasPrefix(n, "qo"), strings.HasPrefix(n, "vt"):
				return pj
			case strings.HasPrefix(n, "v"):
				return nv
			}
			return nil
		}
		res, v := g.arr("res", 8), g.arr("v", 8)
		var ys []*Addr
		args := []Val{res, v}
		for l := 0; l < 8; l++ {
			y := g.arr("y"+string(rune('0'+l)), 32)
			ys = append(ys, y)
			args = append(args, y)
		}
		vt, qo := g.words("vt", nv), g.words("qo", al)
		args = append(args, al, pj, App("mredc", SInt, pj), vt, qo)
		u64 := types.Typ[types.Uint64]
		g.returns(g.exec(st, mkfn("multSum"), args...), nil, func(st *State, _ Val) {
			o := g.pre(st)
			u := Sym("u?", SInt)
			for l := int64(0); l < 8; l++ {
				got := wordT(st.readLeaf(res.index(Num(l)), u64))
				y := wordT(o.readLeaf(ys[l].index(u), u64))
				q := wordT(o.readLeaf(qo.Base.index(u), u64))
				vi := wordT(o.readLeaf(v.index(Num(l)), u64))
				want := Add(Mul(rinv(pj), sumOver(al, Mul(y, q), u.Name)), wordT(o.readLeaf(vt.Base.index(vi), u64)))
				g.congr(st, pj, got, want, "lane "+string(rune('0'+l))+" is the Montgomery-reduced sum of products plus the correction term")
				g.check(st, And(Ge(got, Num(0)), Lt(got, MulC(6, pj))), "lane "+string(rune('0'+l))+" does not wrap")
			}
			g.frame(st, within(res))
		})
	}})
}

func (st *State) elem(v Val, i *Term, t types.Type) Val {
	s, ok := v.(*SliceV)
	if !ok || s.Nil {
		panic(unsupported("table %s", valStr(v)))
	}
	return st.read(s.Base.index(Add(s.Off, i)), t)
}

func sliceLen(v Val) *Term {
	s, ok := v.(*SliceV)
	if !ok {
		panic(unsupported("table %s", valStr(v)))
	}
	if s.Nil {
		return Num(0)
	}
	return s.Len
}

var (
	tU64   = types.Typ[types.Uint64]
	tWords = types.NewSlice(types.Typ[types.Uint64])
)

// checkTables: the tables of a conversion from q(0..n-1) to p(0..np-1)
func (g *G) checkTables(st *State, v Val, q, p func(i *Term) *Term, n, np *Term, what string) {
	sv, ok := v.(*StructV)
	if !ok || len(sv.F) != 3 {
		panic(unsupported("tables %s", valStr(v)))
	}
	inv, mod, vt := sv.F[0], sv.F[1], sv.F[2]
	i, j, w := Sym("i", SInt), Sym("j", SInt), Sym("w", SInt)
	if !g.check(st, Eq(sliceLen(inv), n), what+"one inverse per source modulus") {
		return
	}
	if !g.check(st, Ge(sliceLen(mod), np), what+"one row of quotients per target modulus") {
		return
	}
	if !g.check(st, Ge(sliceLen(vt), np), what+"one row of correction terms per target modulus") {
		return
	}
	g.branch(st, func(st *State) {
		st.assume(And(Ge(i, Num(0)), Lt(i, n)))
		m := q(i)
		got := wordT(st.elem(inv, i, tU64))
		g.congr(st, m, got, g.tabInv(q, n, i), what+"table of inverses of the cofactors")
		g.check(st, And(Ge(got, Num(0)), Lt(got, m)), what+"inverses are reduced")
	})
	g.branch(st, func(st *State) {
		st.assume(And(Ge(i, Num(0)), Lt(i, n), Ge(j, Num(0)), Lt(j, np)))
		m := p(j)
		row := st.elem(mod, j, tWords)
		if !g.check(st, Ge(sliceLen(row), n), what+"a quotient per source modulus") {
			return
		}
		got := wordT(st.elem(row, i, tU64))
		g.congr(st, m, got, g.tabMod(q, n, i, m), what+"table of the cofactors")
		g.check(st, And(Ge(got, Num(0)), Lt(got, m)), what+"cofactors are reduced")
	})
	g.branch(st, func(st *State) {
		st.assume(And(Ge(w, Num(0)), Le(w, n), Ge(j, Num(0)), Lt(j, np)))
		m := p(j)
		row := st.elem(vt, j, tWords)
		if !g.check(st, Ge(sliceLen(row), Add(n, Num(1))), what+"correction terms for every quotient") {
			return
		}
		got := wordT(st.elem(row, w, tU64))
		g.congr(st, m, got, g.tabV(q, n, w, m), what+"table of the correction terms")
		g.check(st, And(Ge(got, Num(0)), Lt(got, m)), what+"correction terms are reduced")
	})
}

func init() {
	allGoals = append(allGoals, &Goal{Name: "basisextenderparameters", Fn: mkfn("basisextenderparameters"), Props: []string{"C12"}, Run: func(g *G) {
		g.wordMode()
		st := g.newState()
		n, np := Sym("n", SInt), Sym("np", SInt)
		st.assume(And(Ge(n, Num(1)), Ge(np, Num(1))))
		q := func(i *Term) *Term { return App("Qm", SInt, i) }
		p := func(i *Term) *Term { return App("Pm", SInt, i) }
		g.baseHook = func(st *State, a *Addr, t types.Type) Val {
			if len(a.P) == 1 && a.P[0].K == '[' {
				switch a.R.ID {
				case "Q":
					return q(a.P[0].T)
				case "P":
					return p(a.P[0].T)
				}
			}
			return nil
		}
		g.returns(g.exec(st, mkfn("basisextenderparameters"), g.words("Q", n), g.words("P", np)), nil, func(st *State, v Val) {
			g.checkTables(st, v, q, p, n, np, "")
			g.frame(st, noChange)
		})
	}})
}

// wordRing: a ring over the moduli m(0..n-1), given by the hook
func (g *G) wordRing(id string, m func(i *Term) *Term, n *Term) *Addr {
	a := g.ptr(id, pkRing, "Ring")
	prev := g.baseHook
	g.baseHook = func(st *State, x *Addr, t types.Type) Val {
		if x.R.ID == id && len(x.P) > 0 {
			f := x.P[0].S
			switch {
			case len(x.P) == 1 && (f == "Modulus" || f == "MredParams" || f == "BredParams"):
				return &SliceV{Base: x.deref(), Off: Num(0), Len: n, Cap: n}
			case len(x.P) == 3 && f == "Modulus":
				return m(x.P[2].T)
			case len(x.P) == 3 && f == "MredParams":
				return App("mredc", SInt, m(x.P[2].T))
			case len(x.P) == 3 && f == "BredParams":
				return o("bredm", m(x.P[2].T))
			case len(x.P) == 1 && f == "N":
				return symN
			}
			panic(unsupported("field %s of the ring", x))
		}
		if prev != nil {
			return prev(st, x, t)
		}
		return nil
	}
	return a
}

func Qm(i *Term) *Term { return App("Qm", SInt, i) }
func Pm(i *Term) *Term { return App("Pm", SInt, i) }
func qm(i *Term) *Term { return App("q", SInt, i) }
func pm(i *Term) *Term { return App("q", SInt, Add(symNQ, i)) }

// tabDown: 2^64 times the inverse of the product of the first j+1 moduli p, modulo m
func (e *Engine) tabDown(p func(i *Term) *Term, j, m *Term) *Term {
	u := Sym("π?", SInt)
	return e.mkRed(m, Mul(numR64, prodOver(Add(j, Num(1)), e.mkInv(m, p(u)), u.Name)))
}

func (g *G) checkDown(st *State, v Val, q, p func(i *Term) *Term, n, np *Term, what string) {
	i, j := Sym("i", SInt), Sym("j", SInt)
	if !g.check(st, Ge(sliceLen(v), np), what+"a row of constants per number of moduli") {
		return
	}
	g.branch(st, func(st *State) {
		st.assume(And(Ge(i, Num(0)), Lt(i, n), Ge(j, Num(0)), Lt(j, np)))
		row := st.elem(v, j, tWords)
		if !g.check(st, Ge(sliceLen(row), n), what+"a constant per remaining modulus") {
			return
		}
		got := wordT(st.elem(row, i, tU64))
		g.congr(st, q(i), got, g.tabDown(p, j, q(i)), what+"inverse of the product of the divided moduli")
		g.check(st, And(Ge(got, Num(0)), Lt(got, q(i))), what+"constants are reduced")
	})
}

func init() {
	allGoals = append(allGoals, &Goal{Name: "genModDownParams", Fn: mkfn("genModDownParams"), Props: []string{"C12"}, Run: func(g *G) {
		g.wordMode()
		st := g.newState()
		n, np := Sym("n", SInt), Sym("np", SInt)
		st.assume(And(Ge(n, Num(1)), Ge(np, Num(1))))
		a, b := g.wordRing("ringA", Qm, n), g.wordRing("ringB", Pm, np)
		g.returns(g.exec(st, mkfn("genModDownParams"), a, b), nil, func(st *State, v Val) {
			g.checkDown(st, v, Qm, Pm, n, np, "")
			g.frame(st, noChange)
		})
	}})
}

// ---- reconstruction: y_u = x_u * (Q/q_u)^-1 mod q_u and the quotient floor(sum y_u/q_u)

func (g *G) lanes(pre string, n int64) []*Addr {
	var ys []*Addr
	for l := 0; l < 8; l++ {
		ys = append(ys, g.arr(pre+string(rune('0'+l)), n))
	}
	return ys
}

func addrVals(as []*Addr) (out []Val) {
	for _, a := range as {
		out = append(out, a)
	}
	return
}

func laneAddr(a *Addr, i *Term) *Addr {
	if a.View {
		return viewIndex(a, i)
	}
	return a.index(i)
}

// quotient: floor of the sum of y(u)/q(u) over u < n
func (e *Engine) quotient(st *State, y, q func(u *Term) *Term, n *Term) *Term {
	u := Sym("σ?", SInt)
	return e.floor(st, sumOver(n, RDiv(ToReal(y(u)), ToReal(q(u))), u.Name))
}

func init() {
	allGoals = append(allGoals, &Goal{Name: "reconstructRNS", Fn: mkfn("reconstructRNS"), Props: []string{"C12"}, Run: func(g *G) {
		g.wordMode()
		st := g.newState()
		n, x := Sym("n", SInt), Sym("x", SInt)
		st.assume(And(Ge(n, Num(1)), Le(n, Num(32)), Ge(x, Num(0)), Le(Add(x, Num(8)), symN)))
		g.baseHook = func(st *State, a *Addr, t types.Type) Val {
			switch {
			case a.R.ID == "Q" && len(a.P) == 1:
				return Qm(a.P[0].T)
			case a.R.ID == "QInv" && len(a.P) == 1:
				return App("mredc", SInt, Qm(a.P[0].T))
			case a.R.ID == "p" && len(a.P) == 1:
				return &SliceV{Base: a.deref(), Off: Num(0), Len: symN, Cap: symN}
			}
			return nil
		}
		g.wordBound = func(t *Term) *Term {
			switch n := baseName(t); {
			case strings.HasPrefix(n, "Qb"):
				return Qm(t.Args[0])
			}
			return nil
		}
		v, ys := g.arr("v", 8), g.lanes("y", 32)
		p := &SliceV{Base: &Addr{R: g.root("p", types.NewSlice(tWords))}, Off: Num(0), Len: n, Cap: n}
		Q, QI, QB := g.words("Q", n), g.words("QInv", n), g.words("Qb", n)
		args := append([]Val{n, x, p, v}, addrVals(ys)...)
		args = append(args, Q, QI, QB)
		g.returns(g.exec(st, mkfn("reconstructRNS"), args...), nil, func(st *State, _ Val) {
			o := g.pre(st)
			for l := int64(0); l < 8; l++ {
				y := func(u *Term) *Term {
					px := wordT(o.readLeaf(p.Base.index(u).deref().index(Add(x, Num(l))), tU64))
					qb := wordT(o.readLeaf(QB.Base.index(u), tU64))
					return g.mkRed(Qm(u), Mul(Mul(px, qb), rinv(Qm(u))))
				}
				i := Sym("i", SInt)
				g.branch(st, func(st *State) {
					st.assume(And(Ge(i, Num(0)), Lt(i, n)))
					got := wordT(st.readLeaf(ys[l].index(i), tU64))
					g.congr(st, Qm(i), got, y(i), "lane "+string(rune('0'+l))+": digit of the reconstruction")
					g.check(st, And(Ge(got, Num(0)), Lt(got, Qm(i))), "digits are reduced")
				})
				got := wordT(st.readLeaf(v.index(Num(l)), tU64))
				want := g.quotient(st, y, Qm, n)
				ok := g.termSame(st, got, want, nil)
				g.oblige(ok, "lane "+string(rune('0'+l))+": quotient of the reconstruction", "", "got "+got.key+" want "+want.key)
			}
			g.frame(st, within(append(ys, v)...))
		})
	}})
}

// ---- contracts

const (
	cMultSum = pkMk + ".multSum"
	cRecon   = pkMk + ".reconstructRNS"
	cUpExact = pkMk + ".modUpExact"
	cTables  = pkMk + ".basisextenderparameters"
	cDown    = pkMk + ".genModDownParams"
)

// lane: a generic index below n
func (st *State) under(n *Term, f func(st *State, u *Term)) {
	s := st.clone()
	u := Sym("u?", SInt)
	s.assume(And(Ge(u, Num(0)), Lt(u, n)))
	f(s, u)
}

func isWords(v Val) (*SliceV, bool) {
	s, ok := v.(*SliceV)
	return s, ok && !s.Nil
}

func isPtr(v Val) (*Addr, bool) {
	a, ok := v.(*Addr)
	return a, ok && !a.Nil
}

func init() {
	allContracts[cMultSum] = &Contract{Fn: cMultSum, Apply: func(e *Engine, st *State, a []Val, site string) []Outcome {
		if len(a) != 15 {
			return nil
		}
		res, ok1 := isPtr(a[0])
		v, ok2 := isPtr(a[1])
		vt, ok3 := isWords(a[13])
		qo, ok4 := isWords(a[14])
		al, ok5 := a[10].(*Term)
		pj, ok6 := a[11].(*Term)
		if !(ok1 && ok2 && ok3 && ok4 && ok5 && ok6) {
			return nil
		}
		e.mredConst(st, pj, a[12], site)
		e.require(st, And(Ge(al, Num(0)), Le(al, Num(32)), Le(al, qo.Len)), "size of the digit", site)
		var out []*Term
		for l := int64(0); l < 8; l++ {
			y, ok := isPtr(a[2+l])
			if !ok {
				return nil
			}
			var sum *Term
			st.under(al, func(s *State, u *Term) {
				yu := wordT(s.readLeaf(laneAddr(y, u), tU64))
				qu := wordT(s.elem(qo, u, tU64))
				e.require(s, And(Ge(yu, Num(0)), Lt(yu, pow2n(61))), "digits are words of 61 bits", site)
				e.require(s, And(Ge(qu, Num(0)), Lt(qu, pj)), "cofactors are reduced", site)
				sum = sumOver(al, Mul(yu, qu), u.Name)
			})
			vl := wordT(st.readLeaf(laneAddr(v, Num(l)), tU64))
			e.require(st, And(Ge(vl, Num(0)), Lt(vl, vt.Len)), "quotient within the table", site)
			c := wordT(st.elem(vt, vl, tU64))
			e.require(st, And(Ge(c, Num(0)), Lt(c, pj)), "correction terms are reduced", site)
			out = append(out, App("lazy", SInt, pj, e.modnorm(pj, Add(Mul(rinv(pj), sum), c))))
		}
		for l, t := range out {
			st.writeLeaf(laneAddr(res, Num(int64(l))), t)
		}
		return []Outcome{{St: st}}
	}}
	allContracts[cRecon] = &Contract{Fn: cRecon, Apply: func(e *Engine, st *State, a []Val, site string) []Outcome {
		if len(a) != 15 {
			return nil
		}
		n, ok1 := a[0].(*Term)
		x, ok2 := a[1].(*Term)
		p, ok3 := isWords(a[2])
		v, ok4 := isPtr(a[3])
		Q, ok5 := isWords(a[12])
		QI, ok6 := isWords(a[13])
		QB, ok7 := isWords(a[14])
		if !(ok1 && ok2 && ok3 && ok4 && ok5 && ok6 && ok7) {
			return nil
		}
		e.require(st, And(Ge(n, Num(1)), Le(n, Num(32)), Le(n, p.Len), Le(n, Q.Len), Le(n, QI.Len), Le(n, QB.Len)), "number of moduli", site)
		type lane struct{ y, v *Term }
		var ls []lane
		for l := int64(0); l < 8; l++ {
			var r lane
			st.under(n, func(s *State, u *Term) {
				q := modT(s.elem(Q, u, tU64))
				e.mredConst(s, q, s.elem(QI, u, tU64), site)
				row, ok := isWords(s.elem(p, u, tWords))
				if !ok {
					panic(unsupported("rows of %s", site))
				}
				e.require(s, And(Ge(x, Num(0)), Le(Add(x, Num(8)), row.Len)), "eight coefficients", site)
				px := wordT(s.elem(row, Add(x, Num(l)), tU64))
				b := wordT(s.elem(QB, u, tU64))
				e.require(s, And(Ge(b, Num(0)), Lt(b, q)), "inverses are reduced", site)
				r.y = e.mkRed(q, Mul(Mul(px, b), rinv(q)))
				r.v = e.quotient(st, func(w *Term) *Term { return r.y.Sub(Subst{u.Name: w}) }, func(w *Term) *Term { return q.Sub(Subst{u.Name: w}) }, n)
			})
			ls = append(ls, r)
		}
		for l, r := range ls {
			y, ok := isPtr(a[4+l])
			if !ok {
				return nil
			}
			h := len(y.Args())
			ya := laneAddr(y, hole(h))
			g := []*Term{Ge(hole(h), Num(0)), Lt(hole(h), n)}
			for i, t := range y.Args() {
				g = append(g, Eq(hole(i), t))
			}
			st.writeGuarded(ya, And(g...), r.y.Sub(Subst{"u?": hole(h)}), false)
			st.writeLeaf(laneAddr(v, Num(int64(l))), r.v)
		}
		return []Outcome{{St: st}}
	}}
}

// paramTables: the tables of a conversion, as values of the hook
func (g *G) paramTables(id string, q, p func(i *Term) *Term, n, np *Term) Val {
	inv, mod, vt := id+".inv", id+".mod", id+".vt"
	prev := g.baseHook
	g.baseHook = func(st *State, a *Addr, t types.Type) Val {
		switch {
		case a.R.ID == inv && len(a.P) == 1:
			return g.tabInv(q, n, a.P[0].T)
		case (a.R.ID == mod || a.R.ID == vt) && len(a.P) == 1:
			l := n
			if a.R.ID == vt {
				l = Add(n, Num(1))
			}
			return &SliceV{Base: a.deref(), Off: Num(0), Len: l, Cap: l}
		case a.R.ID == mod && len(a.P) == 3:
			return g.tabMod(q, n, a.P[2].T, p(a.P[0].T))
		case a.R.ID == vt && len(a.P) == 3:
			return g.tabV(q, n, a.P[2].T, p(a.P[0].T))
		}
		if prev != nil {
			return prev(st, a, t)
		}
		return nil
	}
	rows := func(id string) *SliceV {
		return &SliceV{Base: &Addr{R: g.root(id, types.NewSlice(tWords))}, Off: Num(0), Len: np, Cap: np}
	}
	return &StructV{T: g.typ(pkMk, "modupParams"), F: []Val{g.words(inv, n), rows(mod), rows(vt)}}
}

// extended: the residue modulo p of the integer in [0, q(0)*..*q(n-1)) with residues x(u)
func (e *Engine) extended(st *State, x, q func(u *Term) *Term, n, p *Term) *Term {
	y := func(u *Term) *Term { return e.mkRed(q(u), Mul(x(u), e.mkInv(q(u), prodBut(q, n, u)))) }
	w := Sym("w?", SInt)
	s := sumOver(n, Mul(y(w), prodBut(q, n, w)), w.Name)
	return e.modnorm(p, Sub(s, Mul(e.quotient(st, y, q, n), prodAll(q, n))))
}

func (g *G) rowsOf(id string, n *Term) *SliceV {
	s := &SliceV{Base: &Addr{R: g.root(id, types.NewSlice(tWords))}, Off: Num(0), Len: n, Cap: n}
	prev := g.baseHook
	g.baseHook = func(st *State, a *Addr, t types.Type) Val {
		if a.R.ID == id && len(a.P) == 1 {
			return &SliceV{Base: a.deref(), Off: Num(0), Len: symN, Cap: symN}
		}
		if prev != nil {
			return prev(st, a, t)
		}
		return nil
	}
	return s
}

func init() {
	allGoals = append(allGoals, &Goal{Name: "modUpExact", Fn: cUpExact, Props: []string{"C12"}, Uses: []string{cMultSum, cRecon}, Run: func(g *G) {
		g.wordMode()
		st := g.newState()
		n, np := Sym("n", SInt), Sym("np", SInt)
		NA, NB := Sym("NA", SInt), Sym("NB", SInt)
		st.assume(And(Ge(n, Num(1)), Le(n, Num(32)), Ge(np, Num(1)), Le(n, NA), Le(np, NB)))
		a, b := g.wordRing("ringA", Qm, NA), g.wordRing("ringB", Pm, NB)
		p1, p2 := g.rowsOf("p1", n), g.rowsOf("p2", np)
		par := g.paramTables("par", Qm, Pm, n, NB)
		g.returns(g.exec(st, cUpExact, p1, p2, a, b, par), nil, func(st *State, _ Val) {
			o := g.pre(st)
			j, c := Sym("j", SInt), Sym("c", SInt)
			g.branch(st, func(st *State) {
				st.assume(And(Ge(j, Num(0)), Lt(j, np), Ge(c, Num(0)), Lt(c, symN)))
				got := wordT(st.readLeaf(p2.Base.index(j).deref().index(c), tU64))
				x := func(u *Term) *Term { return wordT(o.readLeaf(p1.Base.index(u).deref().index(c), tU64)) }
				g.congr(st, Pm(j), got, g.extended(st, x, Qm, n, Pm(j)), "the row holds the residues of the reconstructed integer")
				g.check(st, And(Ge(got, Num(0)), Lt(got, MulC(6, Pm(j)))), "residues do not wrap")
			})
			g.frame(st, within(p2.Base))
		})
	}})
}

// writeAll writes v at the location a for all values of the variables within the range
func (st *State) writeAll(a *Addr, vars []*Term, rng *Term, v *Term) {
	args := a.Args()
	hs := make([]*Term, len(args))
	m := Subst{}
	g := []*Term{}
	for i, t := range args {
		hs[i] = hole(i)
		done := false
		for _, x := range vars {
			if _, ok := m[x.Name]; ok || !t.Has(x.Name) {
				continue
			}
			co, rest, ok := linIn(t, x.Name)
			if n, isn := co.Int(); ok && isn && n == 1 {
				for _, y := range vars {
					if rest.Has(y.Name) {
						panic(unsupported("location %s", a))
					}
				}
				m[x.Name] = Sub(hole(i), rest)
				done = true
				break
			}
		}
		if !done {
			for _, x := range vars {
				if t.Has(x.Name) {
					panic(unsupported("location %s", a))
				}
			}
			g = append(g, Eq(hole(i), t))
		}
	}
	if len(m) != len(vars) {
		panic(unsupported("location %s", a))
	}
	g = append(g, rng.Sub(m))
	st.writeGuarded(a.withArgs(hs), And(g...), v.Sub(m), false)
}

func ringModuli(e *Engine, st *State, r *Addr) (m func(i *Term) *Term, n *Term, v *SliceV) {
	t := e.typ(pkRing, "Ring")
	mv, _ := st.get(r, t, "Modulus")
	s, ok := mv.(*SliceV)
	if !ok {
		panic(unsupported("ring %s", r))
	}
	return func(i *Term) *Term { return modT(st.elem(s, i, tU64)) }, s.Len, s
}

// tablesAre: the tables belong to the conversion from q(0..n-1) to p(0..np-1)
func (e *Engine) tablesAre(st *State, par *StructV, q, p func(i *Term) *Term, n, np *Term, site string) {
	inv, ok1 := isWords(par.F[0])
	mod, ok2 := isWords(par.F[1])
	vt, ok3 := isWords(par.F[2])
	if !(ok1 && ok2 && ok3) {
		panic(unsupported("tables of %s", site))
	}
	e.require(st, And(Ge(inv.Len, n), Ge(mod.Len, np), Ge(vt.Len, np)), "the tables cover the moduli", site)
	s := st.clone()
	u, j, w := Sym("u?", SInt), Sym("j?", SInt), Sym("w?", SInt)
	s.assume(And(Ge(u, Num(0)), Lt(u, n), Ge(j, Num(0)), Lt(j, np), Ge(w, Num(0)), Le(w, n)))
	same := func(got, want *Term, what string) {
		e.oblige(e.termSame(s, got, want, nil), what, site, "got "+clip(got.key)+" want "+clip(want.key))
	}
	same(wordT(s.elem(inv, u, tU64)), e.tabInv(q, n, u), "the inverses belong to the source moduli")
	row, ok := isWords(s.elem(mod, j, tWords))
	if !ok {
		panic(unsupported("tables of %s", site))
	}
	e.require(s, Ge(row.Len, n), "the tables cover the moduli", site)
	same(wordT(s.elem(row, u, tU64)), e.tabMod(q, n, u, p(j)), "the cofactors belong to the source and target moduli")
	row, ok = isWords(s.elem(vt, j, tWords))
	if !ok {
		panic(unsupported("tables of %s", site))
	}
	e.require(s, Gt(row.Len, n), "the tables cover the quotients", site)
	same(wordT(s.elem(row, w, tU64)), e.tabV(q, n, w, p(j)), "the correction terms belong to the source and target moduli")
}

func init() {
	allContracts[cUpExact] = &Contract{Fn: cUpExact, Apply: func(e *Engine, st *State, a []Val, site string) []Outcome {
		if len(a) != 5 {
			return nil
		}
		p1, ok1 := isWords(a[0])
		p2, ok2 := isWords(a[1])
		ra, ok3 := isPtr(a[2])
		rb, ok4 := isPtr(a[3])
		par, ok5 := a[4].(*StructV)
		if !(ok1 && ok2 && ok3 && ok4 && ok5) || len(par.F) != 3 {
			return nil
		}
		q, nA, _ := ringModuli(e, st, ra)
		p, nB, _ := ringModuli(e, st, rb)
		n, np := p1.Len, p2.Len
		e.require(st, And(Ge(n, Num(1)), Le(n, Num(32)), Le(n, nA), Le(np, nB)), "number of moduli", site)
		if p1.Base.Skel() == p2.Base.Skel() {
			e.oblige(st.valid(Not(And(eqAll(p1.Base.Args(), p2.Base.Args())...))), "source and target are distinct", site, p1.Base.String()+" "+p2.Base.String())
		}
		e.tablesAre(st, par, q, p, n, np, site)
		j, c := Sym("j?", SInt), Sym("c?", SInt)
		rng := And(Ge(j, Num(0)), Lt(j, np), Ge(c, Num(0)), Lt(c, symN))
		var dst *SliceV
		var v *Term
		s := st.clone()
		s.assume(rng)
		u := Sym("u?", SInt)
		s.assume(And(Ge(u, Num(0)), Lt(u, n)))
		src, ok := isWords(s.elem(p1, u, tWords))
		if !ok {
			panic(unsupported("rows of %s", site))
		}
		dst, ok = isWords(s.elem(p2, j, tWords))
		if !ok {
			panic(unsupported("rows of %s", site))
		}
		e.require(s, And(Eq(src.Len, symN), Eq(dst.Len, symN)), "rows of full length", site)
		xu := wordT(s.elem(src, c, tU64))
		x := func(w *Term) *Term { return xu.Sub(Subst{u.Name: w}) }
		v = App("lazy", SInt, p(j), e.extended(st, x, q, n, p(j)))
		st.writeAll(dst.Base.index(Add(dst.Off, c)), []*Term{j, c}, rng, v)
		return []Outcome{{St: st}}
	}}
}

func eqAll(a, b []*Term) (out []*Term) {
	for i := range a {
		out = append(out, Eq(a[i], b[i]))
	}
	return
}

// ---- the basis extender

func (g *G) extender() *Addr {
	be := g.ptrTag("be", pkMk, "FastBasisExtender", "W")
	prev := g.baseHook
	g.baseHook = func(st *State, a *Addr, t types.Type) Val {
		if a.R.ID != "be" || len(a.P) == 0 {
			if prev != nil {
				return prev(st, a, t)
			}
			return nil
		}
		f := a.P[0].S
		q, p, nq, np := qm, pm, symNQ, symNP
		switch f {
		case "paramsPtoQ", "modDownparamsQtoP":
			q, p, nq, np = pm, qm, symNP, symNQ
		case "paramsQtoP", "modDownparamsPtoQ":
		case "polypoolQ", "polypoolP":
			if len(a.P) == 3 && a.P[2].S == "Coeffs" {
				n := symNQ
				if f == "polypoolP" {
					n = symNP
				}
				return &SliceV{Base: a.deref(), Off: Num(0), Len: n, Cap: n}
			}
			return nil
		default:
			return nil
		}
		sl := func(n *Term) Val { return &SliceV{Base: a.deref(), Off: Num(0), Len: n, Cap: n} }
		if strings.HasPrefix(f, "params") {
			// [i]: tables of the conversion from the first i+1 moduli q to p
			if len(a.P) == 1 {
				return sl(nq)
			}
			n := Add(a.P[2].T, Num(1))
			switch {
			case len(a.P) == 4 && a.P[3].S == "qoverqiinvqi":
				return sl(n)
			case len(a.P) == 4:
				return sl(np)
			case len(a.P) == 6 && a.P[3].S == "qoverqiinvqi":
				return g.tabInv(q, n, a.P[5].T)
			case len(a.P) == 6 && a.P[3].S == "qoverqimodp":
				return sl(n)
			case len(a.P) == 6:
				return sl(Add(n, Num(1)))
			case len(a.P) == 8 && a.P[3].S == "qoverqimodp":
				return g.tabMod(q, n, a.P[7].T, p(a.P[5].T))
			case len(a.P) == 8:
				return g.tabV(q, n, a.P[7].T, p(a.P[5].T))
			}
		} else {
			// [j][i]: inverse of the product of the first j+1 moduli p modulo q(i)
			switch len(a.P) {
			case 1:
				return sl(np)
			case 3:
				return sl(nq)
			case 5:
				return g.tabDown(p, a.P[2].T, q(a.P[4].T))
			}
		}
		panic(unsupported("field %s of the basis extender", a))
	}
	return be
}

// wpoly: a polynomial as rows of words
func (g *G) wpoly(id string, n *Term) *Addr {
	a := g.ptrTag(id, pkRing, "Poly", "W")
	prev := g.baseHook
	g.baseHook = func(st *State, x *Addr, t types.Type) Val {
		if x.R.ID == id && len(x.P) == 1 && x.P[0].S == "Coeffs" {
			return &SliceV{Base: x.deref(), Off: Num(0), Len: n, Cap: n}
		}
		if prev != nil {
			return prev(st, x, t)
		}
		return nil
	}
	return a
}

func wrow(p *Addr, i, c *Term) *Addr {
	return p.field(0, "Coeffs").deref().index(i).deref().index(c)
}

func init() {
	for _, dir := range []string{"QtoP", "PtoQ"} {
		dir := dir
		fn := "(*" + pkMk + ".FastBasisExtender).ModUp" + dir
		allGoals = append(allGoals, &Goal{Name: "ModUp" + dir, Fn: fn, Props: []string{"C12"}, Uses: []string{cUpExact}, Run: func(g *G) {
			g.wordMode()
			st := g.newState()
			la, lb := Sym("la", SInt), Sym("lb", SInt)
			q, p, nq, np := qm, pm, symNQ, symNP
			if dir == "PtoQ" {
				q, p, nq, np = pm, qm, symNP, symNQ
			}
			st.assume(And(Ge(la, Num(0)), Lt(la, nq), Lt(la, Num(32)), Ge(lb, Num(0)), Lt(lb, np)))
			be := g.extender()
			a, b := g.wpoly("pa", Add(la, Num(1))), g.wpoly("pb", Add(lb, Num(1)))
			g.returns(g.exec(st, fn, be, la, lb, a, b), nil, func(st *State, _ Val) {
				o := g.pre(st)
				j, c := Sym("j", SInt), Sym("c", SInt)
				g.branch(st, func(st *State) {
					st.assume(And(Ge(j, Num(0)), Le(j, lb), Ge(c, Num(0)), Lt(c, symN)))
					got := wordT(st.readLeaf(wrow(b, j, c), tU64))
					x := func(u *Term) *Term { return wordT(o.readLeaf(wrow(a, u, c), tU64)) }
					g.congr(st, p(j), got, g.extended(st, x, q, Add(la, Num(1)), p(j)), "the rows hold the residues of the reconstructed integer")
				})
				g.frame(st, within(b.field(0, "Coeffs").deref()))
			})
		}})
	}
}

// reducedInputs: the words of the polynomials are reduced modulo their moduli
func (g *G) reducedInputs(m map[string]func(i *Term) *Term) {
	prev := g.wordBound
	g.wordBound = func(t *Term) *Term {
		n := baseName(t)
		for id, q := range m {
			if strings.HasPrefix(n, id+".") && len(t.Args) == 2 {
				return q(t.Args[0])
			}
		}
		if prev != nil {
			return prev(t)
		}
		return nil
	}
}

func init() {
	for _, v := range []string{"Q", "P", "QNTT", "Q[in place]", "P[in place]", "QNTT[in place]"} {
		dir, alias, _ := strings.Cut(v, "[")
		fn := "(*" + pkMk + ".FastBasisExtender).ModDownQPto" + dir
		allGoals = append(allGoals, &Goal{Name: "ModDownQPto" + v, Fn: fn, Props: []string{"C12"}, Uses: []string{cUpExact}, Run: func(g *G) {
			g.wordMode()
			st := g.newState()
			lQ, lP := Sym("levelQ", SInt), Sym("levelP", SInt)
			st.assume(And(Ge(lQ, Num(0)), Lt(lQ, symNQ), Lt(lQ, Num(32)), Ge(lP, Num(0)), Lt(lP, symNP), Lt(lP, Num(32))))
			be := g.extender()
			nq, np := Sym("rowsQ", SInt), Sym("rowsP", SInt)
			st.assume(And(Gt(nq, lQ), Gt(np, lP)))
			xq, xp := g.wpoly("p1Q", nq), g.wpoly("p1P", np)
			q, p, lo, ld := qm, pm, lQ, lP
			xo, xd := xq, xp
			out := g.wpoly("p2", nq)
			if dir == "P" {
				q, p, lo, ld = pm, qm, lP, lQ
				xo, xd = xp, xq
				out = g.wpoly("p2", np)
			}
			if alias != "" {
				out = xo
			}
			g.reducedInputs(map[string]func(i *Term) *Term{"p1Q": qm, "p1P": pm})
			g.returns(g.exec(st, fn, be, lQ, lP, xq, xp, out), nil, func(st *State, _ Val) {
				o := g.pre(st)
				i, c := Sym("i", SInt), Sym("c", SInt)
				g.branch(st, func(st *State) {
					st.assume(And(Ge(i, Num(0)), Le(i, lo), Ge(c, Num(0)), Lt(c, symN)))
					got := wordT(st.readLeaf(wrow(out, i, c), tU64))
					xw := func(u, c *Term) *Term { return wordT(o.readLeaf(wrow(xd, u, c), tU64)) }
					up := func(c *Term) *Term {
						x := func(u *Term) *Term {
							if dir != "QNTT" {
								return xw(u, c)
							}
							b := Sym("b?", SInt)
							bd, bb := bind(xw(u, b), b.Name)
							return App("INTT", SInt, p(u), bd, bb, c)
						}
						return g.extended(st, x, p, Add(ld, Num(1)), q(i))
					}
					x := wordT(o.readLeaf(wrow(xo, i, c), tU64))
					u := Sym("π?", SInt)
					r := up(c)
					if dir == "QNTT" {
						b := Sym("ρ?", SInt)
						bd, bb := bind(up(b), b.Name)
						r = App("NTT", SInt, q(i), bd, bb, c)
					}
					want := Mul(Sub(x, r), prodOver(Add(ld, Num(1)), g.mkInv(q(i), p(u)), u.Name))
					g.congr(st, q(i), got, want, "the rows hold the quotient of the input minus its remainder")
					g.check(st, And(Ge(got, Num(0)), Lt(got, q(i))), "the quotient is reduced")
				})
				ok := []*Addr{out.field(0, "Coeffs").deref()}
				if dir == "QNTT" {
					ok = append(ok, xp.field(0, "Coeffs").deref())
				}
				g.frame(st, anyOf(within(ok...), func(a *Addr) *Term {
					if a.R.ID == "be" && strings.HasPrefix(a.P[0].S, "polypool") {
						return True
					}
					return nil
				}))
			})
		}})
	}
}

// ---- constructors

func (st *State) allocWords(site, what string, t types.Type) *Addr {
	return st.alloc(site+"#"+what, t, "")
}

func init() {
	allContracts[cTables] = &Contract{Fn: cTables, Apply: func(e *Engine, st *State, a []Val, site string) []Outcome {
		if len(a) != 2 {
			return nil
		}
		Q, ok1 := isWords(a[0])
		P, ok2 := isWords(a[1])
		if !ok1 || !ok2 {
			return nil
		}
		n, np := Q.Len, P.Len
		e.require(st, And(Ge(n, Num(1)), Ge(np, Num(0))), "a source modulus", site)
		u, j, w := Sym("u?", SInt), Sym("j?", SInt), Sym("w?", SInt)
		s := st.clone()
		s.assume(And(Ge(u, Num(0)), Lt(u, n), Ge(j, Num(0)), Lt(j, np)))
		qu, pj := modT(s.elem(Q, u, tU64)), modT(s.elem(P, j, tU64))
		q := func(i *Term) *Term { return qu.Sub(Subst{u.Name: i}) }
		inv := st.allocWords(site, "inv", tWords)
		mod := st.allocWords(site, "mod", types.NewSlice(tWords))
		vt := st.allocWords(site, "vt", types.NewSlice(tWords))
		rng := func(x, n *Term) *Term { return And(Ge(x, Num(0)), Lt(x, n)) }
		sl := func(a *Addr, n *Term) *SliceV { return &SliceV{Base: a, Off: Num(0), Len: n, Cap: n} }
		st.writeAll(inv.index(u), []*Term{u}, rng(u, n), e.tabInv(q, n, u))
		st.writeAll(mod.index(j).deref().index(u), []*Term{j, u}, And(rng(j, np), rng(u, n)), e.tabMod(q, n, u, pj))
		st.writeAll(vt.index(j).deref().index(w), []*Term{j, w}, And(rng(j, np), rng(w, Add(n, Num(1)))), e.tabV(q, n, w, pj))
		st.writeAllV(mod.index(j), j, rng(j, np), sl(mod.index(j).deref(), n))
		st.writeAllV(vt.index(j), j, rng(j, np), sl(vt.index(j).deref(), Add(n, Num(1))))
		return []Outcome{{St: st, Val: &StructV{T: e.typ(pkMk, "modupParams"), F: []Val{sl(inv, n), sl(mod, np), sl(vt, np)}}}}
	}}
	allContracts[cDown] = &Contract{Fn: cDown, Apply: func(e *Engine, st *State, a []Val, site string) []Outcome {
		if len(a) != 2 {
			return nil
		}
		ra, ok1 := isPtr(a[0])
		rb, ok2 := isPtr(a[1])
		if !ok1 || !ok2 {
			return nil
		}
		q, n, _ := ringModuli(e, st, ra)
		p, np, _ := ringModuli(e, st, rb)
		t := st.allocWords(site, "down", types.NewSlice(tWords))
		i, j := Sym("i?", SInt), Sym("j?", SInt)
		rng := And(Ge(i, Num(0)), Lt(i, n), Ge(j, Num(0)), Lt(j, np))
		st.writeAll(t.index(j).deref().index(i), []*Term{j, i}, rng, e.tabDown(p, j, q(i)))
		st.writeAllV(t.index(j), j, And(Ge(j, Num(0)), Lt(j, np)), &SliceV{Base: t.index(j).deref(), Off: Num(0), Len: n, Cap: n})
		return []Outcome{{St: st, Val: &SliceV{Base: t, Off: Num(0), Len: np, Cap: np}}}
	}}
}

func (st *State) writeAllV(a *Addr, x *Term, rng *Term, v Val) {
	args := a.Args()
	hs := make([]*Term, len(args))
	m := Subst{}
	g := []*Term{}
	for i, t := range args {
		hs[i] = hole(i)
		if t.key == x.key {
			m[x.Name] = hole(i)
			continue
		}
		g = append(g, Eq(hole(i), t))
	}
	st.writeGuarded(a.withArgs(hs), And(append(g, rng.Sub(m))...), subVal(v, m), false)
}

func init() {
	fn := "(*" + pkMk + ".FastBasisExtender).ShallowCopy"
	allGoals = append(allGoals, &Goal{Name: "FastBasisExtender.ShallowCopy", Fn: fn, Props: []string{"C12"}, Run: func(g *G) {
		g.wordMode()
		st := g.newState()
		be := g.extender()
		g.returns(g.exec(st, fn, be), nil, func(st *State, v Val) {
			r, ok := v.(*Addr)
			g.oblige(ok && !r.Nil && g.isFresh(r), "a new object", "", valStr(v))
			if !ok || r.Nil {
				return
			}
			T := g.typ(pkMk, "FastBasisExtender")
			for _, n := range []string{"ringQ", "ringP", "paramsQtoP", "paramsPtoQ", "modDownparamsPtoQ", "modDownparamsQtoP"} {
				x, _ := st.get(r, T, n)
				y, _ := st.get(be, T, n)
				g.valEq(st, x, y, n+" is shared")
			}
			for i, n := range []string{"polypoolQ", "polypoolP"} {
				x, _ := st.get(r, T, n)
				a, ok := x.(*Addr)
				g.oblige(ok && !a.Nil && g.isFresh(a) && st.polyIsP(a) == (i == 1), n+" is a new polynomial of its ring", "", valStr(x))
			}
			g.frame(st, noChange)
		})
	}})
}

func init() {
	fn := pkMk + ".NewFastBasisExtender"
	allGoals = append(allGoals, &Goal{Name: "NewFastBasisExtender", Fn: fn, Props: []string{"C12"}, Uses: []string{cTables, cDown}, Run: func(g *G) {
		g.wordMode()
		st := g.newState()
		rq, rp := g.special("ringQ"), g.special("ringP")
		g.returns(g.exec(st, fn, rq, rp), nil, func(st *State, v Val) {
			be, ok := v.(*Addr)
			g.oblige(ok && !be.Nil && g.isFresh(be), "a new object", "", valStr(v))
			if !ok || be.Nil {
				return
			}
			T := g.typ(pkMk, "FastBasisExtender")
			f := func(n string) Val { v, _ := st.get(be, T, n); return v }
			g.valEq(st, f("ringQ"), rq, "the main ring")
			g.valEq(st, f("ringP"), rp, "the auxiliary ring")
			i := Sym("lvl", SInt)
			tab := func(name string, q, p func(i *Term) *Term, nq, np *Term) {
				g.check(st, Eq(sliceLen(f(name)), nq), name+": tables for every number of source moduli")
				g.branch(st, func(st *State) {
					st.assume(And(Ge(i, Num(0)), Lt(i, nq)))
					g.checkTables(st, st.elem(f(name), i, g.typ(pkMk, "modupParams")), q, p, Add(i, Num(1)), np, name+": ")
				})
			}
			tab("paramsQtoP", qm, pm, symNQ, symNP)
			tab("paramsPtoQ", pm, qm, symNP, symNQ)
			g.checkDown(st, f("modDownparamsPtoQ"), qm, pm, symNQ, symNP, "PtoQ: ")
			g.checkDown(st, f("modDownparamsQtoP"), pm, qm, symNP, symNQ, "QtoP: ")
			for i, n := range []string{"polypoolQ", "polypoolP"} {
				a, ok := f(n).(*Addr)
				g.oblige(ok && !a.Nil && g.isFresh(a) && st.polyIsP(a) == (i == 1), n+" is a new polynomial of its ring", "", valStr(f(n)))
			}
			g.frame(st, noChange)
		})
	}})
}

// ---- the decomposer

// digit geometry with n auxiliary moduli
// digitSize: max(1, n/gamma), by cases
func digitSize(st *State, n *Term, one bool) *Term {
	d := Div(n, symGamma)
	if one {
		st.assume(Eq(d, Num(0)))
		return Num(1)
	}
	st.assume(Ge(d, Num(1)))
	return d
}

func init() {
	fn := pkMk + ".NewDecomposer"
	allGoals = append(allGoals, &Goal{Name: "NewDecomposer", Fn: fn, Props: []string{"C12"}, Uses: []string{cTables}, Run: func(g *G) {
		g.wordMode()
		g.S.linear = true
		st := g.newState()
		rq, rp := g.special("ringQ"), g.special("ringP")
		g.returns(g.exec(st, fn, rq, rp, symGamma), nil, func(st *State, v Val) {
			d, ok := v.(*Addr)
			g.oblige(ok && !d.Nil && g.isFresh(d), "a new object", "", valStr(v))
			if !ok || d.Nil {
				return
			}
			T := g.typ(pkMk, "Decomposer")
			f := func(n string) Val { v, _ := st.get(d, T, n); return v }
			g.valEq(st, f("ringQ"), rq, "the main ring")
			g.valEq(st, f("ringP"), rp, "the auxiliary ring")
			lv, b, j := Sym("lvlP", SInt), Sym("b", SInt), Sym("d", SInt)
			tMU := g.typ(pkMk, "modupParams")
			t1 := types.NewSlice(tMU)
			t2 := types.NewSlice(t1)
			if !g.check(st, Ge(sliceLen(f("modUpParams")), Sub(symNP, Num(1))), "tables for every number of auxiliary moduli above one") {
				return
			}
			for _, one := range []bool{true, false} {
				one := one
				g.branch(st, func(st *State) {
					st.assume(And(Ge(lv, Num(0)), Lt(lv, Sub(symNP, Num(1)))))
					al := digitSize(st, Add(lv, Num(2)), one)
					st.assume(And(Ge(b, Num(0)), Lt(Mul(b, al), symNQ)))
					st.assume(And(Ge(j, Num(0)), Lt(Add(j, Num(1)), al), Lt(AddAll(Mul(b, al), j, Num(1)), symNQ)))
					x := st.elem(f("modUpParams"), lv, t2)
					if !g.check(st, Lt(b, sliceLen(x)), "tables for every digit") {
						return
					}
					y := st.elem(x, b, t1)
					if !g.check(st, Lt(j, sliceLen(y)), "tables for every size of a digit") {
						return
					}
					src := func(u *Term) *Term { return qm(Add(Mul(b, al), u)) }
					g.checkTables(st, st.elem(y, j, tMU), src, qm, Add(j, Num(2)), AddAll(symNQ, lv, Num(2)), "")
				})
			}
			g.frame(st, noChange)
		})
	}})
}

// decomposerAt: a decomposer whose digits have al moduli with lp+1 auxiliary ones
func (g *G) decomposerAt(al, lp *Term) *Addr {
	d := g.ptr("dec", pkMk, "Decomposer")
	prev := g.baseHook
	g.baseHook = func(st *State, a *Addr, t types.Type) Val {
		if a.R.ID != "dec" || len(a.P) == 0 || a.P[0].S != "modUpParams" {
			if prev != nil {
				return prev(st, a, t)
			}
			return nil
		}
		sl := func(n *Term) Val { return &SliceV{Base: a.deref(), Off: Num(0), Len: n, Cap: n} }
		if len(a.P) == 1 {
			return sl(Sub(symNP, Num(1)))
		}
		if !st.valid(Eq(a.P[2].T, Sub(lp, Num(1)))) {
			panic(unsupported("tables for other auxiliary moduli: %s", a))
		}
		if len(a.P) == 3 {
			return sl(Div(AddAll(symNQ, al, Num(-1)), al))
		}
		b := a.P[4].T
		if len(a.P) == 5 {
			return sl(Sub(Min(al, Sub(symNQ, Mul(b, al))), Num(1)))
		}
		n, np := Add(a.P[6].T, Num(2)), AddAll(symNQ, lp, Num(1))
		src := func(u *Term) *Term { return qm(Add(Mul(b, al), u)) }
		f := a.P[7].S
		switch {
		case len(a.P) == 8 && f == "qoverqiinvqi":
			return sl(n)
		case len(a.P) == 8:
			return sl(np)
		case len(a.P) == 10 && f == "qoverqiinvqi":
			return g.tabInv(src, n, a.P[9].T)
		case len(a.P) == 10 && f == "qoverqimodp":
			return sl(n)
		case len(a.P) == 10:
			return sl(Add(n, Num(1)))
		case len(a.P) == 12 && f == "qoverqimodp":
			return g.tabMod(src, n, a.P[11].T, qm(a.P[9].T))
		case len(a.P) == 12:
			return g.tabV(src, n, a.P[11].T, qm(a.P[9].T))
		}
		panic(unsupported("field %s of the decomposer", a))
	}
	return d
}

func init() {
	fn := "(*" + pkMk + ".Decomposer).DecomposeAndSplit"
	for _, cs := range []string{"alpha=1", "single", "full", "partial"} {
		cs := cs
		allGoals = append(allGoals, &Goal{Name: "DecomposeAndSplit[" + cs + "]", Fn: fn, Props: []string{"C12"}, Uses: []string{cMultSum}, Run: func(g *G) {
			g.wordMode()
			g.S.linear = true
			st := g.newState()
			lQ, lP, b := Sym("levelQ", SInt), Sym("levelP", SInt), Sym("b", SInt)
			st.assume(And(Ge(lQ, Num(0)), Lt(lQ, symNQ), Ge(lP, Num(0)), Lt(lP, symNP)))
			al := Num(1)
			if cs != "alpha=1" {
				al = Sym("al", SInt)
				st.assume(And(Ge(al, Num(2)), Le(al, Num(32)), Ge(lP, Num(1))))
			}
			st.assume(And(Ge(b, Num(0)), Le(Mul(b, al), lQ)))
			start := Mul(b, al)
			nd := Num(1)
			switch cs {
			case "single": // a last digit with one modulus
				st.assume(Eq(lQ, start))
			case "full":
				st.assume(Ge(lQ, Sub(Add(start, al), Num(1))))
				nd = al
			case "partial":
				st.assume(And(Gt(lQ, start), Lt(lQ, Sub(Add(start, al), Num(1)))))
				nd = Add(Sub(lQ, start), Num(1))
			}
			d := g.decomposerAt(al, lP)
			r0, r1, r2 := Sym("rows0", SInt), Sym("rows1", SInt), Sym("rows2", SInt)
			st.assume(And(Gt(r0, lQ), Gt(r1, lQ), Gt(r2, lP)))
			p0, p1Q, p1P := g.wpoly("p0Q", r0), g.wpoly("p1Q", r1), g.wpoly("p1P", r2)
			g.reducedInputs(map[string]func(i *Term) *Term{"p0Q": qm})
			g.returns(g.exec(st, fn, d, lQ, lP, al, b, symGamma, p0, p1Q, p1P), nil, func(st *State, _ Val) {
				o := g.pre(st)
				t, c := Sym("t", SInt), Sym("c", SInt)
				x := func(u *Term) *Term { return wordT(o.readLeaf(wrow(p0, Add(start, u), c), tU64)) }
				src := func(u *Term) *Term { return qm(Add(start, u)) }
				want := func(m *Term) *Term {
					if cs == "alpha=1" || cs == "single" {
						return x(Num(0))
					}
					return g.extended(st, x, src, nd, m)
				}
				check := func(p *Addr, m func(i *Term) *Term, lo, hi *Term, own bool, what string) {
					g.branch(st, func(st *State) {
						st.assume(And(Ge(t, lo), Lt(t, hi), Ge(c, Num(0)), Lt(c, symN)))
						if !st.sat() {
							return
						}
						got := wordT(st.readLeaf(wrow(p, t, c), tU64))
						if own && g.congruent(st, m(t), got, wordT(o.readLeaf(wrow(p0, t, c), tU64))) {
							g.oblige(true, what, "", "")
							return
						}
						g.congr(st, m(t), got, want(m(t)), what)
					})
				}
				end := Add(start, nd)
				check(p1Q, qm, Num(0), start, false, "rows below the digit hold its residues")
				check(p1Q, qm, start, end, true, "rows of the digit hold its residues")
				check(p1Q, qm, end, Add(lQ, Num(1)), false, "rows above the digit hold its residues")
				check(p1P, pm, Num(0), Add(lP, Num(1)), false, "auxiliary rows hold the residues of the digit")
				g.frame(st, within(p1Q.field(0, "Coeffs").deref(), p1P.field(0, "Coeffs").deref()))
			})
		}})
	}
}

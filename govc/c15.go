package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Training programs: the encrypted row and column sums, over the contracts of
// the evaluator (proved as goals of C03, C06 and C09). Ciphertexts are opaque
// here; their ghost state is the slot vector they encrypt, scale and level.

var lrPrograms = []string{"lr", "lr_minibatch", "lr_toy", "lr_minibatch_toy"}

func lrPkg(prog string) string { return "mk-lr/verif_" + prog }

type ctGhost struct {
	Msg        *RP // the slots, as an element of the ring; σ_r is the cyclic shift left by r
	Scale, Lvl *Term
	Party      *Addr // ciphertext with the same parties
}

func (st *State) ctG(v Val) *ctGhost {
	a := asAddr(v)
	if a.Nil {
		panic(goPanic{"nil ciphertext"})
	}
	g, ok := st.Ghost["ct|"+a.R.ID].(*ctGhost)
	if !ok || len(a.P) != 0 {
		panic(unsupported("ciphertext %s", a))
	}
	return g
}

func (st *State) newCt(site string, g *ctGhost) *Addr {
	st.Cnt["ct"]++
	a := &Addr{R: st.E.root(fmt.Sprintf("ct%d@%s", st.Cnt["ct"], site), st.E.typ(pkMc, "Ciphertext"))}
	st.Ghost["ct|"+a.R.ID] = g
	return a
}

func isParam(v Val, id string) bool {
	a, ok := v.(*Addr)
	return ok && !a.Nil && a.R.ID == id && len(a.P) == 0
}

func init() {
	one := func(st *State, v Val) []Outcome { return []Outcome{{St: st, Val: v}} }
	ck := func(name, fn string, ap func(e *Engine, st *State, args []Val, site string) []Outcome) {
		allContracts[name] = &Contract{Fn: fn, Apply: ap}
	}
	ck("lr:RotateNew", evm("RotateNew"), func(e *Engine, st *State, args []Val, site string) []Outcome {
		c := st.ctG(args[1])
		e.oblige(isParam(args[3], "rtk"), "rotation with the rotation key set", site, valStr(args[3]))
		return one(st, st.newCt(site, &ctGhost{sigma(c.Msg, asTerm(args[2]), false), c.Scale, c.Lvl, c.Party}))
	})
	ck("lr:AddNew", evm("AddNew"), func(e *Engine, st *State, args []Val, site string) []Outcome {
		a, b := st.ctG(args[1]), st.ctG(args[2])
		if a.Party.R != b.Party.R {
			panic(unsupported("sum of ciphertexts of different parties"))
		}
		if !st.valid(Eq(a.Scale, b.Scale)) {
			panic(unsupported("sum of ciphertexts of different scales"))
		}
		return one(st, st.newCt(site, &ctGhost{rpAdd(a.Msg, b.Msg), a.Scale, Min(a.Lvl, b.Lvl), a.Party}))
	})
	ck("lr:MulPtxtNew", evm("MulPtxtNew"), func(e *Engine, st *State, args []Val, site string) []Outcome {
		c := st.ctG(args[1])
		if !isParam(args[2], "mask") {
			panic(unsupported("plaintext %s", valStr(args[2])))
		}
		// scale and level are those of the rescaling; they depend on the scales and levels of the operands only
		return one(st, st.newCt(site, &ctGhost{rpMul(rpAtom(A("mask")), c.Msg), App("rescaledScale", SReal, c.Scale, c.Lvl), App("rescaledLevel", SInt, c.Scale, c.Lvl), c.Party}))
	})
	ck("lr:CopyNew", "(*"+pkMc+".Ciphertext).CopyNew", func(e *Engine, st *State, args []Val, site string) []Outcome {
		c := *st.ctG(args[0])
		return one(st, st.newCt(site, &c))
	})
	uses := []string{"lr:RotateNew", "lr:AddNew", "lr:MulPtxtNew", "lr:CopyNew"}
	for _, prog := range lrPrograms {
		prog := prog
		for _, col := range []bool{false, true} {
			col := col
			fn := lrPkg(prog) + ".SumRowVec"
			name := prog + ".SumRowVec"
			if col {
				fn, name = lrPkg(prog)+".SumColVec", prog+".SumColVec"
			}
			addGoal(&Goal{Name: name, Fn: fn, Props: []string{"C15"}, Uses: uses, Run: func(g *G) {
				eval, rtk, ct := g.evalp(), g.ptr("rtk", pkMk, "RotationKeySet"), g.mct("ct")
				nr, nc := Sym("numRow", SInt), Sym("numCol", SInt)
				st := g.newState()
				st.addFact(And(Ge(nr, Num(1)), Ge(nc, Num(1)), Eq(Mul(nr, nc), symH)))
				lr, lc := Sym("logRow", SInt), Sym("logCol", SInt)
				st.addFact(And(Ge(lr, Num(0)), Ge(lc, Num(0)), Eq(Add(lr, lc), Sub(symLogN, Num(1))), Eq(nr, Pow2(lr)), Eq(nc, Pow2(lc)), Eq(Ge(lr, Num(1)), Ge(nr, Num(2))), Eq(Ge(lc, Num(1)), Ge(nc, Num(2)))))
				g.pow2Of = map[string]*Term{nr.key: lr, nc.key: lc}
				m := rpAtom(A("msg"))
				st.Ghost["ct|ct"] = &ctGhost{m, App("scale|ct", SReal), App("lvl|ct", SInt), ct}
				g.loopHook = ladder(nr, nc)
				args := []Val{eval, rtk, ct, nr, nc}
				if col {
					args = []Val{eval, g.ptr("rlk", pkMk, "RelinearizationKeySet"), rtk, ct, g.ptr("mask", pkCkks, "Plaintext"), nr, nc}
				}
				l := Fresh("l", SInt)
				want := rpSum(l, And(Ge(l, Num(0)), Lt(l, nr)), sigma(m, Mul(nc, l), false))
				if col {
					want = rpSum(l, And(Ge(l, Num(0)), Lt(l, nc)), sigma(m, l, false))
					k := Fresh("k", SInt)
					want = rpSum(k, And(Ge(k, Num(0)), Lt(k, nc)), sigma(rpMul(rpAtom(A("mask")), want), Neg(k), false))
				}
				g.returns(g.exec(st, fn, args...), nil, func(st *State, r Val) {
					out := st.ctG(r)
					want := want
					switch {
					case !col && st.valid(Eq(nr, Num(1))):
						want = m // a single row
					case col && st.valid(Eq(nc, Num(1))):
						want = rpMul(rpAtom(A("mask")), m)
					}
					res := g.rpResidue(st, rpSub(out.Msg, want), nil)
					if len(res) > 0 && !col {
						// all rows either way round
						l := Fresh("l", SInt)
						res = g.rpResidue(st, rpSub(out.Msg, rpSum(l, And(Ge(l, Num(0)), Lt(l, nr)), sigma(m, Neg(Mul(nc, l)), false))), nil)
					}
					g.oblige(len(res) == 0, "the slots of the result are the sums", "", "got "+clip(out.Msg.key)+"\n  want "+clip(want.key)+"\n  under "+pcStr(st))
					g.oblige(out.Party.R == ct.R, "parties of the result", "", valStr(out.Party))
				})
				// from the ring to the slots: slot s = row·numCol + c, shifts modulo numRow·numCol
				s := g.newState()
				row, c, l, d := Sym("row", SInt), Sym("c", SInt), Sym("l", SInt), Sym("d", SInt)
				s.addFact(And(Ge(nr, Num(1)), Ge(nc, Num(1)), Ge(row, Num(0)), Lt(row, nr), Ge(c, Num(0)), Lt(c, nc), Ge(l, Num(0))))
				if col {
					// the mask is one at the multiples of numCol: among the shifts by -l only l = c meets one
					s.assume(And(Lt(l, nc), Eq(Sub(c, l), Mul(d, nc))))
					g.check(s, Eq(l, c), "slot lemma: the mask selects the first column")
					return
				}
				// shifting by l rows leads to row (row + l) mod numRow of the same column
				w := Sym("w", SInt)
				s.assume(And(Lt(l, nr), Ge(w, Num(0)), Le(w, Num(1)), Eq(Add(row, l), Add(d, Mul(w, nr))), Ge(d, Num(0)), Lt(d, nr)))
				g.check(s, Eq(Sub(Add(Add(Mul(row, nc), c), Mul(nc, l)), Mul(w, Mul(nr, nc))), Add(Mul(d, nc), c)), "slot lemma: shifts by rows stay in the column")
			}})
		}
	}
}

// ladder is the invariant of a rotate-and-add loop: with M the ciphertext on
// entry and k = 2^j doubling, the ciphertext encrypts the sum over l < k of the
// shifts of M by l·step, and the bound of the loop is a multiple of k, bound =
// k·w. (Counting down, the shifts are by l·step·w.) A counter that goes up by
// one stands at its first value plus j.
func ladder(bounds ...*Term) func(e *Engine, st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) ([]Exit, bool) {
	return func(e *Engine, st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) ([]Exit, bool) {
		rot := false
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() != nil && namedOfPtrResult(c) == pkMc+".Ciphertext" {
					rot = true
				}
			}
			for _, s := range b.Succs {
				if s != l.header && l.blocks[s] && s.Dominates(b) {
					return nil, false // a loop of ladders
				}
			}
		}
		if !rot {
			return nil, false
		}
		g := &G{Engine: e}
		entry, latch := -1, -1
		for i, p := range l.header.Preds {
			if p == prev {
				entry = i
			} else {
				latch = i
			}
		}
		var ct *ssa.Phi
		var ints []*ssa.Phi
		exp := map[*ssa.Phi]bool{} // goes up by one
		for _, ins := range l.header.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			switch v := e.val(fr, p.Edges[entry]).(type) {
			case *Term:
				if v.Sort != SInt {
					panic(unsupported("ladder: variable %s", p.Name()))
				}
				ints = append(ints, p)
				if b, ok := p.Edges[latch].(*ssa.BinOp); ok && b.Op == token.ADD {
					for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if c, ok := xy[1].(*ssa.Const); ok && xy[0] == p && c.Int64() == 1 {
							exp[p] = true
						}
					}
				}
			case *Addr:
				if ct != nil {
					panic(unsupported("ladder: two ciphertexts"))
				}
				ct = p
			default:
				panic(unsupported("ladder: variable %s", p.Name()))
			}
		}
		if ct == nil || len(ints) == 0 {
			panic(unsupported("ladder: no ciphertext or no counter"))
		}
		m0 := st.ctG(e.val(fr, ct.Edges[entry]))
		st.Cnt["ladder"]++
		base := fmt.Sprintf("ladder%d", st.Cnt["ladder"])
		S := rpAtom(A(base))
		halves := func(s *State, v0, bound *Term) bool {
			return !v0.IsNum() && s.valid(Eq(v0, Div(bound, Num(2))))
		}
		// j = log k, when a counter is one of the exponents
		log := func(s *State, k, w, bound *Term) *Term {
			L := st.E.pow2Of[bound.key]
			if k.key == bound.key {
				return L
			}
			if n, ok := k.Int(); ok && n == 1 {
				s.addFact(Implies(Ge(w, Num(2)), Ge(L, Num(1))))
				s.addFact(Implies(Ge(w, Num(4)), Ge(L, Num(2))))
				return Num(0)
			}
			if k.Op != OpApp || k.Name != "pow2" {
				panic("ladder: exponent of " + k.key)
			}
			j := k.Args[0]
			s.addFact(And(Ge(j, Num(0)), Le(j, L), Implies(Ge(w, Num(2)), Lt(j, L)), Implies(Ge(w, Num(4)), Lt(Add(j, Num(1)), L))))
			s.addFact(Implies(Eq(w, Num(2)), Eq(Add(j, Num(1)), L)))
			return j
		}
		start := func(k, bound, w *Term) (*State, *Frame) {
			s, f := st.clone(), fr.clone()
			s.addFact(And(Ge(k, Num(1)), Eq(bound, Mul(k, w))))
			f.regs[ct] = s.newCt(base, &ctGhost{S, m0.Scale, m0.Lvl, m0.Party})
			for _, p := range ints {
				v0 := e.val(fr, p.Edges[entry]).(*Term)
				f.regs[p] = Mul(v0, k)
				if exp[p] {
					f.regs[p] = Add(v0, log(s, k, w, bound))
				} else if halves(s, v0, bound) {
					f.regs[p] = Div(w, Num(2))
				}
			}
			return s, f
		}
		anyK := func() *Term {
			if len(exp) > 0 {
				return Pow2(Fresh("j", SInt))
			}
			return Fresh("k", SInt)
		}
		back := func(x Exit, p *ssa.Phi) Val {
			for i, q := range l.header.Preds {
				if q == x.from {
					return e.val(x.fr, p.Edges[i])
				}
			}
			panic("back edge")
		}
		live := func(k, bound, w, fact *Term) []Exit {
			s, f := start(k, bound, w)
			s.addFact(fact)
			var r []Exit
			for _, x := range e.run(s, f, l.header, prev, l, true) {
				if !x.st.dead && x.st.sat() {
					r = append(r, x)
				}
			}
			return r
		}
		// the ciphertext after the last round of a loop that tests at its end
		after := func(x Exit) (c *ctGhost, id string) {
			if x.kind != 'x' || len(l.header.Preds) != 2 {
				return nil, ""
			}
			v, ok := x.fr.regs[ct.Edges[latch]]
			if !ok {
				return nil, ""
			}
			a, ok := v.(*Addr)
			if !ok || a.Nil {
				return nil, ""
			}
			c, _ = x.st.Ghost["ct|"+a.R.ID].(*ctGhost)
			return c, "ct|" + a.R.ID
		}
		// the bound of the loop, and the step, from the first iteration
		var step, bound, step2, bound2 *Term
		down, bottom := false, false
		for _, p := range ints {
			for _, b := range bounds {
				if halves(st, e.val(fr, p.Edges[entry]).(*Term), b) {
					down = true
				}
			}
		}
		shiftOf := func(msg *RP) *Term {
			d := rpSub(msg, S)
			if len(d.Cs) == 1 && len(d.Cs[0].F) == 1 && d.Cs[0].F[0].A.Kind == base {
				return d.Cs[0].F[0].A.Rot
			}
			return nil
		}
		for _, b := range bounds {
			u := Fresh("u", SInt)
			first := func(fact *Term) (only, some bool, st1 *Term) {
				only = true
				for _, x := range live(Num(1), b, MulC(2, u), fact) {
					if x.kind != 'b' {
						only = false
						continue
					}
					some = true
					if t := shiftOf(x.st.ctG(back(x, ct)).Msg); t != nil {
						for st1 = t; st1.Op == OpIte && x.st.valid(st1.Args[0]); {
							st1 = st1.Args[1]
						}
					}
				}
				if st1 != nil && down {
					st1 = st1.Sub(Subst{u.Name: Num(1)})
				}
				return
			}
			only, some, st1 := first(Ge(u, Num(1)))
			if only && some && st1 != nil {
				ends := true
				for _, x := range live(b, b, Num(1), True) {
					if x.kind == 'b' {
						ends = false
					}
				}
				if ends || step == nil {
					step, bound = st1, b
				}
				if ends {
					break
				}
				continue
			}
			if o, some, t := first(Ge(u, Num(2))); o && some && t != nil && !down {
				k := anyK()
				ends, n := true, 0
				for _, x := range live(k, b, Num(2), True) {
					if c, _ := after(x); c == nil || shiftOf(c.Msg) == nil {
						ends = false
					}
					n++
				}
				if ends && n > 0 {
					step, bound, bottom = t, b, true
					break
				}
			}
			if some && st1 != nil {
				// nothing to add for a bound of one: this is the bound, and the loop may end too early
				none := true
				for _, x := range live(Num(1), b, Num(1), True) {
					if x.kind != 'x' {
						none = false
					}
				}
				if none {
					step2, bound2 = st1, b
				}
			}
		}
		if bound == nil {
			step, bound = step2, bound2
		}
		if bound == nil || step == nil {
			panic(unsupported("ladder: no bound or step"))
		}
		var exits []Exit
		full := func() *RP {
			n := Fresh("l", SInt)
			return rpSum(n, And(Ge(n, Num(0)), Lt(n, bound)), sigma(m0.Msg, Mul(n, step), false))
		}
		doubled := func(x Exit, c *ctGhost, shift *Term) {
			d := rpSub(c.Msg, rpAdd(S, sigma(S, shift, false)))
			res := g.rpResidue(x.st, d, nil)
			g.oblige(len(res) == 0, "rotate-and-add loop: the partial sum doubles", "", "got "+clip(c.Msg.key))
			g.oblige(c.Party.R == m0.Party.R && x.st.valid(And(Eq(c.Scale, m0.Scale), Eq(c.Lvl, m0.Lvl))), "rotate-and-add loop: parties, scale and level are kept", "", "")
		}
		run := func(k, w *Term, wfact *Term, last bool, u *Term) {
			s, f := start(k, bound, w)
			s.addFact(wfact)
			if !s.sat() {
				return
			}
			if last && !bottom {
				s.ctG(f.regs[ct]).Msg = full()
			}
			for _, x := range e.run(s, f, l.header, prev, l, true) {
				if x.st.dead || !x.st.sat() {
					continue
				}
				switch x.kind {
				case 'b':
					if last {
						g.oblige(false, "rotate-and-add loop: ends when the bound is reached", "", pcStr(x.st))
						continue
					}
					shift := Mul(step, k)
					for _, p := range ints {
						if exp[p] {
							g.check(x.st, Eq(asTerm(back(x, p)), Add(f.regs[p].(*Term), Num(1))), "rotate-and-add loop: the exponent goes up by one")
							continue
						}
						if halves(s, e.val(fr, p.Edges[entry]).(*Term), bound) {
							g.check(x.st, Eq(asTerm(back(x, p)), Div(u, Num(2))), "rotate-and-add loop: the counter is halved")
							continue
						}
						g.check(x.st, Eq(asTerm(back(x, p)), MulC(2, f.regs[p].(*Term))), "rotate-and-add loop: the counter doubles")
					}
					if down {
						shift = Mul(step, u)
					}
					doubled(x, x.st.ctG(back(x, ct)), shift)
				case 'x':
					if !last {
						g.oblige(false, "rotate-and-add loop: does not end before the bound", "", pcStr(x.st))
						continue
					}
					if bottom {
						c, id := after(x)
						if c == nil {
							panic(unsupported("ladder: the ciphertext after the loop"))
						}
						doubled(x, c, Mul(step, k))
						x.st.Ghost[id] = &ctGhost{full(), c.Scale, c.Lvl, c.Party}
					}
					exits = append(exits, x)
				default:
					exits = append(exits, x)
				}
			}
		}
		k, u := anyK(), Fresh("u", SInt)
		if bottom {
			g.check(st, Ge(bound, Num(2)), "rotate-and-add loop: at least one round")
			run(k, MulC(2, u), Ge(u, Num(2)), false, u)
			run(anyK(), Num(2), True, true, nil)
			return exits, true
		}
		run(k, MulC(2, u), Ge(u, Num(1)), false, u)
		run(bound, Num(1), True, true, nil)
		return exits, true
	}
}

func namedOfPtrResult(c *ssa.Call) string {
	if p, ok := c.Type().(*types.Pointer); ok {
		return namedOf(p.Elem())
	}
	return ""
}

// ---- the key material set up by the programs

// rtkHas: the ghost relation of a rotation key set, (id, rotation) pairs
func rtkHas(set *Addr, id, rot *Term) *Addr {
	return set.field(-2, "pairs").key(id).key(rot).field(-1, "?")
}

func init() {
	one := func(st *State, v Val) []Outcome { return []Outcome{{St: st, Val: v}} }
	ck := func(fn string, ap func(e *Engine, st *State, args []Val, site string) Val) string {
		allContracts["setup:"+fn] = &Contract{Fn: fn, Apply: func(e *Engine, st *State, args []Val, site string) []Outcome {
			return one(st, ap(e, st, args, site))
		}}
		return "setup:" + fn
	}
	obj := func(pkg, typ string) func(e *Engine, st *State, args []Val, site string) Val {
		return func(e *Engine, st *State, args []Val, site string) Val {
			return st.alloc(site+":"+typ, e.typ(pkg, typ), "opaque")
		}
	}
	key := func(e *Engine, st *State, typ string, id Val, site string) *Addr {
		a := st.alloc(site+":"+typ, e.typ(pkMk, typ), "opaque")
		f, ft := (&G{Engine: e}).fieldAddr(a, e.typ(pkMk, typ), "ID")
		st.write(f, ft, id)
		return a
	}
	idOf := func(e *Engine, st *State, typ string, k Val) Val {
		a := asAddr(k)
		if a.Nil {
			panic(goPanic{"nil key"})
		}
		v, _ := st.get(a, e.typ(pkMk, typ), "ID")
		return v
	}
	add := func(set, typ string) string {
		return ck("(*"+pkMk+"."+set+").Add"+typ, func(e *Engine, st *State, args []Val, site string) Val {
			v, vt := st.get(asAddr(args[0]), e.typ(pkMk, set), "Value")
			st.mapSet(v.(*MapV), asTerm(idOf(e, st, typ, args[1])), vt.Underlying().(*types.Map).Elem(), args[1])
			return nil
		})
	}
	kg := "(*" + pkMk + ".KeyGenerator)."
	crsOf := func(v Val, e *Engine) *MapV {
		s := v.(*StructV)
		t := s.T
		if t == nil {
			t = e.typ(pkMk, "Parameters")
		}
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "CRS" {
				return s.F[i].(*MapV)
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "Parameters" {
				in := s.F[i].(*StructV)
				iu := e.typ(pkMk, "Parameters").Underlying().(*types.Struct)
				for j := 0; j < iu.NumFields(); j++ {
					if iu.Field(j).Name() == "CRS" {
						return in.F[j].(*MapV)
					}
				}
			}
		}
		panic(unsupported("parameters %s", valStr(v)))
	}
	newKG := func(e *Engine, st *State, args []Val, site string) Val {
		a := st.alloc(site+":KeyGenerator", e.typ(pkMk, "KeyGenerator"), "opaque")
		st.Ghost["kg|"+a.R.ID] = crsOf(args[0], e)
		return a
	}
	uses := []string{
		add("SecretKeySet", "SecretKey"), add("PublicKeySet", "PublicKey"), add("RelinearizationKeySet", "RelinearizationKey"), add("ConjugationKeySet", "ConjugationKey"),
		ck("(*"+pkMk+".RotationKeySet).AddRotationKey", func(e *Engine, st *State, args []Val, site string) Val {
			v, _ := st.get(asAddr(args[1]), e.typ(pkMk, "RotationKey"), "RotIdx")
			st.writeLeaf(rtkHas(asAddr(args[0]), asTerm(idOf(e, st, "RotationKey", args[1])), asTerm(v)), True)
			return nil
		}),
		ck(pkMc+".NewKeyGenerator", newKG), ck(pkMk+".NewKeyGenerator", newKG),
		ck(pkMc+".NewEncryptor", obj(pkMc, "Encryptor")), ck(pkMc+".NewDecryptor", obj(pkMc, "Decryptor")), ck(pkMc+".NewEvaluator", obj(pkMc, "Evaluator")),
		ck(kg+"GenKeyPair", func(e *Engine, st *State, args []Val, site string) Val {
			return &TupleV{V: []Val{key(e, st, "SecretKey", args[1], site), key(e, st, "PublicKey", args[1], site)}}
		}),
		ck(kg+"GenSecretKey", func(e *Engine, st *State, args []Val, site string) Val { return key(e, st, "SecretKey", args[1], site) }),
		ck(kg+"GenPublicKey", func(e *Engine, st *State, args []Val, site string) Val {
			return key(e, st, "PublicKey", idOf(e, st, "SecretKey", args[1]), site)
		}),
		ck(kg+"GenRelinearizationKey", func(e *Engine, st *State, args []Val, site string) Val {
			return key(e, st, "RelinearizationKey", idOf(e, st, "SecretKey", args[1]), site)
		}),
		ck(kg+"GenConjugationKey", func(e *Engine, st *State, args []Val, site string) Val {
			return key(e, st, "ConjugationKey", idOf(e, st, "SecretKey", args[1]), site)
		}),
		ck(kg+"GenRotationKey", func(e *Engine, st *State, args []Val, site string) Val {
			rot := asTerm(args[1])
			if !st.valid(Ge(rot, Num(0))) {
				panic(unsupported("key for a negative rotation"))
			}
			m, ok := st.Ghost["kg|"+asAddr(args[0]).R.ID].(*MapV)
			if !ok {
				panic(unsupported("key generator %s", valStr(args[0])))
			}
			e.require(st, st.mapHas(m, rot), "there is a reference string for the rotation key", site)
			a := key(e, st, "RotationKey", idOf(e, st, "SecretKey", args[2]), site)
			f, ft := (&G{Engine: e}).fieldAddr(a, e.typ(pkMk, "RotationKey"), "RotIdx")
			st.write(f, ft, rot)
			return a
		}),
		ck("(*"+pkMk+".Parameters).AddCRS", func(e *Engine, st *State, args []Val, site string) Val {
			v, _ := st.get(asAddr(args[0]), e.typ(pkMk, "Parameters"), "CRS")
			st.mapSet(v.(*MapV), asTerm(args[1]), types.NewPointer(e.typ(pkMk, "SwitchingKey")), st.alloc(site+":crs", e.typ(pkMk, "SwitchingKey"), "opaque"))
			return nil
		}),
	}
	addGoal(&Goal{Name: "keygen.GenDefaultRotationKeys", Fn: kg + "GenDefaultRotationKeys", Props: []string{"C10"}, Uses: uses, Run: func(g *G) {
		st := g.newState()
		k, sk, set := g.ptr("keygen", pkMk, "KeyGenerator"), g.ptr("sk", pkMk, "SecretKey"), g.ptr("rtkSet", pkMk, "RotationKeySet")
		ps, _ := st.get(k, g.typ(pkMk, "KeyGenerator"), "params")
		st.Ghost["kg|"+k.R.ID] = crsOf(ps, g.Engine)
		g.returns(g.exec(st, kg+"GenDefaultRotationKeys", k, sk, set), nil, func(st *State, _ Val) {
			id, _ := st.get(sk, g.typ(pkMk, "SecretKey"), "ID")
			e := Fresh("e", SInt)
			o := st.clone()
			o.assume(And(Ge(e, Num(0)), Lt(e, Sub(symLogN, Num(1)))))
			g.check(o, asTerm(o.readLeaf(rtkHas(set, asTerm(id), Pow2(e)), types.Typ[types.Bool])), "a rotation key of the party for every power of two")
			x, rot := str("x"), Fresh("rot", SInt)
			p := g.pre(st)
			o = st.clone()
			o.assume(Neq(x, asTerm(id)))
			g.valEq(o, o.readLeaf(rtkHas(set, x, rot), types.Typ[types.Bool]), p.readLeaf(rtkHas(set, x, rot), types.Typ[types.Bool]), "the keys of other parties stay")
		})
	}})
	for _, prog := range lrPrograms {
		prog := prog
		fn := lrPkg(prog) + ".genTestParams"
		addGoal(&Goal{Name: prog + ".genTestParams", Fn: fn, Props: []string{"C15"}, Uses: uses, Run: func(g *G) {
			st := g.newState()
			ids := g.ptr("ids", pkMk, "IDSet")
			params := st.read(g.ptr("params", pkMc, "Parameters"), g.typ(pkMc, "Parameters"))
			g.returns(g.exec(st, fn, params, ids), nil, func(st *State, r Val) {
				p := g.pre(st)
				t := r.(*TupleV).V
				if t[1].(*IfaceV).T != nil {
					return // no randomness: an error is reported
				}
				ctx := asAddr(t[0])
				ct := g.typ(lrPkg(prog), "testParams")
				iv, _ := p.get(ids, g.typ(pkMk, "IDSet"), "Value")
				id := str("id")
				has := p.mapHas(iv.(*MapV), id)
				for _, s := range []string{"skSet", "pkSet", "rlkSet"} {
					v, vt := st.get(ctx, ct, s)
					m, _ := st.get(asAddr(v), vt.Underlying().(*types.Pointer).Elem(), "Value")
					g.check(st, And(Implies(has, st.mapHas(m.(*MapV), id)), Implies(st.mapHas(m.(*MapV), id), has)), s+" holds the keys of exactly the parties")
				}
				v, _ := st.get(ctx, ct, "rtkSet")
				e := Fresh("e", SInt)
				o := st.clone()
				o.assume(And(has, Ge(e, Num(0)), Lt(e, Sub(symLogN, Num(1)))))
				g.check(o, asTerm(o.readLeaf(rtkHas(asAddr(v), id, Pow2(e)), types.Typ[types.Bool])), "a rotation key for every power of two and every party")
				// a rotation with a reference string of its own is done with its own key
				pv, _ := st.get(ctx, ct, "params")
				rot := Fresh("rot", SInt)
				now, was := crsOf(pv, g.Engine), crsOf(params, g.Engine)
				o = st.clone()
				o.assume(And(has, o.mapHas(now, rot), Not(p.mapHas(was, rot))))
				if o.sat() {
					g.check(o, asTerm(o.readLeaf(rtkHas(asAddr(v), id, rot), types.Typ[types.Bool])), "a rotation key of every party for every reference string that is added")
				}
			})
		}})
	}
}

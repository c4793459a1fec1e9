package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rotation by an index that has no key of its own: a loop over the binary
// digits of the index. Its invariant, with Φ the phase of the operand and ρ the
// index on entry:
//
//	k = 2^j, ρ = R·k + rem, 0 <= rem < k, R >= 0
//	phase(tmp) = σ_rem(Φ) + noise, and rem > 0 implies phase(out) = σ_rem(Φ) + noise
//
// It is established on entry, preserved by an arbitrary iteration (even and odd
// R), and R = 0 gives ρ = rem on exit.
func rotationLoop(e *Engine, st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) ([]Exit, bool) {
	if fr.fn.Pkg == nil || fr.fn.Pkg.Pkg.Path() != pkMc {
		return nil, false
	}
	calls := false
	objs := map[ssa.Value]bool{}
	var order []ssa.Value
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == pkMk && strings.HasPrefix(f.Name(), "Rotate") {
					calls = true
				}
			}
			var ops []*ssa.Value
			for _, op := range ins.Operands(ops) {
				v := *op
				if v == nil || definedIn(v, l) || objs[v] {
					continue
				}
				if p, ok := v.Type().(*types.Pointer); ok && (namedOf(p.Elem()) == pkMc+".Ciphertext" || namedOf(p.Elem()) == pkMk+".Ciphertext") {
					objs[v] = true
					order = append(order, v)
				}
			}
		}
	}
	if !calls {
		return nil, false
	}
	if len(st.Trackers) > 0 {
		panic(unsupported("rotation loop inside of a loop"))
	}
	g := &G{Engine: e}
	// the two counters
	var pk, pr *ssa.Phi
	byExp := false
	entry := -1
	for i, p := range l.header.Preds {
		if p == prev {
			entry = i
		}
	}
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		t, ok := e.val(fr, p.Edges[entry]).(*Term)
		if !ok || t.Sort != SInt {
			panic(unsupported("rotation loop: variable %s", p.Name()))
		}
		if n, ok := t.Int(); ok && n <= 1 && pk == nil {
			// the power of two, or its exponent
			pk, byExp = p, n == 0
		} else if pr == nil {
			pr = p
		} else {
			panic(unsupported("rotation loop: variables"))
		}
	}
	if pk == nil {
		panic(unsupported("rotation loop: counters"))
	}
	var rho *Term
	if pr != nil {
		rho = e.val(fr, pr.Edges[entry]).(*Term)
	} else {
		// the index is left alone and its digits are picked out: index & k
		for _, b := range fr.fn.Blocks {
			if !l.blocks[b] {
				continue
			}
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.BinOp)
				if !ok || c.Op != token.AND && (c.Op != token.SHR || !byExp) {
					continue
				}
				for _, v := range []ssa.Value{c.X, c.Y} {
					if definedIn(v, l) {
						continue
					}
					if t, ok := e.val(fr, v).(*Term); ok && !t.IsNum() {
						rho = t
					}
				}
			}
		}
		if rho == nil {
			panic(unsupported("rotation loop: counters"))
		}
	}
	half := MulC(8, symM)
	if !st.valid(And(Ge(rho, Num(0)), Lt(rho, half))) {
		panic(unsupported("rotation loop: the index is not normalised"))
	}
	// the two ciphertexts
	var tmp, out *Addr
	var lvl *Term
	var phi *RP
	for _, v := range order {
		a := asAddr(e.val(fr, v))
		if namedOf(v.Type().(*types.Pointer).Elem()) == pkMc+".Ciphertext" {
			a = st.innerCt(a)
		}
		lv := st.polyLevel(st.ctPoly(a, zeroID))
		if lvl == nil {
			lvl = lv
		} else if !st.valid(Eq(lv, lvl)) {
			panic(unsupported("rotation loop: levels"))
		}
		ph, dom := g.phase(st, a, lv, "rotation loop, on entry")
		if ph.IsZero() {
			if out != nil {
				panic(unsupported("rotation loop: ciphertexts"))
			}
			out = a
			continue
		}
		if tmp != nil || dom != 'C' {
			panic(unsupported("rotation loop: ciphertexts"))
		}
		tmp, phi = a, ph
	}
	if tmp == nil || out == nil {
		panic(unsupported("rotation loop: ciphertexts"))
	}
	own := map[string]bool{}
	kk := Fresh("id", SInt)
	for _, a := range []*Addr{tmp, out} {
		for _, k := range []*Term{zeroID, kk} {
			o := st.clone()
			o.assume(st.ctHas(a, k))
			if k == kk {
				o.assume(Neq(k, zeroID))
			}
			if !o.sat() {
				continue
			}
			own[o.rowAddr(o.ctPoly(a, k), ROW).Skel()] = true
		}
	}
	j, u, rem := Fresh("j", SInt), Fresh("u", SInt), Fresh("rem", SInt)
	k := Pow2(j)
	// the scratch memory of an iteration, by a trial run
	changed := map[string]*Cell{}
	setup := func(R *Term, remPos bool, rot *Term, seen map[string]*Cell) (*State, *Frame) {
		s := st.clone()
		s.Epoch++
		s.addFact(And(Ge(j, Num(0)), Ge(u, Num(0)), Ge(rem, Num(0)), Lt(rem, k), Eq(rho, Add(Mul(R, k), rem))))
		if remPos {
			s.assume(Gt(rem, Num(0)))
		} else {
			s.assume(Eq(rem, Num(0)))
		}
		for sk, c := range seen {
			if !c.Row {
				var hs []*Term
				for i := range c.Proto.Args() {
					hs = append(hs, hole(i))
				}
				n := s.cellW(c.Proto, false)
				n.push(Ov{G: True, V: App("hv|"+sk, SBool, hs...), Epoch: s.Epoch})
				continue
			}
			if !own[sk] {
				n := s.cellW(c.Proto, true)
				n.push(Ov{G: True, V: &RowV{'?', s.freshAtom("junk", "rotation loop "+sk)}, Epoch: s.Epoch})
			}
		}
		s.writePhase(tmp, lvl, sigma(phi, rot, false), "tmp")
		if remPos {
			s.writePhase(out, lvl, sigma(phi, rot, false), "out")
		} else {
			s.writePhase(out, lvl, nil, "out")
		}
		f := fr.clone()
		f.regs[pk] = k
		if byExp {
			f.regs[pk] = j
		}
		if pr != nil {
			f.regs[pr] = R
		}
		return s, f
	}
	// k <= R·k + rem = ρ < N/2 = 2^(logN-1), so j < logN-1
	lemma := func(s *State, R *Term) {
		if s.valid(Ge(R, Num(1))) {
			s.addFact(And(Le(k, rho), Lt(j, Sub(symLogN, Num(1)))))
		}
	}
	var exits []Exit
	run := func(R, cond *Term, remPos bool, rot *Term, collect bool) {
		s, f := setup(R, remPos, rot, changed)
		s.addFact(cond)
		lemma(s, R)
		if !s.sat() {
			return
		}
		base := s.clone()
		if pr == nil {
			e.digit = []*Term{rho, k, R, j}
			defer func() { e.digit = nil }()
		}
		for _, x := range e.run(s, f, l.header, prev, l, true) {
			if collect {
				for sk, c := range x.st.Cells {
					if base.Cells[sk] != c && c.Row && !own[sk] && (c.Proto.R.Kind != 'a' || st.Cells[sk] != nil) {
						if !g.isPool(genericAddr(c)) {
							panic(unsupported("rotation loop changes %s", sk))
						}
						changed[sk] = c
					}
					// a flag without meaning here
					if base.Cells[sk] != c && !c.Row && strings.HasSuffix(sk, ".IsMForm") {
						changed[sk] = c
					}
				}
				continue
			}
			switch x.kind {
			case 'p', 'r', 'x':
				exits = append(exits, x)
			case 'b':
				bi := -1
				for i, p := range l.header.Preds {
					if p == x.from {
						bi = i
					}
				}
				k2 := e.val(x.fr, pk.Edges[bi]).(*Term)
				if byExp {
					g.check(x.st, Eq(k2, Add(j, Num(1))), "rotation loop: the exponent grows by one")
				} else {
					g.check(x.st, Eq(k2, MulC(2, k)), "rotation loop: the power doubles")
				}
				if pr != nil {
					g.check(x.st, Eq(e.val(x.fr, pr.Edges[bi]).(*Term), u), "rotation loop: the index is halved")
				}
				rem2 := Sub(Add(Mul(R, k), rem), Mul(u, MulC(2, k)))
				g.phaseIs(x.st, tmp, lvl, sigma(phi, rem2, false), false, "rotation loop: the working ciphertext is rotated by the digits done")
				if x.st.valid(Gt(rem2, Num(0))) {
					g.phaseIs(x.st, out, lvl, sigma(phi, rem2, false), false, "rotation loop: the result is rotated by the digits done")
				}
				for sk, c := range x.st.Cells {
					if base.Cells[sk] == c || own[sk] || changed[sk] != nil || c.Proto.R.Kind == 'a' && base.Cells[sk] == nil {
						continue
					}
					if c.Row {
						panic(unsupported("rotation loop changes %s", sk))
					}
					a := genericAddr(c)
					ts := g.walk(a)
					t := ts[len(ts)-1]
					if a.P[len(a.P)-1].S == "?" {
						t = types.Typ[types.Bool]
					}
					if ok, d := g.sameVal(x.st, x.st.readLeaf(a, t), base.readLeaf(a, t)); !ok {
						panic(unsupported("rotation loop changes %s: %s", sk, d))
					}
				}
			}
		}
	}
	odd, even := Add(MulC(2, u), Num(1)), MulC(2, u)
	run(odd, True, true, rem, true)
	for _, p := range []bool{false, true} {
		run(odd, True, p, rem, false)
		run(even, Ge(u, Num(1)), p, rem, false)
		run(Num(0), Eq(u, Num(0)), p, rho, false)
	}
	return exits, true
}

// writePhase: every component of ct arbitrary (coefficient representation) up
// to its phase, which is ph up to noise; arbitrary content if ph is nil
func (st *State) writePhase(ct *Addr, lvl *Term, ph *RP, what string) {
	k := Fresh("id", SInt)
	h := And(st.ctHas(ct, k), Neq(k, zeroID))
	o := st.clone()
	o.assume(h)
	if ph == nil {
		st.writePoly(st.ctPoly(ct, zeroID), lvl, &RowV{'?', st.freshAtom("junk", what)})
		if o.sat() {
			st.writeEach(o, ct, k, lvl, h, &RowV{'?', st.freshAtom("junk", what+":c")})
		}
		return
	}
	at := rpAtom(A("inv|"+what, k))
	c0 := rpAdd(ph, rpAtom(A("nz|inv|"+what)))
	if o.sat() {
		c0 = rpSub(c0, rpSum(k, h, rpMul(at, sAtom(k))))
		st.writeEach(o, ct, k, lvl, h, &RowV{'C', at})
	}
	st.writePoly(st.ctPoly(ct, zeroID), lvl, &RowV{'C', c0})
}

// writeEach writes v (a function of k) to component k of ct, for all k in h
func (st *State) writeEach(o *State, ct *Addr, k, lvl, h *Term, v *RowV) {
	p := o.ctPoly(ct, k)
	ra := o.rowAddr(p, rowIndexFor(o.polyIsP(p)))
	args := ra.Args()
	gd := True
	m := Subst{}
	for i, x := range args[:len(args)-1] {
		if x.key == k.key {
			m[k.Name] = hole(i)
			continue
		}
		if x.Has(k.Name) {
			panic(unsupported("location of the components of %s", ct))
		}
		gd = And(gd, Eq(hole(i), x))
	}
	if len(m) == 0 {
		panic(unsupported("location of the components of %s", ct))
	}
	t := hole(len(args) - 1)
	gd = And(gd, h.Sub(m), Ge(t, Num(0)), Le(t, lvl))
	c := st.cellW(ra, true)
	c.push(Ov{G: gd, V: &RowV{v.Dom, v.RP.Sub(m)}, Epoch: st.Epoch})
}

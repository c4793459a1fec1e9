package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Loops in word mode. One symbolic iteration, in which every value carried from
// the iteration before is an unknown, gives the exact transition; the recurrences
// are then solved into closed forms (sums, products, double-word accumulators).

type wUnknown struct {
	phi   *phiForm
	sk    string
	proto *Addr
	args  []*Term // location; holes are generic indices
	g     *Term   // guard of the location
	d     int     // index that moves with the iteration, -1: none
	self  *Term   // the unknown at the start of the iteration
	init  *Term
	vals  []wStep
	at    func(k *Term) *Term // value at the start of iteration k (d<0) or of the element written in iteration k
	sol   *Term
}

type wStep struct {
	br *Term
	v  *Term
}

func hasL(t *Term) bool {
	r := false
	walkTerm(t, func(y *Term) {
		if y.Op == OpApp && strings.HasPrefix(y.Name, "L|") {
			r = true
		}
	})
	return r
}

func valHasL(v Val) bool { return strings.Contains(valStr(v), "L|") }

func (lc *loopCtx) runWord() []Exit {
	e, st := lc.e, lc.st
	lc.forms = map[string][]Ov{}
	var it *iteration
	var ws []iterWrite
	for _, f := range lc.phis {
		t, ok := f.init.(*Term)
		if f.junk && ok && t.Sort != SBool && lc.next == nil {
			v := App("L|phi."+lc.fr.fn.Name()+"."+f.phi.Name(), t.Sort)
			f.at = func(*Term) Val { return v }
		}
	}
	sig := ""
	for round := 0; ; round++ {
		if round > 6 {
			panic(unsupported("loop of %s with too many carried values", lc.fr.fn))
		}
		nob := len(e.Obls)
		it = lc.iterate()
		ws = lc.writes(it)
		fresh := map[string]bool{}
		for sk := range lc.findCarried(it, ws) {
			if lc.carried[sk] == nil {
				lc.carried[sk] = True
				fresh[sk] = true
			}
		}
		ns := ""
		forms := map[string][]Ov{}
		for _, sk := range sortedCarried(lc.carried) {
			numeric := true
			for _, w := range ws {
				if _, ok := w.ov.V.(*Term); w.skel == sk && !ok {
					numeric = false
				}
			}
			if !numeric || !fresh[sk] {
				forms[sk] = lc.knownForm(ws, sk)
			}
			ns += sk + ":"
			for _, o := range forms[sk] {
				ns += o.G.key + "=" + valStr(o.V) + ";"
			}
			if st.Cells[sk] == nil {
				for _, w := range ws {
					if w.skel == sk {
						st.Cells[sk] = &Cell{Proto: w.cell.Proto, Row: w.cell.Row}
					}
				}
			}
			for _, w := range ws {
				if w.skel == sk {
					if w.cell.Row {
						panic(unsupported("rows carried through a loop in word mode: %s", sk))
					}
					if t, ok := w.ov.V.(*Term); ok && t.Sort == SInt {
						lc.doms[sk] = 'i'
					} else {
						lc.doms[sk] = 'r'
					}
				}
			}
		}
		ns = freshNum.ReplaceAllString(ns, "!")
		if e.debug {
			fmt.Println("ROUND", round, lc.fr.fn.Name(), clip(ns))
		}
		if ns == sig {
			break
		}
		e.Obls = e.Obls[:nob]
		sig = ns
		lc.forms = forms
	}
	var K *Term
	if lc.next == nil {
		K, _ = lc.tripCount(it)
	}
	us := lc.unknowns(it, ws)
	if len(us) == 0 {
		return lc.finish(it, ws, e)
	}
	nob := len(e.Obls)
	lc.solveAll(us, K)
	// the closed forms
	m := map[string]func(k *Term) *Term{}
	_ = m
	for _, u := range us {
		u := u
		if u.phi != nil {
			u.phi.at = func(k *Term) Val { return u.at(k) }
			continue
		}
		if u.d >= 0 {
			s := Subst{lc.k.Name: u.sol}
			g := And(u.g.Sub(s), Ge(u.sol, Num(0)), Lt(u.sol, lc.k))
			lc.forms[u.sk] = append(lc.forms[u.sk], Ov{G: g, V: u.at(u.sol), Epoch: st.Epoch})
			continue
		}
		lc.forms[u.sk] = append(lc.forms[u.sk], Ov{G: u.g, V: u.at(lc.k), Epoch: st.Epoch})
	}
	e.Obls = e.Obls[:nob]
	it = lc.iterate()
	ws = lc.writes(it)
	return lc.finish(it, ws, e)
}

func sortedCarried(m map[string]*Term) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// knownForm: what earlier iterations left in a cell, when it does not depend on the ones before them
func (lc *loopCtx) knownForm(ws []iterWrite, sk string) []Ov {
	var out []Ov
	for _, w := range ws {
		if w.skel != sk {
			continue
		}
		if valHasL(w.ov.V) || hasL(w.branch) || hasL(w.ov.G) {
			return nil
		}
		sol, extra, skf := lc.solve(w.ov.G)
		if sol == nil || skf != nil {
			return nil
		}
		g := And(lc.atSol(And(w.ov.G, w.branch), sol, extra), Ge(sol, Num(0)), Lt(sol, lc.k))
		out = append(out, Ov{G: g, V: lc.valAtSol(w.ov.V, sol), Epoch: lc.st.Epoch})
	}
	return out
}

// atSol and valAtSol put the solution into a guard or value: with k = r/n exact, n*k+c
// becomes r+c
func (lc *loopCtx) atSol(g, sol, extra *Term) *Term {
	out := []*Term{extra}
	for _, c := range conjuncts(g) {
		out = append(out, lc.exact(c, sol))
	}
	return And(out...)
}

func (lc *loopCtx) exact(t, sol *Term) *Term {
	k := lc.k.Name
	if sol.Op == OpDiv {
		if n, ok := sol.Args[1].Int(); ok && n > 0 {
			x := t.Sub(Subst{k: Mul(NumR(big.NewRat(1, n), SInt), sol.Args[0])})
			if !fractional(x) {
				return x
			}
		}
	}
	return t.Sub(Subst{k: sol})
}

func (lc *loopCtx) valAtSol(v Val, sol *Term) Val {
	if t, ok := v.(*Term); ok {
		return lc.exact(t, sol)
	}
	return subVal(v, Subst{lc.k.Name: sol})
}

// fractional: an integer polynomial with a coefficient that is not an integer
func fractional(t *Term) bool {
	bad := false
	walkTerm(t, func(x *Term) {
		if x.Sort == SInt && (x.Op == OpPoly || x.Op == OpNum) {
			for _, m := range monosOf(x) {
				if !m.C.IsInt() {
					bad = true
				}
			}
		}
	})
	return bad
}

func (lc *loopCtx) paths(it *iteration) (xs []Exit, brs []*Term) {
	var all [][]*Term
	for _, x := range it.exits {
		if x.kind == 'b' {
			br, _ := it.path(x)
			xs = append(xs, x)
			all = append(all, conjuncts(br))
		}
	}
	for i := range xs {
		b := True
		for _, c := range all[i] {
			common := true
			for j := range xs {
				found := false
				for _, d := range all[j] {
					if d.key == c.key {
						found = true
					}
				}
				common = common && found
			}
			if !common {
				b = And(b, c)
			}
		}
		brs = append(brs, b)
	}
	return
}

func (lc *loopCtx) unknowns(it *iteration, ws []iterWrite) []*wUnknown {
	var us []*wUnknown
	xs, brs := lc.paths(it)
	for _, f := range lc.phis {
		v, ok := f.at(lc.k).(*Term)
		if !ok || v.Op != OpApp || !strings.HasPrefix(v.Name, "L|phi.") {
			continue
		}
		u := &wUnknown{phi: f, d: -1, self: v, init: f.init.(*Term)}
		for xi, x := range xs {
			for i, b := range lc.l.header.Preds {
				if b != x.from {
					continue
				}
				t, ok := lc.e.val(x.fr, f.phi.Edges[i]).(*Term)
				if !ok {
					panic(unsupported("loop variable %s of %s", f.phi.Name(), lc.fr.fn))
				}
				u.vals = append(u.vals, wStep{brs[xi], t})
			}
		}
		us = append(us, u)
	}
	for _, sk := range sortedCarried(lc.carried) {
		if len(lc.forms[sk]) > 0 {
			continue
		}
		seen := map[string]bool{}
		for _, w := range ws {
			if w.skel != sk {
				continue
			}
			proto := w.cell.Proto
			n := len(proto.Args())
			args := make([]*Term, n)
			u := &wUnknown{sk: sk, proto: proto, d: -1, g: w.ov.G}
			key := ""
			for i := 0; i < n; i++ {
				args[i] = hole(i)
				for _, c := range conjuncts(w.ov.G) {
					if c.Op != OpEq0 || !c.Args[0].Has(hole(i).Name) {
						continue
					}
					co, rest, ok := linIn(c.Args[0], hole(i).Name)
					cn, isn := co.Int()
					if !ok || !isn || cn != 1 && cn != -1 || hasHole(rest) {
						continue
					}
					args[i] = MulC(-cn, rest)
				}
				if args[i].Has(lc.k.Name) {
					if u.d >= 0 {
						panic(unsupported("carried value at a location that varies twice: %s", sk))
					}
					k1, _, ok := linIn(args[i], lc.k.Name)
					if n, isn := k1.Int(); !ok || !isn || n != 1 {
						panic(unsupported("carried value at a varying location: %s", sk))
					}
					u.d = i
				}
				key += args[i].key + ","
			}
			if seen[key] {
				continue
			}
			seen[key] = true
			u.args = args
			if u.d >= 0 {
				sol, _, skf := lc.solve(w.ov.G)
				if sol == nil || skf != nil {
					panic(unsupported("carried value at a varying location: %s", sk))
				}
				u.sol = sol
			}
			sort := SReal
			if lc.doms[sk] == 'i' {
				sort = SInt
			}
			pa := append([]*Term{}, args...)
			if u.d >= 0 {
				pa[u.d] = Sub(args[u.d], Num(1))
			}
			u.self = App("L|"+sk, sort, pa...)
			ia := append([]*Term{}, pa...)
			if u.d >= 0 {
				ia[u.d] = ia[u.d].Sub(Subst{lc.k.Name: Num(0)})
			}
			// an enclosing iteration reads the initial value
			in, ok := lc.st.readLeaf(proto.withArgs(ia), tForDom(lc.doms[sk])).(*Term)
			if !ok {
				panic(unsupported("carried value %s", sk))
			}
			u.init = in
			for xi, x := range xs {
				s2 := x.st.clone()
				s2.Trackers = nil
				for _, c := range conjuncts(w.ov.G) {
					s2.addFact(c.Sub(holeSubst(args)))
				}
				v, ok := s2.readLeaf(proto.withArgs(args), tForDom(lc.doms[sk])).(*Term)
				if !ok {
					panic(unsupported("carried value %s", sk))
				}
				u.vals = append(u.vals, splitIte(s2, brs[xi], v)...)
			}
			for _, o := range us {
				if o.sk == sk && lc.st.sat(o.g, u.g) {
					panic(unsupported("carried values at overlapping locations of %s", sk))
				}
			}
			us = append(us, u)
		}
	}
	return us
}

// splitIte: the cases of a conditional value with an unknown in it
func splitIte(st *State, br, v *Term) []wStep {
	if v.Op != OpIte || !hasL(v) || hasL(v.Args[0]) {
		return []wStep{{br, v}}
	}
	c := v.Args[0]
	switch st.decide(c) {
	case 1:
		return splitIte(st, br, v.Args[1])
	case -1:
		return splitIte(st, br, v.Args[2])
	}
	return append(splitIte(st, And(br, c), v.Args[1]), splitIte(st, And(br, Not(c)), v.Args[2])...)
}

// solveAll: closed forms of the unknowns, each from the ones already solved
func (lc *loopCtx) solveAll(us []*wUnknown, K *Term) {
	solved := func() func(t *Term) *Term {
		return func(t *Term) *Term {
			return mapTerm(t, func(x *Term) *Term {
				for _, u := range us {
					if u.at != nil && u.d < 0 && x.key == u.self.key {
						return u.at(lc.k)
					}
				}
				if isApp(x, "red") {
					return lc.e.mkRed(x.Args[0], x.Args[1])
				}
				return x
			})
		}
	}
	for {
		left, done := 0, 0
		for _, u := range us {
			if u.at != nil {
				continue
			}
			left++
			f := solved()
			var vals []wStep
			for _, v := range u.vals {
				vals = append(vals, wStep{f(v.br), f(v.v)})
			}
			if at := lc.solveOne(u, vals); at != nil {
				u.at = at
				done++
				continue
			}
			for _, h := range us {
				if h != u && h.at == nil && h.d < 0 && lc.solvePair(u, h, K) {
					done++
					break
				}
			}
		}
		if left == 0 {
			return
		}
		if done == 0 {
			for _, u := range us {
				if u.at == nil {
					var s []string
					for _, v := range u.vals {
						s = append(s, v.br.key+" -> "+v.v.key)
					}
					panic(unsupported("recurrence %s := %s", u.self, clip(strings.Join(s, " | "))))
				}
			}
		}
	}
}

func (lc *loopCtx) solveOne(u *wUnknown, vals []wStep) func(k *Term) *Term {
	e, k := lc.e, lc.k.Name
	if u.d >= 0 && len(vals) == 2 {
		// the first iteration starts the recurrence
		for i := 0; i < 2; i++ {
			a, b := vals[i], vals[1-i]
			in := And(u.g.Sub(holeSubst(u.args)), Ge(lc.k, Num(0)))
			if hasL(a.v) || !lc.st.valid(Eq(lc.k, Num(0)), a.br, in) || !lc.st.valid(a.br, Eq(lc.k, Num(0)), in) {
				continue
			}
			v0 := a.v.Sub(Subst{k: Num(0)})
			nx := wStep{True, b.v}
			f := lc.recur(u.self, []wStep{nx}, v0)
			if f == nil {
				return nil
			}
			if f.mul {
				// one product when the start follows the pattern
				b0, w0 := f.body.Sub(Subst{k: Num(0)}), v0
				if f.m != nil {
					w0 = e.modnorm(f.m, v0)
				}
				if c := divide(w0, b0); c != nil {
					return (&recurrence{mul: true, m: f.m}).closedAt(e, c, f.body, k, 1)
				}
			}
			sh := f.body.Sub(Subst{k: Add(lc.k, Num(1))})
			return f.closed(e, v0, sh, k)
		}
	}
	f := lc.recur(u.self, vals, u.init)
	if f == nil {
		return nil
	}
	at := f.closed(e, u.init, f.body, k)
	if u.d >= 0 {
		return func(n *Term) *Term { return at(Add(n, Num(1))) }
	}
	return at
}

type recurrence struct {
	mul  bool
	m    *Term // modulus, nil: exact
	body *Term
	last bool
}

func (r *recurrence) closed(e *Engine, init, body *Term, k string) func(n *Term) *Term {
	return r.closedAt(e, init, body, k, 0)
}

// divide: t/d for a monomial d, nil if it does not divide t
func divide(t, d *Term) *Term {
	ds := monosOf(d)
	if len(ds) != 1 || ds[0].C.Cmp(ratOne) != 0 {
		return nil
	}
	var out []Mono
	for _, m := range monosOf(t) {
		var fs []Factor
		need := map[string]int{}
		for _, f := range ds[0].F {
			need[f.T.key] += f.E
		}
		for _, f := range m.F {
			n := need[f.T.key]
			if f.E < n {
				return nil
			}
			delete(need, f.T.key)
			if f.E > n {
				fs = append(fs, Factor{f.T, f.E - n})
			}
		}
		if len(need) > 0 {
			return nil
		}
		out = append(out, Mono{C: m.C, F: fs})
	}
	return fromMonos(out, t.Sort)
}

func (r *recurrence) closedAt(e *Engine, init, body *Term, k string, off int64) func(n *Term) *Term {
	return func(n *Term) *Term {
		n = Add(n, Num(off))
		var x *Term
		switch {
		case r.last:
			return Ite(Eq(n, Num(0)), init, body.Sub(Subst{k: Sub(n, Num(1))}))
		case r.mul:
			x = Mul(init, prodOver(n, body, k))
		default:
			x = Add(init, sumOver(n, body, k))
		}
		if r.m != nil {
			return e.mkRed(r.m, x)
		}
		return x
	}
}

// recur recognises x := x + f, x := x * f, and both modulo m
func (lc *loopCtx) recur(self *Term, vals []wStep, init *Term) *recurrence {
	e := lc.e
	r := &recurrence{}
	first := true
	all := true
	for _, v := range vals {
		if hasL(v.v) {
			all = false
		}
	}
	if all {
		var b *Term
		for _, v := range vals {
			if b == nil {
				b = v.v
			} else {
				b = Ite(v.br, v.v, b)
			}
		}
		return &recurrence{last: true, body: b}
	}
	type st struct{ br, f *Term }
	var steps []st
	for _, v := range vals {
		if v.v.key == self.key {
			steps = append(steps, st{v.br, nil})
			continue
		}
		x := v.v
		var m *Term
		if isApp(x, "red") {
			m, x = x.Args[0], x.Args[1]
			if m.Has(lc.k.Name) || hasL(m) {
				return nil
			}
			// with a reduced value the sum is a machine word
			if isApp(x, "lo64") && lc.st.valid(And(Ge(x.Args[0], Num(0)), Lt(x.Args[0], numR64)), Ge(self, Num(0)), Lt(self, m)) {
				x = e.modnorm(m, x.Args[0])
			}
		}
		f, mul, ok := splitSelf(x, self)
		if !ok || hasL(f) {
			return nil
		}
		if !first && (mul != r.mul || (m == nil) != (r.m == nil) || m != nil && m.key != r.m.key) {
			return nil
		}
		first = false
		r.mul, r.m = mul, m
		steps = append(steps, st{v.br, f})
	}
	if first {
		return &recurrence{body: Num(0)}
	}
	unit := NumR(new(big.Rat), self.Sort)
	if r.mul {
		unit = NumR(ratOne, self.Sort)
	}
	if r.m != nil {
		// a value that is kept has to be reduced already
		if !(isApp(init, "red") && init.Args[0].key == r.m.key) && !lc.st.valid(And(Ge(init, Num(0)), Lt(init, r.m))) {
			return nil
		}
	}
	for i, s := range steps {
		f := s.f
		if f == nil {
			f = unit
		}
		if i == 0 {
			r.body = f
		} else {
			r.body = Ite(s.br, f, r.body)
		}
	}
	_ = e
	return r
}

// splitSelf: t = self*f (mul) or self+f
func splitSelf(t, self *Term) (f *Term, mul, ok bool) {
	var lm, rest []Mono
	for _, m := range monosOf(t) {
		n := 0
		var o []Factor
		for _, x := range m.F {
			if x.T.key == self.key && x.E == 1 {
				n++
			} else {
				o = append(o, x)
			}
		}
		switch n {
		case 0:
			rest = append(rest, m)
		case 1:
			lm = append(lm, Mono{C: m.C, F: o})
		default:
			return nil, false, false
		}
	}
	if len(lm) == 0 {
		return nil, false, false
	}
	c := fromMonos(lm, t.Sort)
	if len(rest) == 0 {
		if c.IsNum() && c.Num.Cmp(ratOne) == 0 {
			return NumR(new(big.Rat), t.Sort), false, true
		}
		return c, true, true
	}
	if c.IsNum() && c.Num.Cmp(ratOne) == 0 {
		return fromMonos(rest, t.Sort), false, true
	}
	return nil, false, false
}

// solvePair: low and high word of a double-word accumulator
func (lc *loopCtx) solvePair(l, h *wUnknown, K *Term) bool {
	e := lc.e
	if l.d >= 0 || len(l.vals) != 1 || len(h.vals) != 1 || l.self.Sort != SInt || h.self.Sort != SInt {
		return false
	}
	vl, vh := l.vals[0].v, h.vals[0].v
	if !isApp(vl, "lo64") {
		return false
	}
	p, mul, ok := splitSelf(vl.Args[0], l.self)
	if !ok || mul || hasL(p) {
		return false
	}
	if isApp(vh, "lo64") {
		vh = vh.Args[0]
	}
	if !strings.Contains(vh.key, h.self.key) {
		return false
	}
	// the step adds p to the double word
	q := Eq(Add(Mul(numR64, vh), vl), AddAll(Mul(numR64, h.self), l.self, p))
	facts := []*Term{Ge(l.self, Num(0)), Lt(l.self, numR64), Ge(h.self, Num(0)), Ge(p, Num(0))}
	if !lc.st.valid(q, facts...) {
		return false
	}
	if K == nil {
		return false
	}
	S := func(k *Term) *Term {
		return AddAll(l.init, Mul(numR64, h.init), sumOver(k, p, lc.k.Name))
	}
	// p is a product of words and the accumulator does not overflow
	if e.bodyBound(p) == nil {
		return false
	}
	if !lc.st.valid(And(Ge(S(K), Num(0)), Lt(S(K), pow2n(128)))) {
		e.oblige(false, "the double-word accumulator does not overflow", lc.fr.fn.Name(), clip(S(K).key)+" with bound "+e.bodyBound(p).key)
		panic(unsupported("overflow of a double-word accumulator"))
	}
	l.at = func(k *Term) *Term { return mkLo(S(k)) }
	h.at = func(k *Term) *Term { return App("hi64", SInt, S(k)) }
	return true
}

var _ = fmt.Sprint

package main

import (
	"math/big"
	"sort"
	"strings"
)

// rpMul2 is rpMul for two factors; rpMul of ring.go is kept variadic below.
func rpMul2(a, b *RP) *RP { return rpMulPair(a, b) }

// rewriteDec: Dec(i, l, X) on the rows of digit i is X itself
func (e *Engine) rewriteDec(st *State, r *RP, cond []*Term) *RP {
	return rpMapComps(r, func(c Comp) *RP {
		for fi, f := range c.F {
			if f.A.Kind != "Dec" || f.E < 1 {
				continue
			}
			i, l := f.A.Args[0], f.A.Args[1]
			ctx := append(append([]*Term{}, cond...), c.G)
			if i.Has(ROW.Name) || hasConjEq(c.G, i) {
				if st.valid(And(Eq(Div(ROW, symAlpha), i), Le(ROW, l), Ge(ROW, Num(0)), Lt(ROW, symNQ)), ctx...) {
					rest := Comp{C: c.C, B: c.B, G: c.G}
					for fj, g := range c.F {
						ex := g.E
						if fj == fi {
							ex--
						}
						if ex != 0 {
							rest.F = append(rest.F, AF{g.A, ex})
						}
					}
					x := f.A.Rps[0]
					if f.A.Rot != nil || f.A.Conj {
						x = sigma(x, f.A.Rot, f.A.Conj)
					}
					return e.rewriteDec(st, mulCompRP(rest, x), cond)
				}
			}
		}
		return nil
	})
}

func hasDec(r *RP) bool {
	for _, c := range r.Cs {
		for _, f := range c.F {
			if f.A.Kind == "Dec" {
				return true
			}
		}
	}
	return false
}

func hasConjEq(g *Term, i *Term) bool {
	for _, c := range conjuncts(g) {
		if c.Op == OpEq0 && c.Has(ROW.Name) {
			return true
		}
	}
	return false
}

// mulCompRP multiplies keeping the binders of c in scope of x.
func mulCompRP(c Comp, x *RP) *RP {
	var cs []Comp
	for _, b := range x.Cs {
		b = b.freshBinders()
		cs = append(cs, Comp{C: new(big.Rat).Mul(c.C, b.C), B: append(append([]*Term{}, c.B...), b.B...), G: And(c.G, b.G), F: sortFactors(append(append([]AF{}, c.F...), b.F...))})
	}
	return mkRP(cs)
}

// rpMapComps replaces components (nil: keep).
func rpMapComps(r *RP, f func(Comp) *RP) *RP {
	var cs []Comp
	for _, c := range r.Cs {
		c = c.freshBinders()
		if x := f(c); x != nil {
			cs = append(cs, x.Cs...)
		} else {
			cs = append(cs, c)
		}
	}
	return mkRP(cs)
}

// simpGuards drops components whose guard is unsatisfiable and conjuncts that are implied.
func (e *Engine) simpGuards(st *State, r *RP, cond []*Term) *RP {
	if len(r.Cs) == 0 {
		return r
	}
	return rpMapComps(r, func(c Comp) *RP {
		if c.G.Op == OpTrue {
			return nil
		}
		g := True
		ctx := append([]*Term{}, cond...)
		if !st.sat(append(append([]*Term{}, cond...), c.G)...) {
			return rpZero
		}
		cj := conjuncts(c.G)
		for k, x := range cj {
			rest := append([]*Term{}, ctx...)
			for j, y := range cj {
				if j > k {
					rest = append(rest, y)
				}
			}
			// an equality that fixes a binder is kept: elimination uses it
			if !mentions(x, c.B) && st.valid(x, ctx...) {
				continue
			}
			g = And(g, x)
			_ = rest
		}
		return mkRP([]Comp{{C: c.C, B: c.B, G: g, F: c.F}})
	})
}

func mentions(t *Term, bs []*Term) bool {
	for _, b := range bs {
		if t.Has(b.Name) {
			return true
		}
	}
	return false
}

func (e *Engine) rpEqual(st *State, a, b *RP, cond []*Term) bool {
	if a.key == b.key {
		return true
	}
	return e.rpZeroUnder(st, rpSub(a, b), cond)
}

// rpZeroUnder: r = 0 for all values of the free symbols that satisfy the path
// condition and cond. Components with the same monomial are compared by their
// total coefficient, a piecewise constant decided by the solver; components
// whose arguments are only provably equal are matched through the solver too.
func (e *Engine) rpZeroUnder(st *State, r *RP, cond []*Term) bool {
	res := e.rpResidue(st, r, cond)
	return len(res) == 0
}

// rpResidue returns the groups that are not provably zero.
func (e *Engine) rpResidue(st *State, r *RP, cond []*Term) []Comp {
	if hasDec(r) {
		r = e.rewriteDec(st, r, cond)
	}
	r = shiftBinders(r)
	if r.IsZero() {
		return nil
	}
	groups := map[string][]Comp{}
	var keys []string
	for _, c := range r.Cs {
		// a scalar that is zero
		for _, f := range c.F {
			if f.A.Kind == "Kt" && f.E > 0 {
				c.G = And(c.G, Neq(f.A.Args[0], Num(0)))
			}
		}
		k := c.monoKey()
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], c)
	}
	sort.Strings(keys)
	var left []Comp
	for _, k := range keys {
		g := groups[k]
		if e.groupZero(st, g, cond) {
			continue
		}
		left = append(left, g...)
	}
	if len(left) == 0 {
		return nil
	}
	// try to match components of the same shape whose arguments are provably equal
	left = e.unifyComps(st, left, cond)
	return left
}

func (e *Engine) groupZero(st *State, g []Comp, cond []*Term) bool {
	sum := NumR(new(big.Rat), SInt)
	lcm := big.NewInt(1)
	for _, c := range g {
		d := c.C.Denom()
		gcd := new(big.Int).GCD(nil, nil, lcm, d)
		lcm = new(big.Int).Mul(lcm, new(big.Int).Div(d, gcd))
	}
	for _, c := range g {
		co := NumR(new(big.Rat).Mul(c.C, new(big.Rat).SetInt(lcm)), SInt)
		sum = Add(sum, Ite(c.G, co, Num(0)))
	}
	return st.valid(Eq(sum, Num(0)), cond...)
}

func shapeKey(c Comp) string {
	var ks []string
	for _, f := range c.F {
		s := f.A.Kind
		if f.A.Conj {
			s += "~"
		}
		for i := 0; i < f.E; i++ {
			ks = append(ks, s)
		}
		for i := 0; i > f.E; i-- {
			ks = append(ks, s+"^-1")
		}
		for range f.A.Rps {
			s += "+"
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "·")
}

// unifyComps cancels pairs of components that are equal modulo provable
// equality of the arguments of their atoms.
func (e *Engine) unifyComps(st *State, cs []Comp, cond []*Term) []Comp {
	sort.SliceStable(cs, func(i, j int) bool { return len(cs[i].B) > len(cs[j].B) })
	used := make([]bool, len(cs))
	var out []Comp
	for i := range cs {
		if used[i] {
			continue
		}
		grp := []Comp{cs[i]}
		idx := []int{i}
		for j := i + 1; j < len(cs); j++ {
			if used[j] || shapeKey(cs[i]) != shapeKey(cs[j]) {
				continue
			}
			if len(cs[i].B) > len(cs[j].B) {
				if d, ok := e.instance(st, cs[i], cs[j], cond); ok {
					grp = append(grp, d)
					idx = append(idx, j)
				}
				continue
			}
			if d, ok := e.unify(st, cs[i], cs[j], cond); ok {
				grp = append(grp, d)
				idx = append(idx, j)
			}
		}
		if len(grp) > 1 && e.groupZero(st, grp, cond) {
			for _, k := range idx {
				used[k] = true
			}
			continue
		}
		// a component on its own may still have an unsatisfiable guard
		out = append(out, cs[i])
		used[i] = true
	}
	return out
}

// instance: d is one summand of the sum c; it is rewritten as the sum over all
// values of the binders of c that equal the summand's.
func (e *Engine) instance(st *State, c, d Comp, cond []*Term) (Comp, bool) {
	d = d.freshBinders()
	m := Subst{}
	g := d.G
	var res Comp
	found := false
	var rec func(i int)
	rec = func(i int) {
		if found {
			return
		}
		if i == len(c.B) {
			cc := c.sub(m)
			// every binder of d must be accounted for
			for _, b := range d.B {
				ok := false
				for _, t := range m {
					if t.key == b.key {
						ok = true
					}
				}
				if !ok {
					return
				}
			}
			ctx := append(append([]*Term{}, cond...), d.G)
			if !e.factorsEqual(st, cc.F, d.F, ctx) {
				return
			}
			back := Subst{}
			gg := g
			for _, b := range c.B {
				t := m[b.Name]
				bound := false
				for _, x := range d.B {
					if x.key == t.key && back[x.Name] == nil {
						back[x.Name] = b
						bound = true
					}
				}
				if !bound {
					gg = And(gg, Eq(b, t))
				}
			}
			res = Comp{C: d.C, B: c.B, G: gg.Sub(back), F: c.F}
			found = true
			return
		}
		b := c.B[i]
		tried := map[string]bool{}
		for _, f := range c.F {
			for p, a := range f.A.Args {
				if a.key != b.key {
					continue
				}
				for _, df := range d.F {
					if df.A.Kind != f.A.Kind || p >= len(df.A.Args) || tried[df.A.Args[p].key] {
						continue
					}
					tried[df.A.Args[p].key] = true
					m[b.Name] = df.A.Args[p]
					rec(i + 1)
				}
			}
		}
		delete(m, b.Name)
	}
	if len(c.B) > 4 {
		return d, false
	}
	rec(0)
	return res, found
}

// unify: rewrite d with the binders and factors of c if its monomial is
// provably the same under both guards.
func (e *Engine) unify(st *State, c, d Comp, cond []*Term) (Comp, bool) {
	n := len(c.B)
	if n > 3 {
		return d, false
	}
	perm := make([]int, n)
	used := make([]bool, n)
	var res Comp
	found := false
	var rec func(i int)
	rec = func(i int) {
		if found {
			return
		}
		if i == n {
			m := Subst{}
			for x := 0; x < n; x++ {
				m[d.B[x].Name] = c.B[perm[x]]
			}
			dd := d.sub(m)
			ctx := append(append([]*Term{}, cond...), c.G, dd.G)
			if e.factorsEqual(st, c.F, dd.F, ctx) {
				found = true
				res = Comp{C: d.C, B: c.B, G: dd.G, F: c.F}
			}
			return
		}
		for v := 0; v < n; v++ {
			if !used[v] {
				used[v] = true
				perm[i] = v
				rec(i + 1)
				used[v] = false
			}
		}
	}
	rec(0)
	return res, found
}

func (e *Engine) factorsEqual(st *State, a, b []AF, ctx []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(a) {
			return true
		}
		for j := range b {
			if used[j] || a[i].E != b[j].E || !e.atomEqual(st, a[i].A, b[j].A, ctx) {
				continue
			}
			used[j] = true
			if rec(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	return rec(0)
}

func (e *Engine) atomEqual(st *State, a, b *Atom, ctx []*Term) bool {
	if a.key == b.key {
		return true
	}
	if a.Kind != b.Kind || a.Conj != b.Conj || len(a.Args) != len(b.Args) || len(a.Rps) != len(b.Rps) {
		return false
	}
	for i := range a.Args {
		if a.Args[i].key != b.Args[i].key && !st.valid(Eq(a.Args[i], b.Args[i]), ctx...) {
			return false
		}
	}
	ra, rb := a.Rot, b.Rot
	if ra == nil {
		ra = Num(0)
	}
	if rb == nil {
		rb = Num(0)
	}
	if ra.key != rb.key && !st.valid(Eq(ra, rb), ctx...) {
		// rotations count modulo N/2
		h := MulC(8, symM)
		d := Sub(ra, rb)
		if !st.knows(Eq(d, Mul(h, Div(d, h)))) && !st.knows(Eq(Neg(d), Mul(h, Div(Neg(d), h)))) {
			return false
		}
	}
	for i := range a.Rps {
		if !e.rpEqual(st, a.Rps[i], b.Rps[i], stripRow(ctx)) {
			return false
		}
	}
	return true
}

// conditions that do not mention ROW (nested contents are functions of their own row)
func stripRow(ctx []*Term) []*Term {
	var out []*Term
	for _, t := range ctx {
		for _, c := range conjuncts(t) {
			if !c.Has(ROW.Name) {
				out = append(out, c)
			}
		}
	}
	return out
}

// ---- noise

// isNoiseAtom: errors and rounding terms
func isNoiseAtom(a *Atom) bool {
	switch a.Kind {
	case "epk", "eb", "ed", "ev", "er", "ec":
		return true
	}
	return strings.HasPrefix(a.Kind, "nz|") || strings.HasPrefix(a.Kind, "gauss|")
}

func isSmallAtom(a *Atom) bool {
	if isNoiseAtom(a) {
		return true
	}
	switch a.Kind {
	case "s", "r":
		return true
	}
	return strings.HasPrefix(a.Kind, "tern|")
}

// isNoise: the component is a small error term: it has an error factor, all
// other factors are small or digits of a decomposition, each pair of digits
// paid for by a division by P, and no uniform factor or positive power of P.
func isNoise(c Comp) bool {
	noise := false
	dec, pinv := 0, 0
	for _, f := range c.F {
		switch {
		case f.A.Kind == "R":
			return false
		case f.A.Kind == "P":
			if f.E > 0 {
				return false
			}
			pinv -= f.E
		case f.A.Kind == "Dec":
			dec += f.E
		case f.A.Kind == "Kinvq" && f.E == 1:
			// an error divided by dropped moduli
		case isNoiseAtom(f.A):
			if f.E < 0 {
				return false
			}
			noise = true
		case isSmallAtom(f.A):
			if f.E < 0 {
				return false
			}
		default:
			return false
		}
	}
	return noise && (dec == 0 && pinv == 0 || dec >= 1 && pinv >= 1 && dec <= 2*pinv)
}

func dropNoise(r *RP) (*RP, int) {
	var cs []Comp
	n := 0
	for _, c := range r.Cs {
		if isNoise(c) {
			n++
			continue
		}
		cs = append(cs, c)
	}
	return mkRP(cs), n
}

// knows: t is literally one of the conditions of the path
func (st *State) knows(t *Term) bool {
	if t.Op == OpTrue {
		return true
	}
	for _, p := range st.pcTerms() {
		for _, c := range conjuncts(p) {
			if c.key == t.key {
				return true
			}
		}
	}
	return false
}

// shiftBinders: a sum over b of terms that use b only as b+c (c a constant) is
// a sum over b+c.
func shiftBinders(r *RP) *RP {
	any := false
	for _, c := range r.Cs {
		if len(c.B) > 0 {
			any = true
		}
	}
	if !any {
		return r
	}
	shift := func(c Comp) Subst {
		m := Subst{}
		for _, b := range c.B {
			var off *big.Rat
			ok := true
			for _, f := range c.F {
				for _, a := range f.A.Args {
					if !a.Has(b.Name) {
						continue
					}
					o := new(big.Rat)
					lin := false
					for _, x := range monosOf(a) {
						switch {
						case len(x.F) == 0:
							o = x.C
						case len(x.F) == 1 && x.F[0].T.key == b.key && x.C.Cmp(ratOne) == 0:
							lin = true
						default:
							ok = false
						}
					}
					if !lin || off != nil && off.Cmp(o) != 0 {
						ok = false
					}
					off = o
				}
			}
			if ok && off != nil && off.Sign() != 0 && off.IsInt() {
				m[b.Name] = Sub(b, NumR(off, SInt))
			}
		}
		return m
	}
	found := false
	for _, c := range r.Cs {
		if len(shift(c)) > 0 {
			found = true
		}
	}
	if !found {
		return r
	}
	return rpMapComps(r, func(c Comp) *RP {
		if m := shift(c); len(m) > 0 {
			return mkRP([]Comp{c.subKeepB(m)})
		}
		return nil
	})
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Word mode: machine words are integers, and the residues a word stands for are
// integer polynomials under these functions of the logic:
//
//	red(m,X)     the representative of X modulo m in [0,m)
//	lazy(m,X)    some representative of X modulo m in [0,6m)
//	NTT, INTT    word c of the transform modulo m of the row λβ.body
//	Rinv(m)      the inverse of 2^64 modulo m
//	inv(m,a)     an inverse of a modulo m
//	lo64, hi64   low and high half of a non-negative integer
//	mont(m,S)    hi64(S) - hi64(lo64(S*m^-1)*m), congruent to S*Rinv(m)
//	mredc(m)     m^-1 modulo 2^64
//	ΣI, ΣR, ΠI   sum and product over 0 <= β < K of a body
//
// Arithmetic on uint64 is exact when the result provably fits and lo64 of the
// exact result otherwise.

var two64 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 64))
var numR64 = NumR(two64, SInt)

func pow2n(n uint) *Term { return NumR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), n)), SInt) }

func isWordFn(n string) bool {
	switch n {
	case "red", "lazy", "NTT", "INTT", "Rinv", "inv", "powm", "mont", "ΣI", "ΣR", "ΠI", "lo64", "hi64", "mredc":
		return true
	}
	return false
}

func isApp(t *Term, name string) bool { return t.Op == OpApp && t.Name == name }

// ---- binders

func binder(i int) *Term { return Sym(fmt.Sprintf("β%d", i), SInt) }

// bind replaces k by a binder that does not occur in the body
func bind(body *Term, k string) (*Term, *Term) {
	for i := 0; ; i++ {
		b := binder(i)
		if b.Name == k {
			return b, body
		}
		if !body.Has(b.Name) {
			return b, body.Sub(Subst{k: b})
		}
	}
}

func boundOf(t *Term) *Term { return t.Args[1] }

// sumOver: Σ_{k<K} body
func sumOver(K, body *Term, k string) *Term {
	if !body.Has(k) {
		return Mul(coerce(K, body.Sort), body)
	}
	b, bb := bind(body, k)
	n := "ΣI"
	if body.Sort == SReal {
		n = "ΣR"
	}
	return App(n, body.Sort, K, b, bb)
}

// prodOver: Π_{k<K} body
func prodOver(K, body *Term, k string) *Term {
	if body.IsNum() && body.Num.Cmp(ratOne) == 0 {
		return body
	}
	if n, ok := K.Int(); ok && n == 0 {
		return Num(1)
	}
	b, bb := bind(body, k)
	return App("ΠI", SInt, K, b, bb)
}

// rebind gives a sum or product a binder that does not occur in x
func rebind(t, x *Term) *Term {
	b := t.Args[1]
	if !x.Has(b.Name) {
		return t
	}
	for i := 0; ; i++ {
		n := binder(i)
		if !x.Has(n.Name) && !t.Args[2].Has(n.Name) {
			return App(t.Name, t.Sort, t.Args[0], n, t.Args[2].Sub(Subst{b.Name: n}))
		}
	}
}

// ---- normal form modulo m

func rinv(m *Term) *Term { return App("Rinv", SInt, m) }

func (e *Engine) modnorm(m, t *Term) *Term {
	return e.modnormN(m, t, 0)
}

func (e *Engine) modnormN(m, t *Term, depth int) *Term {
	if depth > 40 {
		panic(unsupported("residue too deep: %s", clip(t.key)))
	}
	var out []Mono
	for _, mo := range monosOf(t) {
		out = append(out, e.modMono(m, mo, depth)...)
	}
	return fromMonos(out, SInt)
}

func monoTerm(c *big.Rat, fs []Factor) *Term { return fromMonos([]Mono{{C: c, F: fs}}, SInt) }

func (e *Engine) modMono(m *Term, mo Mono, depth int) []Mono {
	if mo.C.Sign() == 0 {
		return nil
	}
	for i, f := range mo.F {
		if f.E < 1 {
			panic(unsupported("quotient modulo %s", m))
		}
		rest := func() []Factor {
			r := append([]Factor{}, mo.F[:i]...)
			if f.E > 1 {
				r = append(r, Factor{f.T, f.E - 1})
			}
			return append(r, mo.F[i+1:]...)
		}
		if f.T.key == m.key {
			return nil
		}
		if f.T.Op == OpApp {
			switch f.T.Name {
			case "red", "lazy":
				if f.T.Args[0].key == m.key {
					return monosOf(e.modnormN(m, Mul(monoTerm(mo.C, rest()), f.T.Args[1]), depth+1))
				}
			case "mont":
				if f.T.Args[0].key == m.key {
					return monosOf(e.modnormN(m, Mul(monoTerm(mo.C, rest()), Mul(f.T.Args[1], rinv(m))), depth+1))
				}
			case "ΣI":
				r := monoTerm(mo.C, rest())
				s := rebind(f.T, r)
				body := e.modnormN(m, Mul(r, s.Args[2]), depth+1)
				var out []Mono
				for _, bm := range monosOf(body) {
					if bm.C.Sign() == 0 {
						continue
					}
					x := sumOver(s.Args[0], monoTerm(ratOne, bm.F), s.Args[1].Name)
					for _, y := range monosOf(x) {
						out = append(out, Mono{C: new(big.Rat).Mul(bm.C, y.C), F: y.F})
					}
				}
				return out
			case "ΠI":
				b := e.modBody(m, f.T.Args[2], depth+1)
				if b.key != f.T.Args[2].key {
					p := prodOver(f.T.Args[0], b, f.T.Args[1].Name)
					return monosOf(e.modnormN(m, Mul(monoTerm(mo.C, rest()), p), depth+1))
				}
			}
		}
		if f.T.Op == OpIte {
			b := e.modBody(m, f.T, depth+1)
			if b.key != f.T.key {
				return monosOf(e.modnormN(m, Mul(monoTerm(mo.C, rest()), b), depth+1))
			}
		}
	}
	// 2^64 * Rinv = 1
	for i, f := range mo.F {
		if isApp(f.T, "Rinv") && f.T.Args[0].key == m.key && mo.C.IsInt() {
			q, r := new(big.Int).QuoRem(mo.C.Num(), two64.Num(), new(big.Int))
			if r.Sign() == 0 {
				nf := append([]Factor{}, mo.F[:i]...)
				if f.E > 1 {
					nf = append(nf, Factor{f.T, f.E - 1})
				}
				nf = append(nf, mo.F[i+1:]...)
				return e.modMono(m, Mono{C: new(big.Rat).SetInt(q), F: nf}, depth+1)
			}
		}
	}
	return []Mono{mo}
}

func (e *Engine) modBody(m, b *Term, depth int) *Term {
	if b.Op == OpIte {
		return Ite(b.Args[0], e.modBody(m, b.Args[1], depth), e.modBody(m, b.Args[2], depth))
	}
	return e.modnormN(m, b, depth)
}

// mkRed: the representative of x modulo m
func (e *Engine) mkRed(m, x *Term) *Term {
	x = e.modnorm(m, x)
	if x.IsNum() && x.Num.Sign() >= 0 && x.Num.Cmp(big.NewRat(1, 1)) <= 0 {
		return x
	}
	return App("red", SInt, m, x)
}

func (e *Engine) mkInv(m, x *Term) *Term {
	x = e.modnorm(m, x)
	if x.IsNum() && x.Num.Cmp(ratOne) == 0 {
		return x
	}
	return App("inv", SInt, m, x)
}

// ---- halves of double words

// stripLo removes lo64 from the factors of a polynomial: the value modulo 2^64 stays
func stripLo(t *Term) *Term {
	ms := monosOf(t)
	for i, m := range ms {
		for j, f := range m.F {
			if isApp(f.T, "lo64") && f.E >= 1 {
				fs := append([]Factor{}, m.F[:j]...)
				if f.E > 1 {
					fs = append(fs, Factor{f.T, f.E - 1})
				}
				fs = append(fs, m.F[j+1:]...)
				r := Mul(monoTerm(m.C, fs), f.T.Args[0])
				o := append(append([]Mono{}, ms[:i]...), ms[i+1:]...)
				return stripLo(Add(fromMonos(o, SInt), r))
			}
		}
	}
	// multiples of 2^64
	var out []Mono
	ch := false
	for _, m := range ms {
		if m.C.IsInt() && new(big.Int).Rem(m.C.Num(), two64.Num()).Sign() == 0 {
			ch = true
			continue
		}
		out = append(out, m)
	}
	if ch {
		return fromMonos(out, SInt)
	}
	return t
}

func mkLo(t *Term) *Term {
	t = stripLo(t)
	if t.IsNum() {
		m := new(big.Int).Mod(t.Num.Num(), two64.Num())
		return NumR(new(big.Rat).SetInt(m), SInt)
	}
	return App("lo64", SInt, t)
}

func mkHi(st *State, t *Term) *Term {
	if st.fits(t) {
		return Num(0)
	}
	return App("hi64", SInt, t)
}

// fits: the integer is a machine word
func (st *State) fits(t *Term) bool {
	if t.IsNum() {
		return t.Num.Sign() >= 0 && t.Num.Cmp(two64) < 0
	}
	if isApp(t, "lo64") || isApp(t, "red") {
		return true
	}
	// quick refutation: an unbounded unknown
	return st.valid(And(Ge(t, Num(0)), Lt(t, numR64)))
}

// montgomery: hi64(S) - hi64(lo64(S*m^-1)*m)  =  mont(m,S)
func montgomery(t *Term) *Term {
	ms := monosOf(t)
	for i, a := range ms {
		if a.C.Cmp(big.NewRat(-1, 1)) != 0 || len(a.F) != 1 || a.F[0].E != 1 || !isApp(a.F[0].T, "hi64") {
			continue
		}
		x := monosOf(a.F[0].T.Args[0])
		if len(x) != 1 || x[0].C.Cmp(ratOne) != 0 || len(x[0].F) != 2 {
			continue
		}
		for j := 0; j < 2; j++ {
			lo, m := x[0].F[j].T, x[0].F[1-j].T
			if !isApp(lo, "lo64") || x[0].F[0].E != 1 || x[0].F[1].E != 1 {
				continue
			}
			for k, b := range ms {
				if k == i || b.C.Cmp(ratOne) != 0 || len(b.F) != 1 || b.F[0].E != 1 || !isApp(b.F[0].T, "hi64") {
					continue
				}
				S := b.F[0].T.Args[0]
				if stripLo(Mul(S, App("mredc", SInt, m))).key != stripLo(lo.Args[0]).key {
					continue
				}
				var o []Mono
				for n, c := range ms {
					if n != i && n != k {
						o = append(o, c)
					}
				}
				return Add(fromMonos(o, SInt), App("mont", SInt, m, S))
			}
		}
	}
	return t
}

// wrapWord: the machine word with the value of the exact result t
func (e *Engine) wrapWord(st *State, t *Term) *Term {
	if isApp(t, "lo64") {
		return t
	}
	if u := montgomery(t); u.key != t.key && st.fits(u) {
		return u
	}
	if st.fits(t) {
		return t
	}
	u := montgomery(stripLo(t))
	if u.key != t.key && st.fits(u) {
		return u
	}
	return mkLo(u)
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr)
}

// ---- bounds

// upper: an exclusive upper bound of a non-negative word, as c*m for a modulus m or 1
func (e *Engine) upper(t *Term) (c *big.Rat, m *Term, ok bool) {
	if t.IsNum() && t.Num.Sign() >= 0 {
		return new(big.Rat).Add(t.Num, ratOne), nil, true
	}
	if t.Op == OpApp {
		switch t.Name {
		case "red":
			return ratOne, t.Args[0], true
		case "lazy":
			return big.NewRat(6, 1), t.Args[0], true
		case "NTT", "INTT":
			return big.NewRat(2, 1), t.Args[0], true
		}
		if e.wordBound != nil {
			if b := e.wordBound(t); b != nil {
				if b.IsNum() {
					return b.Num, nil, true
				}
				return ratOne, b, true
			}
		}
	}
	if t.Op == OpIte {
		c1, m1, ok1 := e.upper(t.Args[1])
		c2, m2, ok2 := e.upper(t.Args[2])
		if ok1 && ok2 {
			if m1 != nil && m2 != nil && m1.key == m2.key || m1 == nil && m2 == nil {
				if c1.Cmp(c2) < 0 {
					c1 = c2
				}
				return c1, m1, true
			}
			if m1 == nil && c1.Cmp(ratOne) <= 0 {
				return c2, m2, true
			}
			if m2 == nil && c2.Cmp(ratOne) <= 0 {
				return c1, m1, true
			}
		}
	}
	return nil, nil, false
}

var modMax = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 61))

// bodyBound: an upper bound of a product of bounded words, one modulus kept symbolic
func (e *Engine) bodyBound(t *Term) *Term {
	ms := monosOf(t)
	if len(ms) != 1 || ms[0].C.Sign() < 0 {
		return nil
	}
	c := ms[0].C
	var mod *Term
	for _, f := range ms[0].F {
		for i := 0; i < f.E; i++ {
			k, m, ok := e.upper(f.T)
			if !ok {
				return nil
			}
			c = new(big.Rat).Mul(c, k)
			if m == nil {
				continue
			}
			if mod == nil {
				mod = m
			} else {
				// moduli have at most 61 bits
				c = new(big.Rat).Mul(c, modMax)
			}
		}
	}
	r := NumR(c, SInt)
	if mod != nil {
		r = Mul(r, mod)
	}
	return r
}

func (e *Engine) isModulus(t *Term) bool {
	return t.Op == OpApp && (t.Name == "q" || t.Name == "Qm" || t.Name == "Pm")
}

// wordRules: facts about the functions above
func (e *Engine) wordRules(t *Term) []*Term {
	var out []*Term
	switch t.Name {
	case "q", "Qm", "Pm":
		out = append(out, Ge(t, Num(3)), Lt(t, pow2n(61)))
	case "red":
		out = append(out, Ge(t, Num(0)), Lt(t, t.Args[0]))
	case "lazy":
		out = append(out, Ge(t, Num(0)), Lt(t, MulC(6, t.Args[0])))
	case "NTT", "INTT":
		out = append(out, Ge(t, Num(0)), Lt(t, MulC(2, t.Args[0])))
	case "lo64":
		out = append(out, Ge(t, Num(0)), Lt(t, numR64))
	case "hi64":
		out = append(out, Implies(Ge(t.Args[0], Num(0)), Ge(t, Num(0))), Eq(t.Args[0], Add(Mul(numR64, t), mkLo(t.Args[0]))))
	case "mredc":
		out = append(out, Ge(t, Num(0)), Lt(t, numR64))
	case "mont":
		out = append(out, Gt(t, Neg(t.Args[0])), Implies(Ge(t.Args[1], Num(0)), Le(Mul(numR64, t), t.Args[1])))
	case "ΣI":
		if b := e.bodyBound(t.Args[2]); b != nil {
			out = append(out, Ge(t, Num(0)), Implies(And(Ge(t.Args[0], Num(0)), Le(t.Args[0], Num(32))), Le(t, MulC(32, b))))
		}
	case "ΣR":
		// a sum of quotients red(m,x)/m
		ms := monosOf(t.Args[2])
		if len(ms) == 1 && ms[0].C.Cmp(ratOne) == 0 && len(ms[0].F) == 2 {
			a, b := ms[0].F[0], ms[0].F[1]
			if a.E == -1 {
				a, b = b, a
			}
			if a.E == 1 && b.E == -1 && a.T.Op == OpToReal && b.T.Op == OpToReal && isApp(a.T.Args[0], "red") && a.T.Args[0].Args[0].key == b.T.Args[0].key {
				out = append(out, Ge(t, RealC(0, 1)), Implies(Ge(t.Args[0], Num(0)), And(Ge(Floor(t), Num(0)), Le(Floor(t), t.Args[0]))))
			}
		}
	default:
		if e.wordBound != nil {
			if b := e.wordBound(t); b != nil {
				out = append(out, Ge(t, Num(0)), Lt(t, b))
			}
		}
	}
	return out
}

// ---- congruence

// congruent: a = b modulo m, under the facts of the state
func (e *Engine) congruent(st *State, m, a, b *Term, ctx ...*Term) bool {
	a, b = e.resolve(st, a, ctx), e.resolve(st, b, ctx)
	if len(ctx) < 8 {
		// a condition that is open splits the case
		var c *Term
		for _, t := range []*Term{a, b} {
			walkTerm(t, func(x *Term) {
				if c == nil && x.Op == OpIte && !hasBinder(x.Args[0]) && !hasL(x.Args[0]) {
					c = x.Args[0]
				}
			})
		}
		if c != nil {
			cx := append([]*Term{}, ctx...)
			return e.congruent(st, m, a, b, append(cx, c)...) && e.congruent(st, m, a, b, append(cx, Not(c))...)
		}
	}
	d := e.modnorm(m, Sub(a, b))
	return e.polyZero(st, d, ctx)
}

// resolve decides the conditions of ite terms outside of binders
func (e *Engine) resolve(st *State, t *Term, ctx []*Term) *Term {
	return mapTerm(t, func(x *Term) *Term {
		if x.Op == OpIte && !hasBinder(x.Args[0]) {
			switch st.decide(x.Args[0], ctx...) {
			case 1:
				return x.Args[1]
			case -1:
				return x.Args[2]
			}
		}
		if isApp(x, "red") {
			return e.mkRed(x.Args[0], x.Args[1])
		}
		return x
	})
}

func hasBinder(t *Term) bool {
	m := map[string]bool{}
	t.syms(m)
	for s := range m {
		if strings.HasPrefix(s, "β") {
			return true
		}
	}
	return false
}

// polyZero: the monomials cancel up to equal factors
func (e *Engine) polyZero(st *State, d *Term, ctx []*Term) bool {
	ms := append([]Mono{}, monosOf(d)...)
	for len(ms) > 0 {
		a := ms[0]
		found := false
		for j := 1; j < len(ms); j++ {
			if e.factorsSame(st, a.F, ms[j].F, ctx) {
				c := new(big.Rat).Add(a.C, ms[j].C)
				rest := append([]Mono{}, ms[1:j]...)
				rest = append(rest, ms[j+1:]...)
				if c.Sign() != 0 {
					rest = append(rest, Mono{C: c, F: a.F})
				}
				ms = rest
				found = true
				break
			}
		}
		if !found {
			// a factor may vanish
			zero := false
			for _, f := range a.F {
				if !zero && f.E > 0 && !hasBinder(f.T) && st.valid(Eq(f.T, Num(0)), ctx...) {
					zero = true
				}
			}
			if zero {
				ms = ms[1:]
				continue
			}
			return false
		}
	}
	return true
}

func (e *Engine) factorsSame(st *State, a, b []Factor, ctx []*Term) bool {
	flat := func(fs []Factor) (o []*Term) {
		for _, f := range fs {
			for i := 0; i < f.E; i++ {
				o = append(o, f.T)
			}
		}
		return
	}
	x, y := flat(a), flat(b)
	if len(x) != len(y) {
		return false
	}
	used := make([]bool, len(y))
	sort.Slice(x, func(i, j int) bool { return x[i].key < x[j].key })
	for _, t := range x {
		hit := false
		for pass := 0; pass < 2 && !hit; pass++ {
			for j, u := range y {
				if used[j] {
					continue
				}
				if pass == 0 && t.key == u.key || pass == 1 && e.termSame(st, t, u, ctx) {
					used[j], hit = true, true
					break
				}
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// termSame: equal terms, going into the functions of word mode
func (e *Engine) termSame(st *State, a, b *Term, ctx []*Term) bool {
	if a.key == b.key {
		return true
	}
	if a.Sort == SBool || b.Sort == SBool {
		if a.Sort != b.Sort {
			return false
		}
		return st.valid(And(Or(Not(a), b), Or(a, Not(b))), ctx...)
	}
	if a.Op == OpApp && b.Op == OpApp && a.Name == b.Name && len(a.Args) == len(b.Args) {
		switch a.Name {
		case "red", "inv", "lazy":
			if !e.termSame(st, a.Args[0], b.Args[0], ctx) {
				return false
			}
			m := a.Args[0]
			y := mapTerm(b.Args[1], func(x *Term) *Term {
				if x.key == b.Args[0].key {
					return m
				}
				return x
			})
			return e.congruent(st, m, a.Args[1], y, ctx...)
		case "NTT", "INTT":
			if !e.termSame(st, a.Args[0], b.Args[0], ctx) || !e.termSame(st, a.Args[3], b.Args[3], ctx) {
				return false
			}
			k := Sym(freshName("β"), SInt)
			x, y := a.Args[2].Sub(Subst{a.Args[1].Name: k}), b.Args[2].Sub(Subst{b.Args[1].Name: k})
			c := append(append([]*Term{}, ctx...), Ge(k, Num(0)), Lt(k, symN))
			return e.congruent(st, a.Args[0], x, y, c...)
		case "ΣI", "ΣR", "ΠI":
			k := Sym(freshName("β"), SInt)
			x, y := a.Args[2].Sub(Subst{a.Args[1].Name: k}), b.Args[2].Sub(Subst{b.Args[1].Name: k})
			if !e.termSame(st, a.Args[0], b.Args[0], ctx) {
				return false
			}
			c := append(append([]*Term{}, ctx...), Ge(k, Num(0)), Lt(k, a.Args[0]))
			return e.bodySame(st, x, y, c)
		case "q", "Qm", "Pm", "Rinv", "lo64", "hi64", "mredc":
			return e.termSame(st, a.Args[0], b.Args[0], ctx)
		}
		all := len(a.Args) > 0
		for i := range a.Args {
			if !e.termSame(st, a.Args[i], b.Args[i], ctx) {
				all = false
				break
			}
		}
		return all
	}
	if a.Op == OpFloor && b.Op == OpFloor || a.Op == OpToReal && b.Op == OpToReal {
		return e.termSame(st, a.Args[0], b.Args[0], ctx)
	}
	if a.Op == OpPoly && b.Op == OpPoly && !linearInt(a) && len(a.Mon) == 1 && len(b.Mon) == 1 && a.Mon[0].C.Cmp(b.Mon[0].C) == 0 {
		x, y := a.Mon[0].F, b.Mon[0].F
		if len(x) == len(y) {
			used := make([]bool, len(y))
			n := 0
			for _, f := range x {
				for j, h := range y {
					if !used[j] && f.E == h.E && e.termSame(st, f.T, h.T, ctx) {
						used[j] = true
						n++
						break
					}
				}
			}
			if n == len(x) {
				return true
			}
		}
	}
	return st.valid(Eq(a, b), ctx...)
}

// bodySame: equal bodies of sums and products, by cases of their conditions
func (e *Engine) bodySame(st *State, x, y *Term, ctx []*Term) bool {
	var cond *Term
	pick := func(t *Term) {
		walkTerm(t, func(u *Term) {
			if u.Op == OpIte && cond == nil {
				cond = u.Args[0]
			}
		})
	}
	pick(x)
	if cond == nil {
		pick(y)
	}
	if cond != nil && !strings.Contains(cond.key, "ite(") {
		for _, c := range []*Term{cond, Not(cond)} {
			cc := append(append([]*Term{}, ctx...), c)
			if !st.sat(cc...) {
				continue
			}
			r := func(t *Term) *Term {
				return mapTerm(t, func(u *Term) *Term {
					if u.Op == OpIte && u.Args[0].key == cond.key {
						if c.key == cond.key {
							return u.Args[1]
						}
						return u.Args[2]
					}
					return u
				})
			}
			if !e.bodySame(st, r(x), r(y), cc) {
				return false
			}
		}
		return true
	}
	if x.key == y.key {
		return true
	}
	if x.Sort == SInt && e.polyZero(st, Sub(x, y), ctx) {
		return true
	}
	return e.termSame(st, x, y, ctx)
}

func linearInt(t *Term) bool {
	for _, m := range monosOf(t) {
		if len(m.F) > 1 {
			return false
		}
		for _, f := range m.F {
			if f.E != 1 || f.T.Op == OpApp {
				return false
			}
		}
	}
	return true
}

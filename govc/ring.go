package main

// RP: canonical form of ring elements. A row of a polynomial is a function of
// its row coordinate ROW (Q row j has coordinate j, P row j has coordinate
// nQ+j) into Z_q[X]/(X^N+1) for the modulus q of that row. An RP is a finite
// sum of components  c * sum_{binders} [guard] * prod atoms^e .

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var ROW = Sym("$row", SInt)

type Atom struct {
	Kind string
	Args []*Term
	Rps  []*RP
	Rot  *Term // automorphism: column rotation exponent (nil: none)
	Conj bool  // automorphism: conjugation
	key  string
}

type AF struct {
	A *Atom
	E int
}

type Comp struct {
	C *big.Rat
	B []*Term
	G *Term
	F []AF
}

type RP struct {
	Cs  []Comp
	key string
	h   int // nesting depth: bound names of different depths never clash
}

func (c Comp) height() int {
	h := 0
	for _, f := range c.F {
		for _, r := range f.A.Rps {
			if r.h+1 > h {
				h = r.h + 1
			}
		}
	}
	return h
}

func mkAtom(kind string, args []*Term, rps []*RP, rot *Term, conj bool) *Atom {
	a := &Atom{Kind: kind, Args: args, Rps: rps, Rot: rot, Conj: conj}
	if rot != nil && rot.IsNum() && rot.Num.Sign() == 0 {
		a.Rot = nil
	}
	var sb strings.Builder
	if a.Rot != nil || a.Conj {
		sb.WriteString("σ<")
		if a.Rot != nil {
			sb.WriteString(a.Rot.key)
		}
		if a.Conj {
			sb.WriteString(";conj")
		}
		sb.WriteString(">")
	}
	sb.WriteString(kind)
	if len(args)+len(rps) > 0 {
		sb.WriteString("(")
		for i, t := range args {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(t.key)
		}
		for _, r := range rps {
			sb.WriteString("; ")
			sb.WriteString(r.key)
		}
		sb.WriteString(")")
	}
	a.key = sb.String()
	return a
}

func A(kind string, args ...*Term) *Atom { return mkAtom(kind, args, nil, nil, false) }

func (a *Atom) Sub(m Subst) *Atom {
	if len(m) == 0 {
		return a
	}
	ch := false
	args := make([]*Term, len(a.Args))
	for i, t := range a.Args {
		args[i] = t.Sub(m)
		if args[i] != t {
			ch = true
		}
	}
	rps := make([]*RP, len(a.Rps))
	var inner Subst
	if len(a.Rps) > 0 {
		inner = m
		if _, ok := m[ROW.Name]; ok {
			inner = Subst{}
			for k, v := range m {
				if k != ROW.Name {
					inner[k] = v
				}
			}
		}
	}
	for i, r := range a.Rps {
		rps[i] = r.Sub(inner)
		if rps[i] != r {
			ch = true
		}
	}
	rot := a.Rot
	if rot != nil {
		rot = rot.Sub(m)
		if rot != a.Rot {
			ch = true
		}
	}
	if !ch {
		return a
	}
	return mkAtom(a.Kind, args, rps, rot, a.Conj)
}

func (a *Atom) has(m map[string]*Term) bool {
	for _, t := range a.Args {
		if t.HasAny(m) {
			return true
		}
	}
	for _, r := range a.Rps {
		if r.hasAny(m) {
			return true
		}
	}
	return a.Rot != nil && a.Rot.HasAny(m)
}

func (r *RP) hasAny(m map[string]*Term) bool {
	for _, c := range r.Cs {
		if c.hasAny(m) {
			return true
		}
	}
	return false
}

func (c Comp) hasAny(m map[string]*Term) bool {
	if c.G.HasAny(m) {
		return true
	}
	for _, f := range c.F {
		if f.A.has(m) {
			return true
		}
	}
	return false
}

func (r *RP) HasSym(n string) bool { return r.hasAny(map[string]*Term{n: nil}) }

func (r *RP) String() string { return r.key }

var rpZero = &RP{key: "0"}

func sortFactors(f []AF) []AF {
	sort.Slice(f, func(i, j int) bool { return f[i].A.key < f[j].A.key })
	var out []AF
	for _, x := range f {
		if n := len(out); n > 0 && out[n-1].A.key == x.A.key {
			out[n-1].E += x.E
			if out[n-1].E == 0 {
				out = out[:n-1]
			}
		} else {
			out = append(out, x)
		}
	}
	return out
}

func fkey(f []AF) string {
	var sb strings.Builder
	for i, x := range f {
		if i > 0 {
			sb.WriteString("·")
		}
		sb.WriteString(x.A.key)
		if x.E != 1 {
			fmt.Fprintf(&sb, "^%d", x.E)
		}
	}
	return sb.String()
}

func (c Comp) monoKey() string { return fmt.Sprintf("%d:%s", len(c.B), fkey(c.F)) }

func (c Comp) str() string {
	var sb strings.Builder
	sb.WriteString(c.C.RatString())
	if len(c.B) > 0 {
		sb.WriteString(" Σ{")
		for i, b := range c.B {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(b.key)
		}
		sb.WriteString("}")
	}
	if c.G.Op != OpTrue {
		sb.WriteString(" [" + c.G.key + "]")
	}
	sb.WriteString(" " + fkey(c.F))
	return sb.String()
}

func (c Comp) sub(m Subst) Comp {
	out := Comp{C: c.C, B: c.B, G: c.G.Sub(m)}
	f := make([]AF, len(c.F))
	for i, x := range c.F {
		f[i] = AF{x.A.Sub(m), x.E}
	}
	out.F = sortFactors(f)
	return out
}

var canonAll [16][]*Term

func init() {
	for h := range canonAll {
		for i := 0; i < 12; i++ {
			canonAll[h] = append(canonAll[h], Sym(fmt.Sprintf("β%d.%d", h, i), SInt))
		}
	}
}

// elimination of binders fixed by an equality of the guard
func (c Comp) elim() Comp {
	for {
		done := true
		for bi, b := range c.B {
			for _, g := range conjuncts(c.G) {
				if g.Op != OpEq0 {
					continue
				}
				co, rest, ok := linIn(g.Args[0], b.Name)
				if !ok {
					continue
				}
				v, isn := co.Int()
				if !isn || (v != 1 && v != -1) {
					continue
				}
				val := MulC(-v, rest)
				nb := append(append([]*Term{}, c.B[:bi]...), c.B[bi+1:]...)
				c = Comp{C: c.C, B: nb, G: c.G, F: c.F}.sub(Subst{b.Name: val})
				done = false
				break
			}
			if !done {
				break
			}
		}
		if done {
			return c
		}
	}
}

func (c Comp) canon() Comp {
	c = c.elim()
	n := len(c.B)
	if n == 0 {
		return c
	}
	h := c.height()
	if h >= len(canonAll) {
		panic(unsupported("too deeply nested sums"))
	}
	canonNames := canonAll[h]
	// fresh temporary names first, to avoid clashes
	tmp := Subst{}
	tb := make([]*Term, n)
	for i, b := range c.B {
		tb[i] = Sym(fmt.Sprintf("τ%d.%d", h, i), SInt)
		tmp[b.Name] = tb[i]
	}
	base := c.sub(tmp)
	names := canonNames
	free := map[string]bool{}
	base.freeSyms(free)
	clash := false
	for _, x := range canonNames {
		if free[x.Name] {
			clash = true
		}
	}
	if clash {
		names = nil
		for _, x := range canonNames {
			if !free[x.Name] {
				names = append(names, x)
			}
		}
	}
	var best Comp
	bestK := ""
	perm := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			m := Subst{}
			for x := 0; x < n; x++ {
				m[tb[x].Name] = names[perm[x]]
			}
			d := base.sub(m)
			k := fkey(d.F) + " | " + d.G.key
			if bestK == "" || k < bestK {
				bestK = k
				d.B = names[:n]
				best = d
			}
			return
		}
		for v := 0; v < n; v++ {
			if !used[v] {
				used[v] = true
				perm[i] = v
				rec(i + 1)
				used[v] = false
			}
		}
	}
	if n > 6 {
		panic(unsupported("too many nested sums"))
	}
	rec(0)
	return best
}

func mkRP(cs []Comp) *RP {
	mp := map[string]int{}
	var out []Comp
	for _, c := range cs {
		if c.C.Sign() == 0 || c.G.Op == OpFalse {
			continue
		}
		c = c.canon()
		if c.G.Op == OpFalse {
			continue
		}
		k := c.monoKey() + "|" + c.G.key
		if i, ok := mp[k]; ok {
			out[i].C = new(big.Rat).Add(out[i].C, c.C)
		} else {
			mp[k] = len(out)
			out = append(out, c)
		}
	}
	var res []Comp
	for _, c := range out {
		if c.C.Sign() != 0 {
			res = append(res, c)
		}
	}
	if len(res) == 0 {
		return rpZero
	}
	keys := make([]string, len(res))
	idx := make([]int, len(res))
	for i, c := range res {
		keys[i] = c.str()
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	r := &RP{}
	var sb strings.Builder
	for n, i := range idx {
		r.Cs = append(r.Cs, res[i])
		if x := res[i].height(); x > r.h {
			r.h = x
		}
		if n > 0 {
			sb.WriteString(" + ")
		}
		sb.WriteString(keys[i])
	}
	r.key = sb.String()
	return r
}

func (r *RP) IsZero() bool { return len(r.Cs) == 0 }

func rpAtom(a *Atom) *RP { return mkRP([]Comp{{C: ratOne, G: True, F: []AF{{a, 1}}}}) }
func rpAtomE(a *Atom, e int) *RP {
	return mkRP([]Comp{{C: ratOne, G: True, F: []AF{{a, e}}}})
}
func rpConst(c *big.Rat) *RP { return mkRP([]Comp{{C: c, G: True}}) }

func rpAdd(rs ...*RP) *RP {
	if len(rs) == 1 {
		return rs[0]
	}
	var cs []Comp
	for _, r := range rs {
		cs = append(cs, r.Cs...)
	}
	return mkRP(cs)
}

func rpScale(c *big.Rat, r *RP) *RP {
	var cs []Comp
	for _, x := range r.Cs {
		y := x
		y.C = new(big.Rat).Mul(c, x.C)
		cs = append(cs, y)
	}
	return mkRP(cs)
}
func rpNeg(r *RP) *RP    { return rpScale(big.NewRat(-1, 1), r) }
func rpSub(a, b *RP) *RP { return rpAdd(a, rpNeg(b)) }

func (c Comp) freshBinders() Comp {
	if len(c.B) == 0 {
		return c
	}
	m := Subst{}
	nb := make([]*Term, len(c.B))
	for i, b := range c.B {
		nb[i] = Fresh("b", SInt)
		m[b.Name] = nb[i]
	}
	d := c.sub(m)
	d.B = nb
	return d
}

func mulComp(x, y Comp) Comp {
	x, y = x.freshBinders(), y.freshBinders()
	return Comp{C: new(big.Rat).Mul(x.C, y.C), B: append(append([]*Term{}, x.B...), y.B...), G: And(x.G, y.G),
		F: sortFactors(append(append([]AF{}, x.F...), y.F...))}
}

func rpMul(rs ...*RP) *RP {
	r := rs[0]
	for _, x := range rs[1:] {
		r = rpMulPair(r, x)
	}
	return r
}

func rpMulPair(a, b *RP) *RP {
	var cs []Comp
	for _, x := range a.Cs {
		for _, y := range b.Cs {
			cs = append(cs, mulComp(x, y))
		}
	}
	return mkRP(cs)
}

func rpGuard(g *Term, r *RP) *RP {
	if g.Op == OpTrue {
		return r
	}
	var cs []Comp
	for _, x := range r.Cs {
		y := x.freshBinders()
		y.G = And(g, y.G)
		cs = append(cs, y)
	}
	return mkRP(cs)
}

// rpSum: sum over binder b with guard g
func rpSum(b *Term, g *Term, r *RP) *RP {
	var cs []Comp
	for _, x := range r.Cs {
		y := x.freshBinders()
		nb := Fresh("b", SInt)
		y = Comp{C: y.C, B: y.B, G: And(g, y.G), F: y.F}.sub(Subst{b.Name: nb})
		y.B = append(append([]*Term{}, y.B...), nb)
		cs = append(cs, y)
	}
	return mkRP(cs)
}

func (c Comp) subKeepB(m Subst) Comp {
	d := c.sub(m)
	d.B = c.B
	return d
}

func (r *RP) Sub(m Subst) *RP {
	if len(m) == 0 || !r.hasAny(m) {
		return r
	}
	var cs []Comp
	for _, c := range r.Cs {
		if !c.hasAny(m) {
			cs = append(cs, c)
			continue
		}
		c = c.freshBinders()
		cs = append(cs, c.subKeepB(m))
	}
	return mkRP(cs)
}

// rpMapAtoms replaces every atom occurrence by an RP (nil: keep). Negative
// exponents may only be replaced by single-monomial RPs.
func rpMapAtoms(r *RP, f func(a *Atom) *RP) *RP {
	var out []*RP
	for _, c := range r.Cs {
		c = c.freshBinders()
		acc := mkRP1(Comp{C: c.C, B: nil, G: True})
		accC := Comp{C: c.C, B: c.B, G: c.G}
		rest := []*RP{}
		for _, x := range c.F {
			rep := f(x.A)
			if rep == nil {
				accC.F = append(accC.F, x)
				continue
			}
			e := x.E
			if e < 0 {
				panic(unsupported("negative power of a defined value"))
			}
			for ; e > 0; e-- {
				rest = append(rest, rep)
			}
		}
		_ = acc
		// multiply keeping the binders of c visible: expand manually
		cur := []Comp{accC}
		for _, rp := range rest {
			var nxt []Comp
			for _, a := range cur {
				for _, b := range rp.Cs {
					b = b.freshBinders()
					nxt = append(nxt, Comp{C: new(big.Rat).Mul(a.C, b.C), B: append(append([]*Term{}, a.B...), b.B...), G: And(a.G, b.G), F: append(append([]AF{}, a.F...), b.F...)})
				}
			}
			cur = nxt
		}
		for i := range cur {
			cur[i].F = sortFactors(cur[i].F)
		}
		out = append(out, mkRP(cur))
	}
	if len(out) == 0 {
		return rpZero
	}
	return rpAdd(out...)
}

func mkRP1(c Comp) *RP { return mkRP([]Comp{c}) }

// automorphism applied to an RP
func rpSigma(r *RP, rot *Term, conj bool, norm func(*Term) *Term) *RP {
	return rpMapAtoms2(r, func(a *Atom) *Atom {
		if isScalarKind(a.Kind) {
			return a
		}
		nr := rot
		if a.Rot != nil {
			if nr == nil {
				nr = a.Rot
			} else {
				nr = Add(nr, a.Rot)
			}
		}
		if nr != nil {
			nr = norm(nr)
		}
		return mkAtom(a.Kind, a.Args, a.Rps, nr, a.Conj != conj)
	})
}

func rpMapAtoms2(r *RP, f func(*Atom) *Atom) *RP {
	var cs []Comp
	for _, c := range r.Cs {
		d := Comp{C: c.C, B: c.B, G: c.G}
		for _, x := range c.F {
			d.F = append(d.F, AF{f(x.A), x.E})
		}
		d.F = sortFactors(d.F)
		cs = append(cs, d)
	}
	return mkRP(cs)
}

func isScalarKind(k string) bool {
	return k == "P" || k == "R" || k == "g" || strings.HasPrefix(k, "K")
}

func (r *RP) hasAtomKind(pred func(*Atom) bool) bool {
	for _, c := range r.Cs {
		for _, f := range c.F {
			if pred(f.A) {
				return true
			}
			for _, q := range f.A.Rps {
				if q.hasAtomKind(pred) {
					return true
				}
			}
		}
	}
	return false
}

// single monomial without binders/guard
func (r *RP) single() (Comp, bool) {
	if len(r.Cs) == 1 {
		return r.Cs[0], true
	}
	return Comp{}, false
}

var atomR = A("R")
var atomP = A("P")

func rpR(e int) *RP { return rpAtomE(atomR, e) }
func rpP(e int) *RP { return rpAtomE(atomP, e) }

func (c Comp) freeSyms(out map[string]bool) {
	in := map[string]bool{}
	c.G.syms(in)
	for _, f := range c.F {
		for _, t := range f.A.Args {
			t.syms(in)
		}
		if f.A.Rot != nil {
			f.A.Rot.syms(in)
		}
		for _, r := range f.A.Rps {
			for _, d := range r.Cs {
				d.freeSyms(in)
			}
		}
	}
	for _, b := range c.B {
		delete(in, b.Name)
	}
	for k := range in {
		out[k] = true
	}
}

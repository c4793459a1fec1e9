package main

// Terms: the logical language of the verification conditions. Integers are
// mathematical (machine arithmetic is treated as mathematical, see DESIGN.md),
// floats are reals, strings are integers (only compared for equality).
// Integer and real terms are kept as canonical polynomials over their atoms.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SReal
)

type Op uint8

const (
	OpNum Op = iota
	OpSym
	OpApp
	OpPoly
	OpIte
	OpDiv
	OpMod
	OpToReal
	OpFloor
	OpTrue
	OpFalse
	OpGe0
	OpEq0
	OpAnd
	OpOr
	OpNot
	OpForall
)

type Factor struct {
	T *Term
	E int
}

type Mono struct {
	C *big.Rat
	F []Factor
}

type Term struct {
	Op   Op
	Sort Sort
	Name string
	Args []*Term
	Num  *big.Rat
	Mon  []Mono
	key  string
}

func (t *Term) String() string { return t.key }
func (t *Term) Is(u *Term) bool {
	return t == u || t.key == u.key
}

var symCounter int64

func freshName(base string) string {
	return fmt.Sprintf("%s!%d", base, atomic.AddInt64(&symCounter, 1))
}

func mk(op Op, s Sort, name string, args ...*Term) *Term {
	t := &Term{Op: op, Sort: s, Name: name, Args: args}
	t.key = t.mkKey()
	return t
}

func (t *Term) mkKey() string {
	switch t.Op {
	case OpNum:
		return t.Num.RatString()
	case OpSym:
		return t.Name
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpPoly:
		var sb strings.Builder
		sb.WriteString("(")
		for i, m := range t.Mon {
			if i > 0 {
				sb.WriteString(" + ")
			}
			sb.WriteString(m.str())
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	switch t.Op {
	case OpApp:
		sb.WriteString(t.Name)
	case OpIte:
		sb.WriteString("ite")
	case OpDiv:
		sb.WriteString("div")
	case OpMod:
		sb.WriteString("mod")
	case OpToReal:
		sb.WriteString("real")
	case OpFloor:
		sb.WriteString("floor")
	case OpGe0:
		sb.WriteString("ge0")
	case OpEq0:
		sb.WriteString("eq0")
	case OpAnd:
		sb.WriteString("and")
	case OpOr:
		sb.WriteString("or")
	case OpNot:
		sb.WriteString("not")
	case OpForall:
		sb.WriteString("forall")
	}
	sb.WriteString("(")
	for i, a := range t.Args {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(a.key)
	}
	sb.WriteString(")")
	return sb.String()
}

func (m Mono) fkey() string {
	var sb strings.Builder
	for i, f := range m.F {
		if i > 0 {
			sb.WriteString("*")
		}
		sb.WriteString(f.T.key)
		if f.E != 1 {
			fmt.Fprintf(&sb, "^%d", f.E)
		}
	}
	return sb.String()
}

func (m Mono) str() string {
	if len(m.F) == 0 {
		return m.C.RatString()
	}
	if m.C.Cmp(ratOne) == 0 {
		return m.fkey()
	}
	return m.C.RatString() + "*" + m.fkey()
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

var True = mk(OpTrue, SBool, "")
var False = mk(OpFalse, SBool, "")

func Num(n int64) *Term { return NumR(big.NewRat(n, 1), SInt) }
func NumR(r *big.Rat, s Sort) *Term {
	t := &Term{Op: OpNum, Sort: s, Num: r}
	t.key = t.mkKey()
	if s == SReal {
		t.key += "r"
	}
	return t
}
func RealC(n, d int64) *Term { return NumR(big.NewRat(n, d), SReal) }

func Sym(name string, s Sort) *Term { return mk(OpSym, s, name) }
func Fresh(base string, s Sort) *Term {
	return mk(OpSym, s, freshName(base))
}
func App(name string, s Sort, args ...*Term) *Term { return mk(OpApp, s, name, args...) }

func (t *Term) IsNum() bool { return t.Op == OpNum }
func (t *Term) Int() (int64, bool) {
	if t.Op == OpNum && t.Num.IsInt() && t.Num.Num().IsInt64() {
		return t.Num.Num().Int64(), true
	}
	return 0, false
}

func monosOf(t *Term) []Mono {
	switch t.Op {
	case OpNum:
		if t.Num.Sign() == 0 {
			return nil
		}
		return []Mono{{C: t.Num}}
	case OpPoly:
		return t.Mon
	}
	return []Mono{{C: ratOne, F: []Factor{{t, 1}}}}
}

func fromMonos(ms []Mono, s Sort) *Term {
	mp := map[string]int{}
	var out []Mono
	for _, m := range ms {
		k := m.fkey()
		if i, ok := mp[k]; ok {
			out[i].C = new(big.Rat).Add(out[i].C, m.C)
		} else {
			mp[k] = len(out)
			out = append(out, Mono{C: m.C, F: m.F})
		}
	}
	var res []Mono
	for _, m := range out {
		if m.C.Sign() != 0 {
			res = append(res, m)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].fkey() < res[j].fkey() })
	if len(res) == 0 {
		return NumR(new(big.Rat), s)
	}
	if len(res) == 1 {
		m := res[0]
		if len(m.F) == 0 {
			return NumR(m.C, s)
		}
		if len(m.F) == 1 && m.F[0].E == 1 && m.C.Cmp(ratOne) == 0 {
			return m.F[0].T
		}
	}
	t := &Term{Op: OpPoly, Sort: s, Mon: res}
	t.key = t.mkKey()
	return t
}

func numSort(a, b *Term) Sort {
	if a.Sort == SReal || b.Sort == SReal {
		return SReal
	}
	return SInt
}

func coerce(a *Term, s Sort) *Term {
	if s == SReal && a.Sort == SInt {
		return ToReal(a)
	}
	return a
}

func Add(a, b *Term) *Term {
	s := numSort(a, b)
	a, b = coerce(a, s), coerce(b, s)
	return fromMonos(append(append([]Mono{}, monosOf(a)...), monosOf(b)...), s)
}

func AddAll(ts ...*Term) *Term {
	r := ts[0]
	for _, t := range ts[1:] {
		r = Add(r, t)
	}
	return r
}

func scaleMonos(ms []Mono, c *big.Rat) []Mono {
	out := make([]Mono, len(ms))
	for i, m := range ms {
		out[i] = Mono{C: new(big.Rat).Mul(m.C, c), F: m.F}
	}
	return out
}

func Neg(a *Term) *Term {
	return fromMonos(scaleMonos(monosOf(a), big.NewRat(-1, 1)), a.Sort)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func mulMono(a, b Mono) Mono {
	c := new(big.Rat).Mul(a.C, b.C)
	var f []Factor
	i, j := 0, 0
	for i < len(a.F) || j < len(b.F) {
		if j >= len(b.F) || (i < len(a.F) && a.F[i].T.key < b.F[j].T.key) {
			f = append(f, a.F[i])
			i++
		} else if i >= len(a.F) || b.F[j].T.key < a.F[i].T.key {
			f = append(f, b.F[j])
			j++
		} else {
			e := a.F[i].E + b.F[j].E
			if e != 0 {
				f = append(f, Factor{a.F[i].T, e})
			}
			i++
			j++
		}
	}
	return Mono{C: c, F: f}
}

func Mul(a, b *Term) *Term {
	s := numSort(a, b)
	a, b = coerce(a, s), coerce(b, s)
	// keep ite scaled by constants distributable: c*ite stays a monomial
	var out []Mono
	for _, x := range monosOf(a) {
		for _, y := range monosOf(b) {
			out = append(out, mulMono(x, y))
		}
	}
	return fromMonos(out, s)
}

func MulC(c int64, a *Term) *Term { return Mul(NumR(big.NewRat(c, 1), a.Sort), a) }

// RDiv is real division.
func RDiv(a, b *Term) *Term {
	a, b = coerce(a, SReal), coerce(b, SReal)
	bm := monosOf(b)
	if len(bm) == 1 {
		inv := Mono{C: new(big.Rat).Inv(bm[0].C)}
		for _, f := range bm[0].F {
			inv.F = append(inv.F, Factor{f.T, -f.E})
		}
		var out []Mono
		for _, x := range monosOf(a) {
			out = append(out, mulMono(x, inv))
		}
		return fromMonos(out, SReal)
	}
	inv := []Mono{{C: ratOne, F: []Factor{{b, -1}}}}
	var out []Mono
	for _, x := range monosOf(a) {
		out = append(out, mulMono(x, inv[0]))
	}
	return fromMonos(out, SReal)
}

// Div, Mod: floor division by a positive divisor.
func Div(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() {
		q := new(big.Int).Div(a.Num.Num(), b.Num.Num())
		return NumR(new(big.Rat).SetInt(q), SInt)
	}
	if c, ok := b.Int(); ok && c > 0 {
		// split off the multiples of c
		var q, r []Mono
		for _, m := range monosOf(a) {
			d := new(big.Rat).Quo(m.C, big.NewRat(c, 1))
			if d.IsInt() {
				q = append(q, Mono{C: d, F: m.F})
			} else {
				r = append(r, m)
			}
		}
		if len(r) == 0 {
			return fromMonos(q, SInt)
		}
		rt := fromMonos(r, SInt)
		if rt.IsNum() {
			z := new(big.Int).Div(rt.Num.Num(), big.NewInt(c))
			return Add(fromMonos(q, SInt), NumR(new(big.Rat).SetInt(z), SInt))
		}
		return Add(fromMonos(q, SInt), mk(OpDiv, SInt, "", rt, b))
	}
	if bm := monosOf(b); len(bm) == 1 && bm[0].C.Sign() > 0 {
		// split off the multiples of b
		var q, r []Mono
		for _, m := range monosOf(a) {
			if f, ok := divMono(m, bm[0]); ok {
				q = append(q, f)
			} else {
				r = append(r, m)
			}
		}
		qt := fromMonos(q, SInt)
		if len(r) == 0 {
			return qt
		}
		rt := fromMonos(r, SInt)
		if ms := monosOf(rt); len(ms[0].F) > 0 && ms[0].C.Sign() < 0 || len(ms) > 1 && len(ms[0].F) == 0 && ms[1].C.Sign() < 0 {
			// floor(x/b) = -floor((-x-1)/b) - 1
			return Sub(Sub(qt, mk(OpDiv, SInt, "", Sub(Neg(rt), Num(1)), b)), Num(1))
		}
		return Add(qt, mk(OpDiv, SInt, "", rt, b))
	}
	return mk(OpDiv, SInt, "", a, b)
}

// divMono: the quotient of two monomials, if it is one with an integer coefficient
func divMono(m, d Mono) (Mono, bool) {
	c := new(big.Rat).Quo(m.C, d.C)
	if !c.IsInt() {
		return Mono{}, false
	}
	rest := append([]Factor{}, m.F...)
	for _, f := range d.F {
		ok := false
		for i, g := range rest {
			if g.T.key == f.T.key && g.E >= f.E {
				ok = true
				if g.E == f.E {
					rest = append(rest[:i:i], rest[i+1:]...)
				} else {
					rest[i].E = g.E - f.E
				}
				break
			}
		}
		if !ok {
			return Mono{}, false
		}
	}
	return Mono{C: c, F: rest}, true
}

func Mod(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() {
		q := new(big.Int).Mod(a.Num.Num(), b.Num.Num())
		return NumR(new(big.Rat).SetInt(q), SInt)
	}
	if c, ok := b.Int(); ok && c > 0 {
		var r []Mono
		for _, m := range monosOf(a) {
			d := new(big.Rat).Quo(m.C, big.NewRat(c, 1))
			if !d.IsInt() {
				r = append(r, m)
			}
		}
		rt := fromMonos(r, SInt)
		if rt.IsNum() {
			q := new(big.Int).Mod(rt.Num.Num(), big.NewInt(c))
			return NumR(new(big.Rat).SetInt(q), SInt)
		}
		return mk(OpMod, SInt, "", rt, b)
	}
	return Sub(a, Mul(b, Div(a, b)))
}

func ToReal(a *Term) *Term {
	if a.Sort == SReal {
		return a
	}
	if a.IsNum() {
		return NumR(a.Num, SReal)
	}
	if a.Op == OpPoly {
		var out []Mono
		for _, m := range a.Mon {
			mm := Mono{C: m.C}
			for _, f := range m.F {
				mm = mulMono(mm, Mono{C: ratOne, F: []Factor{{ToReal(f.T), f.E}}})
			}
			out = append(out, mm)
		}
		return fromMonos(out, SReal)
	}
	return mk(OpToReal, SReal, "", a)
}

// isIntegral: a real term that is syntactically the image of an integer.
func isIntegral(a *Term) (*Term, bool) {
	if a.Sort == SInt {
		return a, true
	}
	switch a.Op {
	case OpNum:
		if a.Num.IsInt() {
			return NumR(a.Num, SInt), true
		}
	case OpToReal:
		return a.Args[0], true
	case OpPoly:
		var out []Mono
		for _, m := range a.Mon {
			if !m.C.IsInt() {
				return nil, false
			}
			mm := Mono{C: m.C}
			for _, f := range m.F {
				if f.T.Op != OpToReal || f.E < 0 {
					return nil, false
				}
				for e := 0; e < f.E; e++ {
					for _, x := range monosOf(f.T.Args[0]) {
						_ = x
					}
					mm = mulMono(mm, Mono{C: ratOne, F: []Factor{{f.T.Args[0], 1}}})
				}
			}
			out = append(out, mm)
		}
		return fromMonos(out, SInt), true
	}
	return nil, false
}

// Floor gives an Int.
func Floor(a *Term) *Term {
	if i, ok := isIntegral(a); ok {
		return i
	}
	if a.IsNum() {
		q := new(big.Int).Div(a.Num.Num(), a.Num.Denom())
		return NumR(new(big.Rat).SetInt(q), SInt)
	}
	// integral summands come out
	if ms := monosOf(a); len(ms) > 1 {
		in, rest := NumR(new(big.Rat), SInt), NumR(new(big.Rat), a.Sort)
		for _, m := range ms {
			t := fromMonos([]Mono{m}, a.Sort)
			if i, ok := isIntegral(t); ok {
				in = Add(in, i)
			} else {
				rest = Add(rest, t)
			}
		}
		if !in.IsNum() || in.Num.Sign() != 0 {
			return Add(in, Floor(rest))
		}
	}
	return mk(OpFloor, SInt, "", a)
}

func Ite(c, a, b *Term) *Term {
	switch c.Op {
	case OpTrue:
		return a
	case OpFalse:
		return b
	case OpNot:
		return Ite(c.Args[0], b, a)
	}
	if a.Sort != SBool {
		s := numSort(a, b)
		a, b = coerce(a, s), coerce(b, s)
	}
	if a.Is(b) {
		return a
	}
	if a.Sort == SBool {
		return And(Or(Not(c), a), Or(c, b))
	}
	return mk(OpIte, a.Sort, "", c, a, b)
}

func Min(a, b *Term) *Term {
	d := Sub(a, b)
	if d.IsNum() {
		if d.Num.Sign() <= 0 {
			return a
		}
		return b
	}
	return Ite(Ge0(Neg(d)), a, b)
}
func Max(a, b *Term) *Term {
	d := Sub(a, b)
	if d.IsNum() {
		if d.Num.Sign() >= 0 {
			return a
		}
		return b
	}
	return Ite(Ge0(d), a, b)
}

func content(ms []Mono, withConst bool) *big.Rat {
	// positive rational g such that all (non-constant) coefficients are integer multiples of g with gcd one
	var num, den *big.Int
	for _, m := range ms {
		if !withConst && len(m.F) == 0 {
			continue
		}
		n := new(big.Int).Abs(m.C.Num())
		d := m.C.Denom()
		if num == nil {
			num, den = n, new(big.Int).Set(d)
			continue
		}
		// gcd of n/d and num/den = gcd(n*den, num*d)/(d*den)
		a := new(big.Int).Mul(n, den)
		b := new(big.Int).Mul(num, d)
		g := new(big.Int).GCD(nil, nil, a, b)
		dd := new(big.Int).Mul(d, den)
		r := new(big.Rat).SetFrac(g, dd)
		num, den = new(big.Int).Set(r.Num()), new(big.Int).Set(r.Denom())
	}
	if num == nil {
		return ratOne
	}
	return new(big.Rat).SetFrac(num, den)
}

// Ge0: a >= 0
func Ge0(a *Term) *Term {
	if a.IsNum() {
		if a.Num.Sign() >= 0 {
			return True
		}
		return False
	}
	ms := monosOf(a)
	g := content(ms, a.Sort == SReal)
	if g.Cmp(ratOne) != 0 {
		inv := new(big.Rat).Inv(g)
		out := scaleMonos(ms, inv)
		if a.Sort == SInt {
			for i, m := range out {
				if len(m.F) == 0 {
					q := new(big.Int).Div(m.C.Num(), m.C.Denom())
					out[i].C = new(big.Rat).SetInt(q)
				}
			}
		}
		a = fromMonos(out, a.Sort)
	}
	return mk(OpGe0, SBool, "", a)
}
func Ge(a, b *Term) *Term { return Ge0(Sub(a, b)) }
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term {
	if numSort(a, b) == SInt {
		return Ge0(Sub(Sub(b, a), Num(1)))
	}
	return Not(Ge(a, b))
}
func Gt(a, b *Term) *Term { return Lt(b, a) }

// integrality: x - floor(x) = 0 is the same for x and -x; one of the two is the normal form.
func integrality(a *Term) *Term {
	for _, m := range monosOf(a) {
		if len(m.F) != 1 || m.F[0].E != 1 || m.F[0].T.Op != OpToReal || m.F[0].T.Args[0].Op != OpFloor {
			continue
		}
		x := m.F[0].T.Args[0].Args[0]
		if d := Sub(Mul(NumR(new(big.Rat).Inv(m.C), SReal), a), Sub(m.F[0].T, x)); !d.IsNum() || d.Num.Sign() != 0 {
			continue
		}
		if xs := monosOf(x); xs[len(xs)-1].C.Sign() < 0 {
			x = Neg(x)
		}
		return Sub(x, ToReal(Floor(x)))
	}
	return a
}

func Eq0(a *Term) *Term {
	if a.IsNum() {
		if a.Num.Sign() == 0 {
			return True
		}
		return False
	}
	ms := monosOf(a)
	g := content(ms, true)
	if ms[len(ms)-1].C.Sign() < 0 {
		g = new(big.Rat).Neg(g)
	}
	if g.Cmp(ratOne) != 0 {
		ms = scaleMonos(ms, new(big.Rat).Inv(g))
		a = fromMonos(ms, a.Sort)
	}
	if a.Sort == SReal {
		a = integrality(a)
	}
	return mk(OpEq0, SBool, "", a)
}

func Eq(a, b *Term) *Term {
	if a.Sort == SBool {
		return And(Or(Not(a), b), Or(a, Not(b)))
	}
	return Eq0(Sub(a, b))
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(a *Term) *Term {
	switch a.Op {
	case OpTrue:
		return False
	case OpFalse:
		return True
	case OpNot:
		return a.Args[0]
	case OpGe0:
		if a.Args[0].Sort == SInt {
			return Ge0(Sub(Neg(a.Args[0]), Num(1)))
		}
	}
	return mk(OpNot, SBool, "", a)
}

func And(ts ...*Term) *Term {
	seen := map[string]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == nil {
			return true
		}
		switch t.Op {
		case OpTrue:
			return true
		case OpFalse:
			return false
		case OpAnd:
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !seen[t.key] {
			seen[t.key] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	for _, t := range out {
		if seen[Not(t).key] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return mk(OpAnd, SBool, "", out...)
}

func Or(ts ...*Term) *Term {
	seen := map[string]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.Op {
		case OpFalse:
			return true
		case OpTrue:
			return false
		case OpOr:
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !seen[t.key] {
			seen[t.key] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	for _, t := range out {
		if seen[Not(t).key] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return mk(OpOr, SBool, "", out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Forall(vars []*Term, body *Term) *Term {
	if body.Op == OpTrue {
		return True
	}
	used := map[string]bool{}
	body.syms(used)
	var vs []*Term
	for _, v := range vars {
		if used[v.Name] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return mk(OpForall, SBool, "", append(append([]*Term{}, vs...), body)...)
}

func conjuncts(t *Term) []*Term {
	switch t.Op {
	case OpTrue:
		return nil
	case OpAnd:
		return t.Args
	}
	return []*Term{t}
}

func (t *Term) syms(out map[string]bool) {
	switch t.Op {
	case OpSym:
		out[t.Name] = true
	case OpPoly:
		for _, m := range t.Mon {
			for _, f := range m.F {
				f.T.syms(out)
			}
		}
	default:
		for _, a := range t.Args {
			a.syms(out)
		}
	}
}

func (t *Term) Has(name string) bool {
	switch t.Op {
	case OpSym:
		return t.Name == name
	case OpNum, OpTrue, OpFalse:
		return false
	case OpPoly:
		for _, m := range t.Mon {
			for _, f := range m.F {
				if f.T.Has(name) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range t.Args {
		if a.Has(name) {
			return true
		}
	}
	return false
}

func (t *Term) HasAny(m map[string]*Term) bool {
	switch t.Op {
	case OpSym:
		_, ok := m[t.Name]
		return ok
	case OpNum, OpTrue, OpFalse:
		return false
	case OpPoly:
		for _, mm := range t.Mon {
			for _, f := range mm.F {
				if f.T.HasAny(m) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range t.Args {
		if a.HasAny(m) {
			return true
		}
	}
	return false
}

type Subst map[string]*Term

func (t *Term) Sub(m Subst) *Term {
	if len(m) == 0 || !t.HasAny(m) {
		return t
	}
	switch t.Op {
	case OpSym:
		if r, ok := m[t.Name]; ok {
			return r
		}
		return t
	case OpPoly:
		var out *Term = NumR(new(big.Rat), t.Sort)
		for _, mm := range t.Mon {
			x := NumR(mm.C, t.Sort)
			for _, f := range mm.F {
				b := f.T.Sub(m)
				e := f.E
				if e < 0 {
					for ; e < 0; e++ {
						x = RDiv(x, b)
					}
				} else {
					for ; e > 0; e-- {
						x = Mul(x, b)
					}
				}
			}
			out = Add(out, x)
		}
		return out
	case OpForall:
		args := make([]*Term, len(t.Args))
		copy(args, t.Args)
		args[len(args)-1] = t.Args[len(args)-1].Sub(m)
		return Forall(args[:len(args)-1], args[len(args)-1])
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = a.Sub(m)
	}
	return rebuild(t, args)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OpApp:
		if t.Name == "pow2" {
			return Pow2(args[0])
		}
		return App(t.Name, t.Sort, args...)
	case OpIte:
		return Ite(args[0], args[1], args[2])
	case OpDiv:
		return Div(args[0], args[1])
	case OpMod:
		return Mod(args[0], args[1])
	case OpToReal:
		return ToReal(args[0])
	case OpFloor:
		return Floor(args[0])
	case OpGe0:
		return Ge0(args[0])
	case OpEq0:
		return Eq0(args[0])
	case OpAnd:
		return And(args...)
	case OpOr:
		return Or(args...)
	case OpNot:
		return Not(args[0])
	case OpForall:
		return Forall(args[:len(args)-1], args[len(args)-1])
	}
	return t
}

// mapTerm rewrites bottom-up.
func mapTerm(t *Term, f func(*Term) *Term) *Term {
	switch t.Op {
	case OpSym, OpNum, OpTrue, OpFalse:
		return f(t)
	case OpPoly:
		var out *Term = NumR(new(big.Rat), t.Sort)
		for _, mm := range t.Mon {
			x := NumR(mm.C, t.Sort)
			for _, fa := range mm.F {
				b := mapTerm(fa.T, f)
				e := fa.E
				if e < 0 {
					for ; e < 0; e++ {
						x = RDiv(x, b)
					}
				} else {
					for ; e > 0; e-- {
						x = Mul(x, b)
					}
				}
			}
			out = Add(out, x)
		}
		return out
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = mapTerm(a, f)
	}
	return f(rebuild(t, args))
}

func walkTerm(t *Term, f func(*Term)) {
	f(t)
	if t.Op == OpPoly {
		for _, m := range t.Mon {
			for _, fa := range m.F {
				walkTerm(fa.T, f)
			}
		}
		return
	}
	for _, a := range t.Args {
		walkTerm(a, f)
	}
}

// linear coefficient of symbol in t: t = c*sym + rest with rest free of sym.
func linIn(t *Term, name string) (c *Term, rest *Term, ok bool) {
	var cm, rm []Mono
	for _, m := range monosOf(t) {
		deg := 0
		var others []Factor
		for _, f := range m.F {
			if f.T.Op == OpSym && f.T.Name == name {
				deg += f.E
			} else {
				if f.T.Has(name) {
					return nil, nil, false
				}
				others = append(others, f)
			}
		}
		switch deg {
		case 0:
			rm = append(rm, m)
		case 1:
			cm = append(cm, Mono{C: m.C, F: others})
		default:
			return nil, nil, false
		}
	}
	return fromMonos(cm, t.Sort), fromMonos(rm, t.Sort), true
}

// string literals as integers
var strMu sync.Mutex
var strCodes = map[string]int64{"0": 0, "": -1}
var strNext int64 = 1000001

func StrLit(s string) *Term {
	strMu.Lock()
	defer strMu.Unlock()
	if c, ok := strCodes[s]; ok {
		return Num(c)
	}
	strCodes[s] = strNext
	strNext++
	return Num(strCodes[s])
}

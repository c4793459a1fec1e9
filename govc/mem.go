package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Ov struct {
	G     *Term
	V     Val
	Epoch int
	W     bool // word-level write into a row cell (one more hole: the word index)
}

type Cell struct {
	Proto *Addr
	Row   bool
	Ovs   []Ov
}

type PC struct {
	T      *Term
	Branch bool
}

type ReadLog struct {
	Skel string
	Args []*Term
	W    *Term // word index for word reads of row cells, nil otherwise
	Cond []*Term
	Row  bool
}

type Tracker struct {
	Epoch int
	Base  int // pc length at the start of the iteration
	Reads []ReadLog
}

type State struct {
	E        *Engine
	PCs      []PC
	Cells    map[string]*Cell
	Keys     []*Term // active loop iteration symbols
	Epoch    int
	Trackers []*Tracker
	Cnt      map[string]int
	dead     bool
	Ghost    map[string]Val
}

func (st *State) clone() *State {
	n := &State{E: st.E, Epoch: st.Epoch, Cells: make(map[string]*Cell, len(st.Cells)), Cnt: make(map[string]int, len(st.Cnt)), Ghost: make(map[string]Val, len(st.Ghost))}
	n.PCs = append([]PC{}, st.PCs...)
	for k, c := range st.Cells {
		n.Cells[k] = c // cells are copied on write
	}
	for k, c := range st.Cnt {
		n.Cnt[k] = c
	}
	for k, c := range st.Ghost {
		n.Ghost[k] = c
	}
	n.Keys = append([]*Term{}, st.Keys...)
	for _, t := range st.Trackers {
		n.Trackers = append(n.Trackers, &Tracker{Epoch: t.Epoch, Base: t.Base, Reads: append([]ReadLog{}, t.Reads...)})
	}
	return n
}

func (st *State) assume(t *Term)  { st.PCs = append(st.PCs, PC{t, true}) }
func (st *State) addFact(t *Term) { st.PCs = append(st.PCs, PC{t, false}) }

func (st *State) pcTerms() []*Term {
	out := make([]*Term, 0, len(st.PCs)+len(st.E.Facts))
	out = append(out, st.E.Facts...)
	for _, p := range st.PCs {
		out = append(out, p.T)
	}
	return out
}

func (st *State) valid(t *Term, extra ...*Term) bool {
	if t.Op == OpTrue {
		return true
	}
	for _, x := range extra {
		if x.Op == OpFalse {
			return true
		}
		if x.key == t.key {
			return true
		}
	}
	for _, p := range st.PCs {
		if p.T.key == t.key {
			return true
		}
	}
	q := append(st.pcTerms(), extra...)
	q = append(q, Not(t))
	return st.E.S.query(st.E.relevant(q)) == "unsat"
}

func (st *State) sat(extra ...*Term) bool {
	for _, x := range extra {
		if x.Op == OpFalse {
			return false
		}
	}
	q := append(st.pcTerms(), extra...)
	return st.E.S.query(st.E.relevant(q)) != "unsat"
}

func (st *State) decide(t *Term, extra ...*Term) int {
	switch t.Op {
	case OpTrue:
		return 1
	case OpFalse:
		return -1
	}
	if st.valid(t, extra...) {
		return 1
	}
	if st.valid(Not(t), extra...) {
		return -1
	}
	return 0
}

type forkReq struct{ c *Term }

// cond decides t, forking the state if it is undetermined.
func (st *State) cond(t *Term) bool {
	switch st.decide(t) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(forkReq{t})
}

func hole(i int) *Term { return Sym(fmt.Sprintf("$%d", i), SInt) }

func holeSubst(args []*Term) Subst {
	m := Subst{}
	for i, a := range args {
		m[fmt.Sprintf("$%d", i)] = a
	}
	return m
}

func (st *State) logRead(c *Cell, skel string, args []*Term, w *Term, epoch int, extra []*Term, row bool) {
	for _, tr := range st.Trackers {
		if epoch < tr.Epoch {
			var cond []*Term
			if tr.Base <= len(st.PCs) {
				for _, p := range st.PCs[tr.Base:] {
					cond = append(cond, p.T)
				}
			}
			cond = append(cond, extra...)
			tr.Reads = append(tr.Reads, ReadLog{skel, args, w, cond, row})
		}
	}
}

func (st *State) cellW(a *Addr, row bool) *Cell {
	sk := a.Skel()
	c := st.Cells[sk]
	n := &Cell{Proto: a, Row: row}
	if c != nil {
		n.Proto = c.Proto
		n.Ovs = append(append([]Ov{}, c.Ovs...))
	}
	st.Cells[sk] = n
	return n
}

// writeLeaf stores a leaf value at a.
func (st *State) writeLeaf(a *Addr, v Val) {
	if isRowWord(a) {
		st.writeWord(a, v)
		return
	}
	c := st.cellW(a, false)
	args := a.Args()
	g := True
	for i, t := range args {
		g = And(g, Eq(hole(i), t))
	}
	c.push(Ov{G: g, V: v, Epoch: st.Epoch})
}

func (c *Cell) push(ov Ov) {
	// a write with the same guard in the same epoch replaces the previous one
	if n := len(c.Ovs); n > 0 && !ov.W && !c.Ovs[n-1].W && c.Ovs[n-1].Epoch == ov.Epoch && c.Ovs[n-1].G.key == ov.G.key {
		c.Ovs[n-1] = ov
		return
	}
	c.Ovs = append(c.Ovs, ov)
}

func (st *State) writeGuarded(a *Addr, g *Term, v Val, row bool) {
	c := st.cellW(a, row)
	c.push(Ov{G: g, V: v, Epoch: st.Epoch})
}

// readLeaf reads the leaf of type t at a.
func (st *State) readLeaf(a *Addr, t types.Type) Val {
	if isRowWord(a) {
		return st.readWord(a)
	}
	sk := a.Skel()
	args := a.Args()
	c := st.Cells[sk]
	type piece struct {
		g *Term
		v Val
	}
	var ps []piece
	var final Val
	if c != nil {
		m := holeSubst(args)
		for i := len(c.Ovs) - 1; i >= 0; i-- {
			ov := c.Ovs[i]
			g := ov.G.Sub(m)
			// guards of the pieces already collected are false here
			var ex []*Term
			for _, p := range ps {
				ex = append(ex, Not(p.g))
			}
			d := st.decide(g, ex...)
			if d < 0 {
				continue
			}
			st.logRead(c, sk, args, nil, ov.Epoch, append(ex, g), false)
			v := subVal(ov.V, m)
			if d > 0 {
				final = v
				break
			}
			ps = append(ps, piece{g, v})
		}
	}
	if final == nil {
		var ex []*Term
		for _, p := range ps {
			ex = append(ex, Not(p.g))
		}
		st.logRead(c, sk, args, nil, -1, ex, false)
		final = st.E.baseLeaf(st, a, t)
	}
	for i := len(ps) - 1; i >= 0; i-- {
		ft, ok1 := final.(*Term)
		pt, ok2 := ps[i].v.(*Term)
		if ok1 && ok2 {
			final = Ite(ps[i].g, pt, ft)
			continue
		}
		if valStr(final) == valStr(ps[i].v) {
			continue
		}
		panic(forkReq{ps[i].g})
	}
	return final
}

// ---- typed access

func (st *State) read(a *Addr, t types.Type) Val {
	if a.Nil {
		panic(goPanic{"nil pointer dereference"})
	}
	if a.View {
		at := t.Underlying().(*types.Array)
		s := &StructV{T: t}
		for i := 0; i < int(at.Len()); i++ {
			s.F = append(s.F, st.read(viewIndex(a, Num(int64(i))), at.Elem()))
		}
		return s
	}
	if st.E.isOpaque(t) {
		return st.readLeaf(a, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, st.read(a.field(i, u.Field(i).Name()), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := &StructV{T: t}
		for i := 0; i < int(u.Len()); i++ {
			s.F = append(s.F, st.read(arrayElem(a, t, Num(int64(i))), u.Elem()))
		}
		return s
	}
	return st.readLeaf(a, t)
}

// arrays of words are indexable by terms, other arrays are treated as records
func arrayElem(a *Addr, t types.Type, i *Term) *Addr {
	at := t.Underlying().(*types.Array)
	if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		return a.index(i)
	}
	if litArray(a) {
		return a.index(i)
	}
	n, ok := i.Int()
	if !ok {
		panic(unsupported("symbolic index into array of %s", at.Elem()))
	}
	return a.field(int(n), fmt.Sprintf("#%d", n))
}

func viewIndex(a *Addr, i *Term) *Addr {
	b := &Addr{R: a.R, RA: a.RA, P: append([]Step{}, a.P...)}
	l := &b.P[len(b.P)-1]
	l.T = Add(l.T, i)
	return b
}

func (st *State) write(a *Addr, t types.Type, v Val) {
	if a.Nil {
		panic(goPanic{"nil pointer dereference"})
	}
	if a.View {
		at := t.Underlying().(*types.Array)
		s := v.(*StructV)
		for i := 0; i < int(at.Len()); i++ {
			st.write(viewIndex(a, Num(int64(i))), at.Elem(), s.F[i])
		}
		return
	}
	if st.E.isOpaque(t) {
		st.writeLeaf(a, v)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(*StructV)
		if !ok {
			panic(unsupported("store of %s", valStr(v)))
		}
		for i := 0; i < u.NumFields(); i++ {
			st.write(a.field(i, u.Field(i).Name()), u.Field(i).Type(), s.F[i])
		}
		return
	case *types.Array:
		s := v.(*StructV)
		for i := 0; i < int(u.Len()); i++ {
			st.write(arrayElem(a, t, Num(int64(i))), u.Elem(), s.F[i])
		}
		return
	}
	st.writeLeaf(a, v)
}

// ---- maps

func hasAddr(m *Addr, k *Term) *Addr { return m.key(k).field(-1, "?") }

func (st *State) mapHas(m *MapV, k *Term) *Term {
	if m.Nil {
		return False
	}
	v := st.readLeaf(hasAddr(m.A, k), types.Typ[types.Bool])
	return v.(*Term)
}

func (st *State) mapVal(m *MapV, k *Term, t types.Type) Val {
	return st.read(m.A.key(k), t)
}

func (st *State) mapSet(m *MapV, k *Term, t types.Type, v Val) {
	if m.Nil {
		panic(goPanic{"assignment to entry in nil map"})
	}
	st.writeLeaf(hasAddr(m.A, k), True)
	st.write(m.A.key(k), t, v)
}

func (st *State) mapDelete(m *MapV, k *Term) {
	if m.Nil {
		return
	}
	st.writeLeaf(hasAddr(m.A, k), False)
}

// mapLen returns a term for the number of entries, with the facts that relate
// it to membership.
func (st *State) mapLen(m *MapV) *Term {
	if m.Nil {
		return Num(0)
	}
	k := Sym("κ", SInt)
	phi := st.mapHas(m, k)
	return st.card(k, phi)
}

func (st *State) card(k *Term, phi *Term) *Term {
	if phi.Op == OpFalse {
		return Num(0)
	}
	canon := Sym("κ", SInt)
	phi = phi.Sub(Subst{k.Name: canon})
	l := App("card|"+phi.key, SInt)
	if st.E.cardSeen == nil {
		st.E.cardSeen = map[string]bool{}
	}
	a, b := Sym("κa", SInt), Sym("κb", SInt)
	pa, pb := phi.Sub(Subst{"κ": a}), phi.Sub(Subst{"κ": b})
	w1, w2 := App("w1|"+phi.key, SInt), App("w2|"+phi.key, SInt)
	st.addFact(Ge(l, Num(0)))
	st.addFact(Forall([]*Term{a}, Implies(pa, Ge(l, Num(1)))))
	st.addFact(Forall([]*Term{a, b}, Implies(And(pa, pb, Neq(a, b)), Ge(l, Num(2)))))
	st.addFact(Implies(Ge(l, Num(1)), phi.Sub(Subst{"κ": w1})))
	st.addFact(Implies(Ge(l, Num(2)), And(phi.Sub(Subst{"κ": w2}), Neq(w1, w2))))
	return l
}

// ---- rows

// isRowAddr: a is the storage of one row of a polynomial
func isRowAddr(a *Addr) bool {
	n := len(a.P)
	if n < 4 || a.R.Tag == "W" {
		return false
	}
	return a.P[n-1].K == '*' && a.P[n-2].K == '[' && a.P[n-3].K == '*' && a.P[n-4].K == 'f' && a.P[n-4].S == "Coeffs"
}

func isRowWord(a *Addr) bool {
	n := len(a.P)
	if n < 5 || a.P[n-1].K != '[' {
		return false
	}
	return isRowAddr(&Addr{R: a.R, RA: a.RA, P: a.P[:n-1]})
}

func rowOfWord(a *Addr) (*Addr, *Term) {
	n := len(a.P)
	return &Addr{R: a.R, RA: a.RA, P: append([]Step{}, a.P[:n-1]...)}, a.P[n-1].T
}

// isPRow: the polynomial is over the auxiliary modulus
func isPRow(a *Addr) bool {
	if a.R.Tag == "P" {
		return true
	}
	for i := len(a.P) - 1; i >= 0; i-- {
		if a.P[i].K == 'f' && a.P[i].S != "Coeffs" {
			s := a.P[i].S
			if s == "P" || strings.HasPrefix(s, "poolP") || s == "polypoolP" {
				return true
			}
			if strings.HasPrefix(s, "#") && i > 0 && strings.HasPrefix(a.P[i-1].S, "poolP") {
				return true
			}
			return false
		}
	}
	return false
}

// coordOf: the ROW coordinate of a row address
func (st *State) coordOf(a *Addr) *Term {
	args := a.Args()
	t := args[len(args)-1]
	if isPRow(a) {
		return Add(t, symNQ)
	}
	return t
}

// rowIndexFor: the index term whose coordinate is ROW
func rowIndexFor(p bool) *Term {
	if p {
		return Sub(ROW, symNQ)
	}
	return ROW
}

type rowPiece struct {
	g *Term
	v *RowV
}

// readRow reads the content of the row at a, whose coordinate must be ROW,
// under the extra assumptions cond.
func (st *State) readRow(a *Addr, cond ...*Term) *RowV {
	ps := st.rowPieces(a, cond)
	return st.combineRow(ps, cond)
}

func (st *State) combineRow(ps []rowPiece, cond []*Term) *RowV {
	if len(ps) == 1 {
		return ps[0].v
	}
	dom := byte('Z')
	rp := rpZero
	var neg []*Term
	for _, p := range ps {
		g := And(append([]*Term{p.g}, neg...)...)
		if p.v.Dom != 'Z' {
			if dom == 'Z' || dom == '?' {
				dom = p.v.Dom
			} else if p.v.Dom != '?' && p.v.Dom != dom {
				for _, q := range ps {
					for _, c := range conjuncts(q.g) {
						if !c.Has(ROW.Name) && st.decide(c) == 0 {
							panic(forkReq{c})
						}
					}
				}
				panic(unsupported("row with mixed representations: %s / %s", valStr(ps[0].v), valStr(p.v)))
			}
		}
		rp = rpAdd(rp, rpGuard(g, p.v.RP))
		neg = append(neg, Not(p.g))
	}
	return &RowV{dom, rp}
}

func (st *State) rowPieces(a *Addr, cond []*Term) []rowPiece {
	sk := a.Skel()
	args := a.Args()
	c := st.Cells[sk]
	m := holeSubst(args)
	var ps []rowPiece
	ex := append([]*Term{}, cond...)
	if c != nil {
		for i := len(c.Ovs) - 1; i >= 0; {
			if c.Ovs[i].W {
				j := i
				for j >= 0 && c.Ovs[j].W {
					j--
				}
				lp, full := st.liftWords(c, c.Ovs[j+1:i+1], a, args, ex)
				for _, p := range lp {
					d := st.decide(p.g, ex...)
					if d < 0 {
						continue
					}
					ps = append(ps, p)
					if d > 0 {
						return ps
					}
					ex = append(ex, Not(p.g))
				}
				_ = full
				i = j
				continue
			}
			ov := c.Ovs[i]
			i--
			g := ov.G.Sub(m)
			d := st.decide(g, ex...)
			if d < 0 {
				continue
			}
			st.logRead(c, sk, args, nil, ov.Epoch, append(append([]*Term{}, ex...), g), true)
			v := subVal(ov.V, m).(*RowV)
			if d > 0 {
				return append(ps, rowPiece{True, v})
			}
			ps = append(ps, rowPiece{g, v})
			ex = append(ex, Not(g))
		}
	}
	st.logRead(c, sk, args, nil, -1, ex, true)
	return append(ps, rowPiece{True, st.E.baseRow(st, a)})
}

// liftWords turns word-level writes that cover whole rows into row contents.
func (st *State) liftWords(c *Cell, ovs []Ov, a *Addr, args []*Term, cond []*Term) ([]rowPiece, bool) {
	w := Fresh("w", SInt)
	m := holeSubst(args)
	m[fmt.Sprintf("$%d", len(args))] = w
	inR := And(Ge(w, Num(0)), Lt(w, symN))
	coord := st.coordOf(a)
	type item struct {
		rowg, wg *Term
		v        *CoefV
		ep       int
	}
	var items []item
	for i := len(ovs) - 1; i >= 0; i-- {
		g := ovs[i].G.Sub(m)
		if !st.sat(append(append([]*Term{g, inR}, cond...))...) {
			continue
		}
		cv, ok := subVal(ovs[i].V, m).(*CoefV)
		if !ok {
			panic(unsupported("row word holds %s", valStr(ovs[i].V)))
		}
		rg, wg := True, True
		for _, x := range conjuncts(g) {
			if x.Has(w.Name) {
				wg = And(wg, x)
			} else {
				rg = And(rg, x)
			}
		}
		items = append(items, item{rg, wg, cv, ovs[i].Epoch})
	}
	// group by row part
	var out []rowPiece
	for len(items) > 0 {
		rg := items[0].rowg
		var grp, rest []item
		for _, it := range items {
			if it.rowg.key == rg.key || (st.valid(rg, append(append([]*Term{}, cond...), it.rowg)...) && st.valid(it.rowg, append(append([]*Term{}, cond...), rg)...)) {
				grp = append(grp, it)
			} else {
				rest = append(rest, it)
			}
		}
		items = rest
		ctx := append(append([]*Term{}, cond...), rg, inR)
		cover := False
		for _, it := range grp {
			cover = Or(cover, it.wg)
			st.logRead(c, a.Skel(), args, nil, it.ep, ctx, true)
		}
		if !st.validSplit(w, cover, ctx...) {
			panic(unsupported("row %s is written only in part: %s", a, clip(cover.key)))
		}
		var pieces []wordPiece
		for _, it := range grp {
			if it.v.Row.key != coord.key && !st.valid(Eq(it.v.Row, coord), append(append([]*Term{}, ctx...), it.wg)...) {
				panic(unsupported("word of another row stored in row %s: %s", coord, valStr(it.v)))
			}
			pieces = append(pieces, wordPiece{it.wg, it.v})
		}
		rv := st.liftPieces(w, pieces, ctx)
		if rv == nil {
			panic(unsupported("word-level update of row %s not understood: %s", a, valStr(grp[0].v)))
		}
		out = append(out, rowPiece{rg, rv})
	}
	return out, false
}

// validSplit: valid, by cases of the remainder of w where the formula divides w by a constant
func (st *State) validSplit(w, t *Term, ctx ...*Term) bool {
	var d int64
	var find func(x *Term)
	find = func(x *Term) {
		if d != 0 || !x.Has(w.Name) {
			return
		}
		if (x.Op == OpDiv || x.Op == OpMod) && x.Args[1].IsNum() {
			if n, ok := x.Args[1].Int(); ok && n > 1 && n <= 64 {
				d = n
				return
			}
		}
		for _, a := range x.Args {
			find(a)
		}
		for _, m := range monosOf(x) {
			for _, f := range m.F {
				if f.T != x {
					find(f.T)
				}
			}
		}
	}
	find(t)
	for _, c := range ctx {
		find(c)
	}
	if d == 0 {
		return st.valid(t, ctx...)
	}
	u := Fresh("u", SInt)
	for r := int64(0); r < d; r++ {
		m := Subst{w.Name: Add(MulC(d, u), Num(r))}
		cs := make([]*Term, len(ctx))
		dead := false
		for i, c := range ctx {
			cs[i] = c.Sub(m)
			if cs[i].Op == OpFalse {
				dead = true
			}
		}
		x := t.Sub(m)
		if dead || x.Op == OpTrue {
			continue
		}
		if !st.valid(x, cs...) {
			return false
		}
	}
	return true
}

type wordPiece struct {
	g *Term
	v *CoefV
}

// liftPieces recognises rows built word by word: pointwise linear
// combinations, and multiplication by a + b X^(N/2).
func (st *State) liftPieces(w *Term, ps []wordPiece, ctx []*Term) *RowV {
	if rv := st.liftGalois(w, ps, ctx); rv != nil {
		return rv
	}
	half := Div(symN, Num(2))
	var res *RowV
	type shape struct {
		same, up, down *RP
		dom            byte
	}
	var shapes []shape
	for _, p := range ps {
		s := shape{rpZero, rpZero, rpZero, 'Z'}
		c := append(append([]*Term{}, ctx...), p.g)
		for _, t := range p.v.T {
			if t.X == nil {
				// a scalar added to every word: only zero is a ring element we know
				if t.K.IsZero() {
					continue
				}
				return nil
			}
			if s.dom == 'Z' || s.dom == '?' {
				s.dom = t.Dom
			} else if t.Dom != s.dom && t.Dom != 'Z' && t.Dom != '?' {
				return nil
			}
			kx := rpMul(t.K, t.X)
			switch {
			case st.validSplit(w, Eq(t.Idx, w), c...):
				s.same = rpAdd(s.same, kx)
			case st.validSplit(w, Eq(t.Idx, Add(w, half)), c...):
				s.up = rpAdd(s.up, kx)
			case st.validSplit(w, Eq(t.Idx, Sub(w, half)), c...):
				s.down = rpAdd(s.down, kx)
			default:
				return nil
			}
		}
		shapes = append(shapes, s)
	}
	plain := true
	for _, s := range shapes {
		if !s.up.IsZero() || !s.down.IsZero() {
			plain = false
		}
	}
	if plain {
		for _, s := range shapes {
			rv := &RowV{s.dom, s.same}
			if res == nil {
				res = rv
				continue
			}
			if res.Dom == 'Z' {
				res.Dom = rv.Dom
			}
			if rv.Dom != 'Z' && rv.Dom != res.Dom {
				return nil
			}
			if !st.E.rpEqual(st, res.RP, rv.RP, ctx) {
				return nil
			}
		}
		return res
	}
	// a*x + b*X^(N/2)*x in the coefficient domain
	var same, mono *RP
	for i, s := range shapes {
		c := append(append([]*Term{}, ctx...), ps[i].g)
		if s.dom != 'C' {
			return nil
		}
		var mn *RP
		if st.valid(Lt(w, half), c...) {
			if !s.down.IsZero() {
				return nil
			}
			mn = rpNeg(s.up)
		} else if st.valid(Ge(w, half), c...) {
			if !s.up.IsZero() {
				return nil
			}
			mn = s.down
		} else {
			return nil
		}
		if same == nil {
			same, mono = s.same, mn
		} else if !st.E.rpEqual(st, same, s.same, ctx) || !st.E.rpEqual(st, mono, mn, ctx) {
			return nil
		}
	}
	return &RowV{'C', rpAdd(same, rpMul(rpAtom(A("Khalf")), mono))}
}

// liftGalois recognises the automorphism X -> X^g written word by word: word
// g*i mod N gets word i, negated when g*i div N is odd.
func (st *State) liftGalois(w *Term, ps []wordPiece, ctx []*Term) *RowV {
	var gi *Term
	for _, p := range ps {
		for _, t := range p.v.T {
			if t.X == nil || t.Dom != 'C' && t.Dom != 'Z' || t.Idx.Op != OpApp || t.Idx.Name != "galinv" || t.Idx.Args[2].key != w.key {
				return nil
			}
			if gi == nil {
				gi = t.Idx
			} else if gi.key != t.Idx.key {
				return nil
			}
		}
	}
	if gi == nil {
		return nil
	}
	bit := App("galbit", SInt, gi.Args[0], gi.Args[1], gi)
	var u [2]*RP
	for b := range u {
		for _, p := range ps {
			c := append(append([]*Term{}, ctx...), p.g, Eq(bit, Num(int64(b))))
			if !st.sat(c...) {
				continue
			}
			v := rpZero
			for _, t := range p.v.T {
				v = rpAdd(v, rpMul(t.K, t.X))
			}
			v = st.E.cleanGuards(st, v, c)
			if u[b] == nil {
				u[b] = v
			} else if !st.E.rpEqual(st, u[b], v, c) {
				return nil
			}
		}
	}
	if u[0] == nil || u[1] == nil || !st.E.rpEqual(st, u[0], rpNeg(u[1]), ctx) || u[0].HasSym(w.Name) {
		return nil
	}
	c, ok := gi.Args[1].Int()
	if !ok {
		return nil
	}
	return &RowV{'C', sigma(u[0], gi.Args[0], c == 1)}
}

// cleanGuards removes what is decided under the conditions
func (e *Engine) cleanGuards(st *State, r *RP, cond []*Term) *RP {
	return rpMapComps(r, func(c Comp) *RP {
		g := True
		for _, x := range conjuncts(c.G) {
			if st.valid(x, cond...) {
				continue
			}
			if !st.sat(append(append([]*Term{}, cond...), x)...) {
				return rpZero
			}
			g = And(g, x)
		}
		return mkRP([]Comp{{C: c.C, B: c.B, G: g, F: c.F}})
	})
}

// readWord reads one word of a row.
func (st *State) readWord(wa *Addr) Val {
	a, w := rowOfWord(wa)
	sk := a.Skel()
	args := a.Args()
	c := st.Cells[sk]
	coord := st.coordOf(a)
	m := holeSubst(args)
	mw := holeSubst(append(append([]*Term{}, args...), w))
	mkw := func(v *RowV) *CoefV {
		return &CoefV{Row: coord, T: []CoefTerm{{K: rpConst(ratOne), X: v.RP, Dom: v.Dom, Idx: w}}}
	}
	type piece struct {
		g *Term
		v *CoefV
	}
	var ps []piece
	add := func(g *Term, d int, v *CoefV) bool {
		ps = append(ps, piece{g, v})
		return d > 0
	}
	done := false
	if c != nil {
		for i := len(c.Ovs) - 1; i >= 0 && !done; i-- {
			ov := c.Ovs[i]
			mm := m
			if ov.W {
				mm = mw
			}
			g := ov.G.Sub(mm)
			d := st.decide(g)
			if d < 0 {
				continue
			}
			st.logRead(c, sk, args, w, ov.Epoch, []*Term{g}, true)
			if d > 0 && len(ps) == 0 {
				if ov.W {
					return subVal(ov.V, mm)
				}
				return mkw(subVal(ov.V, mm).(*RowV))
			}
			var v *CoefV
			if ov.W {
				x, ok := subVal(ov.V, mm).(*CoefV)
				if !ok {
					panic(forkReq{g})
				}
				v = x
			} else {
				v = mkw(subVal(ov.V, mm).(*RowV))
			}
			done = add(g, d, v)
		}
	}
	if !done {
		st.logRead(c, sk, args, w, -1, nil, true)
		base := mkw(st.E.baseRow(st, a))
		if len(ps) == 0 {
			return base
		}
		add(True, 1, base)
	}
	// one value by cases, when all cases are of the same kind
	out := &CoefV{Row: coord}
	rest := True
	var dom byte
	for n, p := range ps {
		for _, t := range p.v.T {
			if t.X == nil || dom != 0 && t.Dom != dom || t.Dom == '?' {
				panic(forkReq{ps[0].g})
			}
			dom = t.Dom
			k := rpGuard(And(rest, p.g), t.K)
			if !k.IsZero() {
				out.T = append(out.T, CoefTerm{K: k, X: t.X, Dom: t.Dom, Idx: t.Idx})
			}
		}
		if n == 0 {
			out.Up = p.v.Up
		} else if out.Up != p.v.Up {
			panic(forkReq{ps[0].g})
		}
		rest = And(rest, Not(p.g))
	}
	return out
}

func (st *State) writeWord(wa *Addr, v Val) {
	a, w := rowOfWord(wa)
	c := st.cellW(a, true)
	args := append(a.Args(), w)
	g := True
	for i, t := range args {
		g = And(g, Eq(hole(i), t))
	}
	cv := st.E.toCoef(st, v, st.coordOf(a))
	c.Ovs = append(c.Ovs, Ov{G: g, V: cv, Epoch: st.Epoch, W: true})
}

// polyRows returns the slice header of the rows of the polynomial at p.
func (st *State) polyRows(p *Addr) *SliceV {
	if p.Nil {
		panic(goPanic{"nil polynomial"})
	}
	return st.readLeaf(p.field(0, "Coeffs"), st.E.tRows).(*SliceV)
}

// rowAddr gives the storage address of row t of a polynomial.
func (st *State) rowAddr(p *Addr, t *Term) *Addr {
	s := st.polyRows(p)
	if s.Nil {
		panic(goPanic{"index of nil polynomial"})
	}
	h := st.readLeaf(s.Base.index(Add(s.Off, t)), st.E.tRow).(*SliceV)
	if h.Nil {
		panic(goPanic{"nil row"})
	}
	return h.Base
}

// polyIsP: kind of a polynomial
func (st *State) polyIsP(p *Addr) bool {
	s := st.polyRows(p)
	return isPRow(s.Base.index(Num(0)).deref())
}

// readPoly reads the rows 0..level of polynomial p as a function of ROW.
func (st *State) readPoly(p *Addr, level *Term) *RowV {
	st.require(And(Ge(st.polyRows(p).Len, Add(level, Num(1)))), "row index in range", p.String())
	isP := st.polyIsP(p)
	t := rowIndexFor(isP)
	ra := st.rowAddr(p, t)
	cond := []*Term{Ge(t, Num(0)), Le(t, level)}
	rv := st.readRow(ra, cond...)
	return &RowV{rv.Dom, st.E.simpGuards(st, rv.RP, cond)}
}

// writePoly writes rows 0..level.
func (st *State) writePoly(p *Addr, level *Term, v *RowV) {
	st.require(And(Ge(st.polyRows(p).Len, Add(level, Num(1)))), "row index in range", p.String())
	isP := st.polyIsP(p)
	t := rowIndexFor(isP)
	ra := st.rowAddr(p, t)
	args := ra.Args()
	g := True
	for i, x := range args[:len(args)-1] {
		g = And(g, Eq(hole(i), x))
	}
	h := hole(len(args) - 1)
	g = And(g, Ge(h, Num(0)), Le(h, level))
	c := st.cellW(ra, true)
	c.push(Ov{G: g, V: &RowV{v.Dom, v.RP}, Epoch: st.Epoch})
}

func (st *State) require(t *Term, what, where string) {
	st.E.require(st, t, what, where)
}

// ---- allocation

func (st *State) alloc(site string, t types.Type, tag string) *Addr {
	st.Cnt[site]++
	id := fmt.Sprintf("%s#%d", site, st.Cnt[site])
	st.E.allocSeq++
	r := &Root{ID: "@" + id, Kind: 'a', Tag: tag, Typ: t}
	return &Addr{R: r, RA: append([]*Term{}, st.Keys...)}
}

func (st *State) useCounters(o *State) {
	for k, n := range o.Cnt {
		if n > st.Cnt[k] {
			st.Cnt[k] = n
		}
	}
}

func (st *State) dump() string {
	var ks []string
	for k := range st.Cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		for _, ov := range st.Cells[k].Ovs {
			fmt.Fprintf(&sb, "  %s  [%s] := %s\n", k, ov.G.key, valStr(ov.V))
		}
	}
	return sb.String()
}

var _ = big.NewRat

// litArray: the backing array of a slice literal, used through the slice
func litArray(a *Addr) bool {
	return len(a.P) == 0 && a.R != nil && a.R.Kind == 'a' && a.R.Tag == "lit"
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type phiForm struct {
	phi  *ssa.Phi
	init Val
	at   func(k *Term) Val
	junk bool
}

type iterWrite struct {
	skel   string
	cell   *Cell
	ov     Ov
	branch *Term   // branch conditions of the path
	facts  []*Term // facts of the path
	path   int
}

type loopCtx struct {
	e       *Engine
	st      *State
	fr      *Frame
	l       *Loop
	prev    *ssa.BasicBlock
	next    *ssa.Next
	m       *MapV
	elemT   types.Type
	k       *Term
	phis    []*phiForm
	carried map[string]*Term // cells read by later iterations, and the locations concerned
	scal    map[string]*scalarForm
	doms    map[string]byte
	trip    *Term
	forms   map[string][]Ov // word mode: closed forms of carried cells
}

type scalarForm struct {
	at func(k *Term) *Term
}

func definedIn(v ssa.Value, l *Loop) bool {
	ins, ok := v.(ssa.Instruction)
	return ok && ins.Block() != nil && l.blocks[ins.Block()]
}

// loop summarises a loop: the effect of all iterations is derived from one
// symbolic iteration, with no bound on their number.
func (e *Engine) loop(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) []Exit {
	e.Loops++
	if e.loopHook != nil {
		if xs, ok := e.loopHook(e, st, fr, l, prev); ok {
			return xs
		}
	}
	if xs, ok := e.unroll(st, fr, l, prev); ok {
		return xs
	}
	lc := &loopCtx{e: e, st: st, fr: fr, l: l, prev: prev, carried: map[string]*Term{}, scal: map[string]*scalarForm{}, doms: map[string]byte{}}
	for _, ins := range l.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			if n.IsString {
				panic(unsupported("range over a string"))
			}
			lc.next = n
			r, ok := e.val(fr, n.Iter).(*OpaqueV)
			if !ok || r.Kind != "range" {
				panic(unsupported("range over %s", valStr(e.val(fr, n.Iter))))
			}
			m, ok := r.Data[0].(*MapV)
			if !ok {
				panic(unsupported("range over %s", valStr(r.Data[0])))
			}
			lc.m = m
			lc.elemT = n.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Elem()
		}
	}
	if lc.next != nil {
		lc.k = Fresh("κ", SInt)
		if !st.sat(st.mapHas(lc.m, lc.k)) {
			// nothing to range over
			lc.phiForms()
			return lc.finish(&iteration{entry: st, base: len(st.PCs), epoch: st.Epoch + 1}, nil, e)
		}
	} else {
		lc.k = Fresh("k", SInt)
	}
	lc.phiForms()
	if e.word {
		return lc.runWord()
	}
	return lc.run()
}

func (lc *loopCtx) phiForms() {
	e, l := lc.e, lc.l
	entry := -1
	var back []int
	for i, p := range l.header.Preds {
		if l.blocks[p] {
			back = append(back, i)
		} else if p == lc.prev {
			entry = i
		}
	}
	if entry < 0 {
		panic(unsupported("loop entry of %s", lc.fr.fn))
	}
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		f := &phiForm{phi: p, init: e.val(lc.fr, p.Edges[entry])}
		lc.phis = append(lc.phis, f)
		// every back edge must agree on the form
		var steps []func(k *Term) Val
		for _, b := range back {
			steps = append(steps, lc.edgeForm(f, p, p.Edges[b]))
		}
		f.at = steps[0]
		for _, s := range steps {
			if s == nil {
				f.at = nil
			}
		}
		if f.at != nil && len(steps) > 1 {
			k := Sym("k?", SInt)
			for _, s := range steps[1:] {
				if valStr(s(k)) != valStr(f.at(k)) {
					f.at = nil
					break
				}
			}
		}
		if f.at == nil {
			id := fmt.Sprintf("%s.%s", lc.fr.fn.Name(), p.Name())
			f.at = func(k *Term) Val { return &JunkV{id} }
			f.junk = true
		}
	}
	if !e.word {
		lc.probe()
	}
}

// probe finds closed forms of the remaining numeric loop variables from one symbolic iteration.
func (lc *loopCtx) probe() {
	type pv struct {
		f    *phiForm
		name string
	}
	var ps []pv
	for _, f := range lc.phis {
		t, ok := f.init.(*Term)
		if !f.junk || !ok || t.Sort == SBool || lc.next != nil {
			continue
		}
		nm := "L|phi." + lc.fr.fn.Name() + "." + f.phi.Name()
		v := App(nm, t.Sort)
		f.at = func(*Term) Val { return v }
		ps = append(ps, pv{f, nm})
	}
	if len(ps) == 0 {
		return
	}
	junk := func(f *phiForm) {
		id := fmt.Sprintf("%s.%s", lc.fr.fn.Name(), f.phi.Name())
		f.at = func(k *Term) Val { return &JunkV{id} }
	}
	var it *iteration
	nob := len(lc.e.Obls)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*unsupportedErr); !ok {
					panic(r)
				}
			}
		}()
		it = lc.iterate()
	}()
	lc.e.Obls = lc.e.Obls[:nob]
	for _, p := range ps {
		p := p
		init := p.f.init.(*Term)
		form := func() func(k *Term) Val {
			if it == nil {
				return nil
			}
			var step *Term
			for _, x := range it.exits {
				if x.kind != 'b' {
					continue
				}
				for i, b := range lc.l.header.Preds {
					if b != x.from {
						continue
					}
					v, ok := lc.e.val(x.fr, p.f.phi.Edges[i]).(*Term)
					if !ok || step != nil && step.key != v.key {
						return nil
					}
					step = v
				}
			}
			if step == nil {
				return nil
			}
			usesL := false
			walkTerm(step, func(y *Term) {
				if y.Op == OpApp && strings.HasPrefix(y.Name, "L|") {
					usesL = true
				}
			})
			if !usesL {
				// the value of the previous iteration
				return func(k *Term) Val {
					if n, ok := k.Int(); ok && n == 0 {
						return init
					}
					prev := step.Sub(Subst{lc.k.Name: Sub(k, Num(1))})
					return Ite(Eq(k, Num(0)), init, prev)
				}
			}
			f, mul, ok := splitL(step, p.name)
			if !ok {
				return nil
			}
			if mul && init.Sort == SReal && f.Op != OpNum && !hasLoopApp(f) {
				key := f.Sub(Subst{lc.k.Name: Sym("j", SInt)}).key
				return func(k *Term) Val { return Mul(init, App("prod|"+key, SReal, k)) }
			}
			if f.Has(lc.k.Name) {
				return nil
			}
			if mul {
				if n, ok := f.Int(); ok && n == 2 && init.Sort == SInt {
					return func(k *Term) Val { return Mul(init, Pow2(k)) }
				}
				if n, ok := f.Int(); ok && n == 1 {
					return func(k *Term) Val { return init }
				}
				return nil
			}
			if hasLoopApp(f) {
				return nil
			}
			return func(k *Term) Val { return Add(init, Mul(coerce(k, f.Sort), f)) }
		}()
		if form == nil {
			junk(p.f)
			continue
		}
		p.f.at = form
	}
}

// hasLoopApp: t mentions a variable carried by the loop
func hasLoopApp(t *Term) bool {
	has := false
	walkTerm(t, func(y *Term) {
		if y.Op == OpApp && strings.HasPrefix(y.Name, "L|") {
			has = true
		}
	})
	return has
}

func (lc *loopCtx) edgeForm(f *phiForm, p *ssa.Phi, v ssa.Value) func(k *Term) Val {
	e, l := lc.e, lc.l
	if v == p {
		return func(*Term) Val { return f.init }
	}
	if q, ok := v.(*ssa.Phi); ok && l.blocks[q.Block()] && q.Block() != l.header {
		// join of paths: all edges must have the same form
		var fs []func(k *Term) Val
		for _, x := range q.Edges {
			if x == v {
				continue
			}
			g := lc.edgeForm(f, p, x)
			if g == nil {
				return nil
			}
			fs = append(fs, g)
		}
		k := Sym("k?", SInt)
		for _, g := range fs[1:] {
			if valStr(g(k)) != valStr(fs[0](k)) {
				return nil
			}
		}
		return fs[0]
	}
	if lc.next != nil {
		return nil
	}
	inv := func(x ssa.Value) (Val, bool) {
		if definedIn(x, l) {
			return nil, false
		}
		return e.val(lc.fr, x), true
	}
	if b, ok := v.(*ssa.BinOp); ok {
		init, isT := f.init.(*Term)
		if !isT {
			return nil
		}
		if b.X == p || b.Y == p {
			other := b.Y
			if b.Y == p {
				other = b.X
			}
			if ov, ok := inv(other); ok {
				ot, ok := ov.(*Term)
				if !ok {
					return nil
				}
				switch b.Op {
				case token.ADD:
					return func(k *Term) Val { return Add(init, Mul(coerce(k, ot.Sort), ot)) }
				case token.SUB:
					if b.X == p {
						return func(k *Term) Val { return Sub(init, Mul(coerce(k, ot.Sort), ot)) }
					}
				case token.MUL:
					if n, ok := ot.Int(); ok && n == 2 && init.Sort == SInt {
						return func(k *Term) Val { return Mul(init, Pow2(k)) }
					}
				case token.SHL:
					if n, ok := ot.Int(); ok && b.X == p && n == 1 {
						return func(k *Term) Val { return Mul(init, Pow2(k)) }
					}
				}
			}
		}
		return nil
	}
	if c, ok := v.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && c.Call.Args[0] == p {
			sl, ok := c.Call.Args[1].(*ssa.Slice)
			if !ok || sl.Low != nil || sl.High != nil {
				return nil
			}
			at, ok := sl.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			ar, ok := at.Elem().Underlying().(*types.Array)
			if !ok {
				return nil
			}
			n := ar.Len()
			acc := e.appendSlice(lc.st, f.init, &SliceV{Nil: true, Off: Num(0), Len: Num(0), Cap: Num(0)}, p.Type(), lc.fr.site+":"+p.Name()+":acc").(*SliceV)
			acc.Base.R.Tag = "acc"
			return func(k *Term) Val {
				ln := Add(acc.Len, MulC(n, k))
				return &SliceV{Base: acc.Base, Off: acc.Off, Len: ln, Cap: ln}
			}
		}
	}
	return nil
}

// prepare sets up the state of the iteration k.
func (lc *loopCtx) setRegs(fr *Frame, it *State, k *Term, more bool) {
	for _, f := range lc.phis {
		fr.regs[f.phi] = f.at(k)
	}
	if lc.next != nil {
		if !more {
			fr.regs[lc.next] = &TupleV{[]Val{False, lc.e.zero(keyType(lc.next)), lc.e.zeroSafe(lc.elemT)}}
			return
		}
		var v Val
		if len(*lc.next.Referrers()) > 0 && usesExtract(lc.next, 2) {
			v = &OpaqueV{Kind: "range value", Args: []*Term{k}, Data: []Val{lc.m}}
		}
		fr.regs[lc.next] = &TupleV{[]Val{True, k, v}}
	}
}

func usesExtract(v ssa.Value, idx int) bool {
	for _, r := range *v.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == idx {
			return true
		}
	}
	return false
}

func keyType(n *ssa.Next) types.Type {
	return n.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Key()
}

func (e *Engine) zeroSafe(t types.Type) Val {
	return e.zero(t)
}

type iteration struct {
	exits []Exit
	base  int
	entry *State
	epoch int
}

func (lc *loopCtx) iterate() *iteration {
	e := lc.e
	it := lc.st.clone()
	it.Keys = append(it.Keys, lc.k)
	it.Epoch = lc.st.Epoch + 1
	base := len(it.PCs)
	it.Trackers = append(it.Trackers, &Tracker{Epoch: it.Epoch, Base: base})
	fr := lc.fr.clone()
	if lc.next != nil {
		it.addFact(it.mapHas(lc.m, lc.k))
	} else {
		it.addFact(Ge(lc.k, Num(0)))
	}
	// carried cells hold their value at the start of iteration k
	for sk, zone := range lc.carried {
		c := it.Cells[sk]
		n := &Cell{}
		if c != nil {
			*n = *c
			n.Ovs = append([]Ov{}, c.Ovs...)
		} else {
			panic(unsupported("internal: carried cell %s", sk))
		}
		if fs := lc.forms[sk]; len(fs) > 0 {
			n.Ovs = append(n.Ovs, fs...)
			it.Cells[sk] = n
			continue
		}
		var args []*Term
		na := len(n.Proto.Args())
		if n.Row {
			na--
		}
		for i := 0; i < na; i++ {
			args = append(args, hole(i))
		}
		if n.Row {
			n.Ovs = append(n.Ovs, Ov{G: zone, V: &RowV{lc.doms[sk], rpAtom(A("L|"+sk, args...))}, Epoch: lc.st.Epoch})
		} else {
			var v Val
			if sf := lc.scal[sk]; sf != nil {
				v = sf.at(lc.k)
			} else {
				v = App("L|"+sk, SReal, args...)
				if lc.doms[sk] == 'i' {
					v = App("L|"+sk, SInt, args...)
				}
			}
			n.Ovs = append(n.Ovs, Ov{G: True, V: v, Epoch: lc.st.Epoch})
		}
		it.Cells[sk] = n
	}
	lc.setRegs(fr, it, lc.k, true)
	entry := it.clone()
	exits := e.run(it, fr, lc.l.header, lc.prev, lc.l, true)
	return &iteration{exits, base, entry, it.Epoch}
}

func (it *iteration) path(x Exit) (branch *Term, facts []*Term) {
	branch = True
	for _, p := range x.st.PCs[it.base:] {
		if p.Branch {
			branch = And(branch, p.T)
		} else {
			facts = append(facts, p.T)
		}
	}
	return
}

func (lc *loopCtx) writes(it *iteration) []iterWrite {
	var out []iterWrite
	for pi, x := range it.exits {
		if x.kind != 'b' {
			continue
		}
		br, facts := it.path(x)
		for _, sk := range sortedKeys(x.st.Cells) {
			c := x.st.Cells[sk]
			if c == it.entry.Cells[sk] {
				continue
			}
			for _, ov := range c.Ovs {
				if ov.Epoch == it.epoch {
					// conditions on the iteration alone are part of the branch
					b := br
					if ov.G.Has(lc.k.Name) {
						g := True
						for _, x := range conjuncts(ov.G) {
							if x.Has(lc.k.Name) && !hasHole(x) {
								b = And(b, x)
							} else {
								g = And(g, x)
							}
						}
						ov.G = g
					}
					out = append(out, iterWrite{sk, c, ov, b, facts, pi})
				}
			}
		}
	}
	return out
}

func sortStrings(s []string) { sort.Strings(s) }

func sortedKeys(m map[string]*Cell) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// findCarried: cells an iteration reads after another iteration wrote them
func (lc *loopCtx) findCarried(it *iteration, ws []iterWrite) map[string]*Term {
	res := map[string]*Term{}
	k2 := Fresh("k'", SInt)
	seen := map[string]bool{}
	for _, x := range it.exits {
		if len(x.st.Trackers) == 0 {
			continue
		}
		tr := x.st.Trackers[len(x.st.Trackers)-1]
		for _, r := range tr.Reads {
			if z := res[r.Skel]; z != nil && z.Op == OpTrue {
				continue
			}
			for _, w := range ws {
				if w.skel != r.Skel {
					continue
				}
				m := Subst{lc.k.Name: k2}
				g := w.ov.G.Sub(m)
				hs := holeSubst(r.Args)
				if w.ov.W {
					if r.W != nil {
						hs[fmt.Sprintf("$%d", len(r.Args))] = r.W
					} else {
						hs[fmt.Sprintf("$%d", len(r.Args))] = Sym("w?", SInt)
					}
				}
				g = g.Sub(hs)
				q := append([]*Term{g}, r.Cond...)
				if lc.next != nil {
					q = append(q, Neq(k2, lc.k))
				} else {
					q = append(q, Ge(k2, Num(0)), Lt(k2, lc.k))
				}
				q = append(q, w.branch.Sub(m))
				for _, f := range w.facts {
					q = append(q, f.Sub(m))
				}
				key := r.Skel
				for _, t := range q {
					key += "&" + t.key
				}
				if seen[key] {
					continue
				}
				seen[key] = true
				if lc.st.sat(q...) {
					zone := True
					if w.cell.Row && !w.ov.W && !w.ov.G.Has(lc.k.Name) {
						zone = w.ov.G
					}
					if z := res[r.Skel]; z != nil {
						zone = Or(z, zone)
					}
					res[r.Skel] = zone
				}
			}
		}
	}
	return res
}

func (lc *loopCtx) run() []Exit {
	e, st := lc.e, lc.st
	var it *iteration
	var ws []iterWrite
	for round := 0; ; round++ {
		it = lc.iterate()
		ws = lc.writes(it)
		nc := lc.findCarried(it, ws)
		more := false
		for sk, z := range nc {
			if old := lc.carried[sk]; old == nil {
				more = true
				lc.carried[sk] = z
			} else if old.Op != OpTrue && Or(old, z).key != old.key && !st.valid(Implies(z, old)) {
				more = true
				lc.carried[sk] = Or(old, z)
			}
		}
		if !more {
			break
		}
		if round > 3 {
			panic(unsupported("loop of %s with too many carried values", lc.fr.fn))
		}
		for _, w := range ws {
			if lc.carried[w.skel] == nil {
				continue
			}
			if st.Cells[w.skel] == nil {
				st.Cells[w.skel] = &Cell{Proto: w.cell.Proto, Row: w.cell.Row}
			}
			switch v := w.ov.V.(type) {
			case *RowV:
				// rows of the cell outside of the carried zone may be in another representation
				if z := lc.carried[w.skel]; z.Op != OpTrue && !st.sat(append([]*Term{z, w.ov.G, w.branch}, w.facts...)...) {
					continue
				}
				if d := lc.doms[w.skel]; d == 0 || d == 'Z' || d == '?' {
					lc.doms[w.skel] = v.Dom
				}
			case *Term:
				if v.Sort == SInt {
					lc.doms[w.skel] = 'i'
				} else {
					lc.doms[w.skel] = 'r'
				}
			default:
				panic(unsupported("loop of %s carries %s = %s", lc.fr.fn, w.skel, valStr(v)))
			}
		}
		// scalars: find their closed form, then use it
		lc.scalars()
	}
	return lc.finish(it, ws, e)
}

// scalars derives closed forms of carried scalar cells.
func (lc *loopCtx) scalars() {
	need := false
	for sk := range lc.carried {
		if c := lc.st.Cells[sk]; c != nil && !c.Row && lc.scal[sk] == nil {
			need = true
		}
	}
	if !need {
		return
	}
	it := lc.iterate()
	ws := lc.writes(it)
	for sk := range lc.carried {
		c := lc.st.Cells[sk]
		if c.Row || lc.scal[sk] != nil {
			continue
		}
		if lc.next != nil {
			panic(unsupported("scalar %s carried through a range over a map", sk))
		}
		nm := "L|" + sk
		var form func(k *Term) *Term
		for _, w := range ws {
			if w.skel != sk {
				continue
			}
			v := w.ov.V.(*Term)
			// the location must not depend on the iteration
			if w.ov.G.Has(lc.k.Name) {
				panic(unsupported("carried scalar at a varying location %s", sk))
			}
			args := w.cell.Proto.Args()
			init := lc.st.readLeaf(w.cell.Proto, tForDom(lc.doms[sk])).(*Term)
			_ = args
			// v = L * f(k) or L + f
			f, mul, ok := splitL(v, nm)
			if !ok {
				panic(unsupported("carried scalar %s := %s", sk, v))
			}
			if mul {
				fk := f
				key := fk.Sub(Subst{lc.k.Name: Sym("j", SInt)}).key
				form = func(k *Term) *Term { return Mul(init, App("prod|"+key, SReal, k)) }
			} else {
				if f.Has(lc.k.Name) {
					panic(unsupported("carried scalar %s with a varying step", sk))
				}
				form = func(k *Term) *Term { return Add(init, Mul(coerce(k, f.Sort), f)) }
			}
		}
		lc.scal[sk] = &scalarForm{form}
	}
}

func tForDom(d byte) types.Type {
	if d == 'i' {
		return types.Typ[types.Int]
	}
	return types.Typ[types.Float64]
}

// splitL: t = L*f (mul) or L+f
func splitL(t *Term, name string) (*Term, bool, bool) {
	isL := func(x *Term) bool { return x.Op == OpApp && x.Name == name }
	hasL := func(x *Term) bool {
		r := false
		walkTerm(x, func(y *Term) {
			if isL(y) {
				r = true
			}
		})
		return r
	}
	ms := monosOf(t)
	var rest []Mono
	var lm []Mono
	for _, m := range ms {
		n := 0
		var o []Factor
		for _, f := range m.F {
			if isL(f.T) && f.E == 1 {
				n++
			} else if hasL(f.T) {
				return nil, false, false
			} else {
				o = append(o, f)
			}
		}
		switch n {
		case 0:
			rest = append(rest, m)
		case 1:
			lm = append(lm, Mono{C: m.C, F: o})
		default:
			return nil, false, false
		}
	}
	if len(lm) != 1 {
		return nil, false, false
	}
	f := fromMonos(lm, t.Sort)
	if len(rest) == 0 {
		return f, true, true
	}
	if f.IsNum() && f.Num.Cmp(ratOne) == 0 {
		return fromMonos(rest, t.Sort), false, true
	}
	return nil, false, false
}

// tripCount: the number of iterations, explicit when the exit conditions are linear.
func (lc *loopCtx) tripCount(it *iteration) (K *Term, facts []*Term) {
	var exits []*Term
	explicit := true
	var cont []*Term
	for _, x := range it.exits {
		if x.kind == 'b' || x.kind == 'p' {
			br, _ := it.path(x)
			cont = append(cont, br)
		}
	}
	var Ks []*Term
	for _, x := range it.exits {
		if x.kind == 'r' {
			panic(unsupported("return inside of a loop of %s", lc.fr.fn))
		}
		if x.kind != 'x' {
			continue
		}
		br, _ := it.path(x)
		exits = append(exits, br)
		// conjuncts that do not hold on all continuing paths
		var own []*Term
		for _, c := range conjuncts(br) {
			all := len(cont) > 0
			for _, b := range cont {
				found := false
				for _, d := range conjuncts(b) {
					if d.key == c.key {
						found = true
					}
				}
				if !found {
					all = false
				}
			}
			if !all {
				own = append(own, c)
			}
		}
		if len(own) != 1 || own[0].Op != OpGe0 {
			explicit = false
			continue
		}
		if t := lc.powerBound(own[0].Args[0]); t != nil {
			if !lc.st.valid(Ge(t, Num(0))) {
				t = Max(Num(0), t)
			}
			Ks = append(Ks, t)
			continue
		}
		co, rest, ok := linIn(own[0].Args[0], lc.k.Name)
		if !ok {
			explicit = false
			continue
		}
		n, isn := co.Int()
		if isn && n <= 0 || !isn && (co.Has(lc.k.Name) || !lc.st.valid(Gt(co, Num(0)))) {
			explicit = false
			continue
		}
		// n*k + rest >= 0  <=>  k >= ceil(-rest/n)
		t := Neg(rest)
		if n != 1 {
			t = Div(Add(t, Sub(co, Num(1))), co)
		}
		if !lc.st.valid(Ge(t, Num(0))) {
			if lc.st.valid(Le(t, Num(0))) {
				t = Num(0)
			} else {
				t = Max(Num(0), t)
			}
		}
		Ks = append(Ks, t)
	}
	if len(exits) == 0 {
		if lc.e.debug {
			println("NOEXIT", lc.st.sat(), pcStr(lc.st))
			for _, x := range it.exits {
				println(string(x.kind), x.msg, pcStr(x.st))
			}
		}
		panic(unsupported("loop of %s without exit", lc.fr.fn))
	}
	if explicit {
		K = Ks[0]
		for _, t := range Ks[1:] {
			if lc.st.valid(Le(K, t)) {
				continue
			}
			if lc.st.valid(Le(t, K)) {
				K = t
				continue
			}
			K = Min(K, t)
		}
		return K, nil
	}
	K = App(freshName("K"), SInt, lc.st.Keys...)
	ex := False
	for _, x := range exits {
		ex = Or(ex, x)
	}
	facts = append(facts, Ge(K, Num(0)), ex.Sub(Subst{lc.k.Name: K}))
	notEx := Not(ex)
	facts = append(facts, Forall([]*Term{lc.k}, Implies(And(Ge(lc.k, Num(0)), Lt(lc.k, K)), notEx)))
	facts = append(facts, Implies(Ge(K, Num(1)), And(notEx.Sub(Subst{lc.k.Name: Sub(K, Num(1))}), notEx.Sub(Subst{lc.k.Name: Num(0)}))))
	return K, facts
}

// powerBound: the least k (possibly negative) with c*2^k - a*T + b >= 0, for c and a powers of
// two, T the ring degree or a power of two, and b either 0 or -1
func (lc *loopCtx) powerBound(t *Term) *Term {
	log2 := func(r *big.Rat) int64 {
		if !r.IsInt() || r.Sign() <= 0 || !r.Num().IsInt64() {
			return -1
		}
		n := r.Num().Int64()
		if n&(n-1) != 0 {
			return -1
		}
		return int64(bits.Len64(uint64(n)) - 1)
	}
	lk, la, b := int64(-1), int64(-1), int64(0)
	var exp *Term
	for _, m := range monosOf(t) {
		switch {
		case len(m.F) == 0:
			if !m.C.IsInt() || !m.C.Num().IsInt64() {
				return nil
			}
			b = m.C.Num().Int64()
		case len(m.F) != 1 || m.F[0].E != 1:
			return nil
		case m.F[0].T.Op == OpApp && m.F[0].T.Name == "pow2" && m.F[0].T.Args[0].key == lc.k.key:
			if lk = log2(m.C); lk < 0 {
				return nil
			}
		default:
			if exp != nil {
				return nil
			}
			f := m.F[0].T
			if la = log2(new(big.Rat).Neg(m.C)); la < 0 || f.Has(lc.k.Name) {
				return nil
			}
			switch {
			case f.key == symM.key:
				exp = Sub(symLogN, Num(4))
			case lc.e.pow2Of[f.key] != nil:
				exp = lc.e.pow2Of[f.key]
			case f.Op == OpApp && f.Name == "pow2" && lc.st.valid(Ge(f.Args[0], Num(0))):
				exp = f.Args[0]
			default:
				return nil
			}
		}
	}
	if lk < 0 || exp == nil || b != 0 && b != -1 {
		return nil
	}
	return Add(exp, Num(la-lk-b))
}

func (lc *loopCtx) inRange(k, K *Term) *Term {
	if lc.next != nil {
		return lc.st.mapHas(lc.m, k)
	}
	return And(Ge(k, Num(0)), Lt(k, K))
}

func (lc *loopCtx) finish(it *iteration, ws []iterWrite, e *Engine) []Exit {
	st := lc.st
	var K *Term
	var kfacts []*Term
	if lc.next == nil {
		K, kfacts = lc.tripCount(it)
		if _, ok := K.Int(); !ok {
			if t := st.clone(); len(kfacts) > 0 {
				for _, f := range kfacts {
					t.addFact(f)
				}
				if t.valid(Eq(K, Num(0))) {
					K, kfacts = Num(0), nil
				}
			}
		}
	} else {
		for _, x := range it.exits {
			if x.kind == 'x' || x.kind == 'r' {
				panic(unsupported("exit inside of a range over a map in %s", lc.fr.fn))
			}
		}
	}
	lc.trip = K
	post := st.clone()
	// what is allocated or drawn at a site of the body is not allocated or drawn again by
	// a later execution of the loop at the same site
	for _, x := range it.exits {
		post.useCounters(x.st)
	}
	// reads of the iterations are reads of the enclosing iteration
	for _, x := range it.exits {
		for ti := range st.Trackers {
			have := len(it.entry.Trackers[ti].Reads)
			if ti < len(x.st.Trackers) && len(x.st.Trackers[ti].Reads) > have {
				extra := x.st.Trackers[ti].Reads[have:]
				if lc.next == nil {
					ex2 := make([]ReadLog, len(extra))
					for i, r := range extra {
						r.Cond = append(append([]*Term{}, r.Cond...), Lt(lc.k, K))
						ex2[i] = r
					}
					extra = ex2
				}
				post.Trackers[ti].Reads = append(post.Trackers[ti].Reads, extra...)
			}
		}
	}
	for _, f := range kfacts {
		post.addFact(f)
	}
	// facts of the iterations
	rangeC := lc.inRange(lc.k, K)
	seenF := map[string]bool{}
	for _, x := range it.exits {
		if x.kind != 'b' {
			continue
		}
		br, facts := it.path(x)
		for _, f := range facts {
			if f.Op == OpTrue || seenF[f.key] {
				continue
			}
			seenF[f.key] = true
			if f.Has(lc.k.Name) {
				if f.key == rangeC.key || f.Op == OpGe0 && f.Args[0].key == lc.k.key {
					continue
				}
				if lc.next != nil && f.key == lc.st.mapHas(lc.m, lc.k).key {
					continue
				}
				post.addFact(Forall([]*Term{lc.k}, Implies(And(rangeC, br), f)))
			} else {
				post.addFact(f)
			}
		}
	}
	// panics of the body
	var out []Exit
	for _, x := range it.exits {
		if x.kind != 'p' {
			continue
		}
		br, facts := it.path(x)
		ps := st.clone()
		for _, f := range kfacts {
			ps.addFact(f)
		}
		ps.assume(rangeC)
		for _, f := range facts {
			ps.addFact(f)
		}
		ps.assume(br)
		if ps.sat() {
			out = append(out, Exit{kind: 'p', st: ps, fr: lc.fr, msg: x.msg})
			post.addFact(Forall([]*Term{lc.k}, Implies(rangeC, Not(br))))
		}
	}
	lc.applyWrites(post, it, ws, K)
	// leave the loop
	fr := lc.fr.clone()
	post.Keys = append(post.Keys, termOr(K, Num(-7)))
	lc.setRegs(fr, post, termOr(K, Num(0)), lc.next == nil)
	for _, x := range e.run(post, fr, lc.l.header, lc.prev, lc.l, true) {
		x.st.Keys = x.st.Keys[:len(st.Keys)]
		switch x.kind {
		case 'b':
			if x.st.sat() {
				panic(unsupported("exit of a loop of %s not established", lc.fr.fn))
			}
		default:
			if len(x.st.PCs) > len(post.PCs) && !x.st.sat() {
				continue
			}
			out = append(out, x)
		}
	}
	return out
}

func termOr(a, b *Term) *Term {
	if a == nil {
		return b
	}
	return a
}

// solve finds the iteration that performs a write from the location written.
func (lc *loopCtx) solve(g *Term) (sol *Term, extra *Term, skolem *Term) {
	k := lc.k.Name
	var sym *Term
	var symRest, symCo *Term
	for _, c := range conjuncts(g) {
		if c.Op != OpEq0 || !c.Has(k) || !hasHole(c) {
			continue
		}
		t := c.Args[0]
		co, rest, ok := linIn(t, k)
		if ok {
			if n, isn := co.Int(); isn {
				if n == 1 || n == -1 {
					return MulC(-n, rest), True, nil
				}
				// n*k + rest = 0
				r := rest
				if n < 0 {
					n = -n
				} else {
					r = Neg(rest)
				}
				return Div(r, Num(n)), Eq(Mod(r, Num(n)), Num(0)), nil
			}
			if sym == nil {
				sym, symCo, symRest = c, co, rest
			}
			continue
		}
		// $w - galidx(rot, conj, k)
		ms := monosOf(t)
		if len(ms) == 2 {
			for i := 0; i < 2; i++ {
				a, b := ms[i], ms[1-i]
				if len(a.F) == 1 && len(b.F) == 1 && a.F[0].T.Op == OpApp && a.F[0].T.Name == "galidx" && a.F[0].T.Args[2].key == k && b.F[0].T.Op == OpSym && strings.HasPrefix(b.F[0].T.Name, "$") {
					if new(big.Rat).Add(a.C, b.C).Sign() == 0 {
						ga := a.F[0].T.Args
						return App("galinv", SInt, ga[0], ga[1], b.F[0].T), True, nil
					}
				}
			}
		}
		// $h = f(k): the last iteration that produced $h
		var h *Term
		var fm []Mono
		for _, m := range ms {
			if len(m.F) == 1 && m.F[0].T.Op == OpSym && strings.HasPrefix(m.F[0].T.Name, "$") && m.F[0].E == 1 && m.C.IsInt() && (m.C.Num().Int64() == 1 || m.C.Num().Int64() == -1) && h == nil {
				h = m.F[0].T
				if m.C.Sign() > 0 {
					fm = scaleMonos(fm, big.NewRat(1, 1))
				}
			}
		}
		if h != nil {
			hco, hrest, ok := linIn(t, h.Name)
			if ok && !hasHole(hrest) {
				n, _ := hco.Int()
				f := MulC(-n, hrest) // h = f(k)
				canon := f.Sub(Subst{k: Sym("j", SInt)})
				s := App("inv|"+canon.key, SInt, h)
				skolem = f
				return s, True, skolem
			}
		}
	}
	if sym == nil {
		// c*k + lo <= $h <= c*k + hi with hi - lo < c
		cs := conjuncts(g)
		for _, a := range cs {
			if a.Op != OpGe0 || !a.Has(k) || !hasHole(a) {
				continue
			}
			ca, ra, ok := linIn(a.Args[0], k)
			var n int64
			isn := false
			if ok {
				n, isn = ca.Int()
			}
			if !ok || !isn || n >= -1 {
				continue
			}
			for _, b := range cs {
				if b.Op != OpGe0 || !b.Has(k) {
					continue
				}
				if d, ok := Add(a.Args[0], b.Args[0]).Int(); ok && d >= 0 && d < -n {
					return Div(ra, Num(-n)), True, nil
				}
			}
		}
	}
	if sym != nil {
		// co*k + rest = 0 with a symbolic coefficient
		neg := Neg(symRest)
		co := symCo
		if lc.st.valid(Gt(Neg(co), Num(0))) {
			co, neg = Neg(co), symRest
		} else if !lc.st.valid(Gt(co, Num(0))) {
			return nil, nil, nil
		}
		d := Div(neg, co)
		return d, Eq(Mul(co, d), neg), nil
	}
	return nil, nil, nil
}

// branchSol: the only iteration for which the branch can be taken
func branchSol(br *Term, k string) *Term {
	for _, c := range conjuncts(br) {
		if c.Op != OpEq0 || !c.Has(k) {
			continue
		}
		co, rest, ok := linIn(c.Args[0], k)
		if !ok || rest.Has(k) {
			continue
		}
		if n, isn := co.Int(); isn && (n == 1 || n == -1) {
			return MulC(-n, rest)
		}
	}
	return nil
}

func hasHole(t *Term) bool {
	m := map[string]bool{}
	t.syms(m)
	for s := range m {
		if strings.HasPrefix(s, "$") && s != ROW.Name {
			return true
		}
	}
	return false
}

func valHas(v Val, name string) bool {
	marker := Sym("\x00mark", SInt)
	return valStr(subVal(v, Subst{name: marker})) != valStr(v)
}

func (lc *loopCtx) applyWrites(post *State, it *iteration, ws []iterWrite, K *Term) {
	k := lc.k.Name
	rangeC := lc.inRange(lc.k, K)
	done := map[string]bool{}
	nb := 0
	for _, x := range it.exits {
		if x.kind == 'b' {
			nb++
		}
	}
	for _, w := range ws {
		if zone := lc.carried[w.skel]; zone != nil && lc.forms != nil {
			if !done[w.skel] {
				done[w.skel] = true
				for _, f := range lc.forms[w.skel] {
					m := Subst{k: K}
					lc.pushPost(post, w, f.G.Sub(m), subVal(f.V, m))
				}
			}
			continue
		} else if zone != nil {
			if zone.Op == OpTrue || lc.st.sat(append([]*Term{zone, w.ov.G, w.branch, rangeC}, w.facts...)...) {
				if !done[w.skel] {
					done[w.skel] = true
					lc.applyCarried(post, it, ws, w.skel, K)
				}
				continue
			}
			if rv, ok := w.ov.V.(*RowV); ok && rv.RP.hasAtomKind(func(a *Atom) bool { return strings.HasPrefix(a.Kind, "L|") }) {
				panic(unsupported("%s depends on earlier iterations: %s", w.skel, rv.RP))
			}
		}
		full := And(w.ov.G, w.branch)
		sol, extra, skf := lc.solve(w.ov.G)
		if sol != nil {
			m := Subst{k: sol}
			g := And(full.Sub(m), extra, rangeC.Sub(m))
			v := subVal(w.ov.V, m)
			if lc.e.word {
				g, v = lc.atSol(And(full, rangeC), sol, extra), lc.valAtSol(w.ov.V, sol)
			}
			if skf != nil {
				// inv(f(j)) is an iteration that writes f(j), for every iteration j
				j := lc.k
				s := sol
				fs := hNameOf(sol)
				at := s.Sub(Subst{fs: skf})
				cond := And(rangeC, w.branch)
				post.addFact(Forall([]*Term{j}, Implies(cond, And(And(rangeC, w.branch).Sub(Subst{k: at}), Eq(skf.Sub(Subst{k: at}), skf)))))
				lc.instances(post, skf, at, cond, rangeC, w.branch)
			}
			lc.pushPost(post, w, g, v)
			continue
		}
		if w.ov.G.Has(k) {
			// location depends on the iteration in a way that is not understood: forget the cell
			panic(unsupported("location written by a loop of %s not understood: %s [%s]", lc.fr.fn, w.skel, w.ov.G))
		}
		// the same location in every iteration
		vdep := valHas(w.ov.V, k)
		bdep := w.branch.Has(k)
		always := !bdep
		if bdep && lc.next == nil {
			q := append([]*Term{rangeC}, w.facts...)
			always = lc.st.valid(w.branch, q...) || func() bool { // all iterations go on: branch is the loop condition itself
				ps := post
				return ps.valid(w.branch, q...)
			}()
		}
		if lc.next == nil {
			if always {
				last := Subst{k: Sub(K, Num(1))}
				lc.pushPost(post, w, And(w.ov.G, w.branch.Sub(last), Ge(K, Num(1))), subVal(w.ov.V, last))
				continue
			}
		}
		others := false
		for _, w2 := range ws {
			if w2.skel == w.skel && valStr(w2.ov.V) != valStr(w.ov.V) {
				others = true
			}
		}
		if bdep {
			// the branch determines the iteration
			only := func(w iterWrite) *Term {
				at := branchSol(w.branch, k)
				if at == nil && lc.st.valid(Eq(lc.k, Num(0)), append([]*Term{w.branch, rangeC}, w.facts...)...) {
					at = Num(0)
				}
				return at
			}
			at := only(w)
			for _, w2 := range ws {
				// other values come from the same iteration
				if at != nil && w2.skel == w.skel && valStr(w2.ov.V) != valStr(w.ov.V) {
					if a2 := only(w2); a2 == nil || a2.key != at.key {
						at = nil
					}
				}
			}
			if at != nil {
				m := Subst{k: at}
				lc.pushPost(post, w, And(w.ov.G, w.branch.Sub(m), rangeC.Sub(m)), subVal(w.ov.V, m))
				continue
			}
		}
		if !vdep && (lc.next != nil && always || !others) {
			// some iteration takes the branch
			wit := App(freshName("wit"), SInt, lc.st.Keys...)
			some := App(freshName("some"), SBool, lc.st.Keys...)
			rb := And(rangeC, w.branch)
			post.addFact(Implies(some, rb.Sub(Subst{k: wit})))
			post.addFact(Forall([]*Term{lc.k}, Implies(rb, some)))
			lc.pushPost(post, w, And(w.ov.G, some), w.ov.V)
			continue
		}
		// unknown afterwards
		if e := lc.e; e.debug {
			for _, w2 := range ws {
				if w2.skel == w.skel {
					fmt.Println("forget:", w2.skel, "G", w2.ov.G, "branch", w2.branch, "=", valStr(w2.ov.V))
				}
			}
		}
		g := stripTerm(w.ov.G, k)
		if w.cell.Row {
			if w.ov.W {
				// a word-level write: the whole row is unknown
				g = dropWordHole(g, len(w.cell.Proto.Args()))
			}
			args := w.cell.Proto.Args()
			var ja []*Term
			for i := 0; i < len(args)-1; i++ {
				ja = append(ja, hole(i))
			}
			ja = append(ja, lc.st.Keys...)
			ov := Ov{G: g, V: &RowV{'?', rpAtom(A("junk|"+freshName(w.skel), ja...))}, Epoch: post.Epoch}
			c := post.cellOf(w.skel, w.cell)
			c.Ovs = append(c.Ovs, ov)
			continue
		}
		c := post.cellOf(w.skel, w.cell)
		c.Ovs = append(c.Ovs, Ov{G: g, V: &JunkV{freshName(w.skel)}, Epoch: post.Epoch})
	}
}

func (lc *loopCtx) instances(post *State, f, at *Term, cond, rangeC, br *Term) {
	// a few concrete iterations help the solver
	for _, n := range []int64{0, 1, 2, 3, 4} {
		m := Subst{lc.k.Name: Num(n)}
		post.addFact(Implies(cond.Sub(m), And(And(rangeC, br).Sub(Subst{lc.k.Name: at.Sub(m)}), Eq(f.Sub(Subst{lc.k.Name: at.Sub(m)}), f.Sub(m)))))
	}
}

func hNameOf(s *Term) string {
	if s.Op == OpApp && len(s.Args) == 1 && s.Args[0].Op == OpSym {
		return s.Args[0].Name
	}
	return ""
}

func dropWordHole(g *Term, n int) *Term {
	out := True
	nm := fmt.Sprintf("$%d", n)
	for _, c := range conjuncts(g) {
		if !c.Has(nm) {
			out = And(out, c)
		}
	}
	return out
}

func stripTerm(g *Term, k string) *Term {
	out := True
	for _, c := range conjuncts(g) {
		if !c.Has(k) {
			out = And(out, c)
		}
	}
	return out
}

func (st *State) cellOf(skel string, like *Cell) *Cell {
	c := st.Cells[skel]
	n := &Cell{Proto: like.Proto, Row: like.Row}
	if c != nil {
		n.Proto, n.Row = c.Proto, c.Row
		n.Ovs = append([]Ov{}, c.Ovs...)
	}
	st.Cells[skel] = n
	return n
}

func (lc *loopCtx) pushPost(post *State, w iterWrite, g *Term, v Val) {
	if g.Op == OpFalse {
		return
	}
	c := post.cellOf(w.skel, w.cell)
	ov := Ov{G: g, V: v, Epoch: post.Epoch, W: w.ov.W}
	if ov.W {
		c.Ovs = append(c.Ovs, ov)
		return
	}
	c.push(ov)
}

// applyCarried: accumulation into a cell over all iterations
func (lc *loopCtx) applyCarried(post *State, it *iteration, ws []iterWrite, skel string, K *Term) {
	var mine []iterWrite
	zone := lc.carried[skel]
	for _, w := range ws {
		if w.skel == skel {
			if zone.Op != OpTrue && !lc.st.sat(append([]*Term{zone, w.ov.G, w.branch, lc.inRange(lc.k, K)}, w.facts...)...) {
				continue
			}
			mine = append(mine, w)
		}
	}
	var locs []*Term
	by := map[string][]iterWrite{}
	for _, w := range mine {
		if by[w.ov.G.key] == nil {
			locs = append(locs, w.ov.G)
		}
		by[w.ov.G.key] = append(by[w.ov.G.key], w)
	}
	for i, a := range locs {
		for _, b := range locs[:i] {
			if lc.st.sat(a, b) {
				panic(unsupported("accumulations into overlapping locations of %s", skel))
			}
		}
	}
	for _, l := range locs {
		lc.accumulate(post, by[l.key], skel, K)
	}
}

func (lc *loopCtx) accumulate(post *State, mine []iterWrite, skel string, K *Term) {
	e := lc.e
	k := lc.k.Name
	w0 := mine[0]
	if !w0.cell.Row {
		sf := lc.scal[skel]
		if sf == nil {
			panic(unsupported("carried value %s", skel))
		}
		if lc.next != nil {
			panic(unsupported("carried scalar %s in a range over a map", skel))
		}
		c := post.cellOf(skel, w0.cell)
		c.push(Ov{G: And(w0.ov.G, Ge(K, Num(1))), V: sf.at(K), Epoch: post.Epoch})
		return
	}
	nm := "L|" + skel
	rangeC := lc.inRange(lc.k, K)
	perPath := map[int]int{}
	var sum = rpZero
	overwrite := false
	dom := byte('Z')
	g0 := w0.ov.G
	for _, w := range mine {
		perPath[w.path]++
		if perPath[w.path] > 1 {
			panic(unsupported("several updates of %s in one iteration", skel))
		}
		if w.ov.W {
			panic(unsupported("word-level update of %s carried through a loop", skel))
		}
		if w.ov.G.Has(k) {
			panic(unsupported("accumulation into a varying location %s [%s]", skel, w.ov.G))
		}
		if w.ov.G.key != g0.key {
			panic(unsupported("accumulation into %s differs between paths", skel))
		}
		rv := w.ov.V.(*RowV)
		if rv.Dom == '?' {
			dom = '?'
		} else if dom == 'Z' {
			dom = rv.Dom
		} else if rv.Dom != 'Z' && rv.Dom != dom {
			panic(unsupported("row %s changes representation in a loop", skel))
		}
		ctx := append([]*Term{w.ov.G, w.branch}, w.facts...)
		ctx = append(ctx, lc.rowCtx(w)...)
		hasL := false
		var rest []Comp
		for _, c := range rv.RP.Cs {
			n := 0
			bad := false
			for _, f := range c.F {
				if strings.HasPrefix(f.A.Kind, "L|") {
					if f.A.Kind == nm && f.E == 1 && f.A.Rot == nil && !f.A.Conj && e.holesAre(lc.st, f.A.Args, ctx) {
						n++
					} else {
						bad = true
					}
				}
				for _, q := range f.A.Rps {
					if q.hasAtomKind(func(a *Atom) bool { return strings.HasPrefix(a.Kind, "L|") }) {
						bad = true
					}
				}
			}
			if bad || n > 1 {
				panic(unsupported("%s depends on earlier iterations: %s", skel, rv.RP))
			}
			if n == 1 {
				if len(c.F) != 1 || len(c.B) != 0 || c.C.Cmp(ratOne) != 0 {
					panic(unsupported("%s is rescaled in every iteration: %s", skel, rv.RP))
				}
				if c.G.Op != OpTrue && !lc.st.valid(c.G, ctx...) {
					panic(unsupported("%s is kept only in part: %s", skel, rv.RP))
				}
				hasL = true
				continue
			}
			rest = append(rest, c)
		}
		if !hasL {
			// only the first iteration may overwrite
			if lc.next != nil {
				panic(unsupported("%s is overwritten in a range over a map and used by later iterations", skel))
			}
			q := append([]*Term{Ge(lc.k, Num(0))}, w.facts...)
			if !lc.st.valid(Eq(lc.k, Num(0)), append(q, w.branch)...) {
				panic(unsupported("%s is overwritten by later iterations", skel))
			}
			overwrite = true
		}
		sum = rpAdd(sum, rpSum(lc.k, And(rangeC, w.branch), mkRP(rest)))
	}
	if overwrite {
		// iterations other than the first must keep the value
		for _, w := range mine {
			rv := w.ov.V.(*RowV)
			keeps := rv.RP.hasAtomKind(func(a *Atom) bool { return a.Kind == nm })
			if keeps && lc.st.sat(append(append([]*Term{Eq(lc.k, Num(0))}, w.branch), w.facts...)...) {
				panic(unsupported("%s is not overwritten by every first iteration", skel))
			}
		}
	}
	proto := w0.cell.Proto
	args := proto.Args()
	ia := make([]*Term, len(args))
	for i := range args {
		ia[i] = hole(i)
	}
	isP := isPRow(proto)
	ia[len(ia)-1] = rowIndexFor(isP)
	gRow := g0.Sub(Subst{fmt.Sprintf("$%d", len(args)-1): rowIndexFor(isP)})
	val := sum
	g := g0
	if overwrite {
		g = And(g0, Ge(K, Num(1)))
	} else {
		iv := post.readRow(proto.withArgs(ia), gRow)
		if iv.Dom == '?' {
			dom = '?'
		} else if iv.Dom != 'Z' && dom != 'Z' && iv.Dom != dom {
			dom = '?'
		}
		val = rpAdd(iv.RP, sum)
	}
	c := post.cellOf(skel, w0.cell)
	c.push(Ov{G: g, V: &RowV{dom, val}, Epoch: post.Epoch})
}

// rowCtx: the row index hole is the coordinate ROW
func (lc *loopCtx) rowCtx(w iterWrite) []*Term {
	n := len(w.cell.Proto.Args()) - 1
	return []*Term{Eq(hole(n), rowIndexFor(isPRow(w.cell.Proto)))}
}

// holesAre: args are the location's own indices under ctx
func (e *Engine) holesAre(st *State, args []*Term, ctx []*Term) bool {
	for i, a := range args {
		if a.key == hole(i).key {
			continue
		}
		if !st.valid(Eq(a, hole(i)), ctx...) {
			return false
		}
	}
	return true
}

// unroll executes a loop with a constant number of at most four iterations (eight lanes in
// word mode) as it stands.
func (e *Engine) unroll(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) ([]Exit, bool) {
	cond, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	max := 4
	if e.word {
		max = 8
	}
	entry, back := -1, -1
	for i, p := range l.header.Preds {
		switch {
		case l.blocks[p]:
			if back >= 0 {
				return nil, false
			}
			back = i
		case p == prev:
			entry = i
		}
	}
	if entry < 0 || back < 0 {
		return nil, false
	}
	env := map[ssa.Value]int64{}
	var ev func(v ssa.Value, d int) (int64, bool)
	ev = func(v ssa.Value, d int) (int64, bool) {
		if n, ok := env[v]; ok {
			return n, true
		}
		if d > 4 {
			return 0, false
		}
		if !definedIn(v, l) {
			if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return 0, false
			}
			t, ok := e.val(fr, v).(*Term)
			if !ok {
				return 0, false
			}
			return t.Int()
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		x, ok1 := ev(b.X, d+1)
		y, ok2 := ev(b.Y, d+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		tf := func(c bool) (int64, bool) {
			if c {
				return 1, true
			}
			return 0, true
		}
		switch b.Op {
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.LSS:
			return tf(x < y)
		case token.LEQ:
			return tf(x <= y)
		case token.GTR:
			return tf(x > y)
		case token.GEQ:
			return tf(x >= y)
		case token.NEQ:
			return tf(x != y)
		case token.EQL:
			return tf(x == y)
		}
		return 0, false
	}
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
			if n, ok := ev(p.Edges[entry], 0); ok {
				env[p] = n
			}
		}
	}
	inside := l.blocks[l.header.Succs[0]]
	if inside == l.blocks[l.header.Succs[1]] {
		return nil, false
	}
	n := 0
	for ; ; n++ {
		c, ok := ev(cond.Cond, 0)
		if !ok || n > max {
			return nil, false
		}
		if (c == 1) != inside {
			break
		}
		next := map[ssa.Value]int64{}
		for _, p := range phis {
			if _, had := env[p]; !had {
				continue
			}
			if v, ok := ev(p.Edges[back], 0); ok {
				next[p] = v
			}
		}
		env = next
	}
	f := fr.clone()
	for _, p := range phis {
		f.regs[p] = e.val(fr, p.Edges[entry])
	}
	var exits []Exit
	type item struct {
		st   *State
		fr   *Frame
		prev *ssa.BasicBlock
	}
	work := []item{{st, f, prev}}
	for r := 0; len(work) > 0; r++ {
		if r > max+1 {
			panic(unsupported("loop of %s", fr.fn))
		}
		var next []item
		for _, w := range work {
			for _, x := range e.run(w.st, w.fr, l.header, w.prev, l, true) {
				if x.kind != 'b' {
					exits = append(exits, x)
					continue
				}
				g := x.fr.clone()
				for _, p := range phis {
					g.regs[p] = e.val(x.fr, p.Edges[back])
				}
				next = append(next, item{x.st, g, x.from})
			}
		}
		work = next
	}
	return exits, true
}

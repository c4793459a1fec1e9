package main

import (
	"fmt"
	"go/types"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Contract of a function: its effect, in terms of the state before the call.
type Contract struct {
	Fn    string
	Apply func(e *Engine, st *State, args []Val, site string) []Outcome
}

func (c *Contract) apply(e *Engine, st *State, args []Val, site string) []Outcome {
	return c.Apply(e, st, args, site)
}

// Goal: one verification task, a function under contract in one case of its precondition.
type Goal struct {
	Name  string
	Fn    string   // function under contract
	Props []string // properties it belongs to
	Uses  []string // contracts of callees relied upon
	Run   func(g *G)
	Limit time.Duration
	// stated bound, for stand-ins that are not proofs
	Bounded string
}

// G: a goal being checked.
type G struct {
	*Engine
	goal *Goal
	st0  *State
}

type Result struct {
	Goal        *Goal
	Obls        []*Obligation
	Err         string
	Queries     int
	SolverTime  time.Duration
	WallTime    time.Duration
	Executed    map[string]bool
	Applied     map[string]bool
	Trusted     map[string]bool
	Loops       int
	PathsOK     int
	Unsupported bool
}

func (r *Result) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}

var allContracts = map[string]*Contract{}

func runGoal(p *Program, goal *Goal, limit time.Duration, dbg bool) (res *Result) {
	t0 := time.Now()
	e := NewEngine(p)
	e.debug = dbg
	if goal.Limit > limit {
		limit = goal.Limit
	}
	e.Deadline = t0.Add(limit)
	e.current = &Contract{Fn: goal.Fn}
	for _, u := range goal.Uses {
		c := allContracts[u]
		if c == nil {
			panic("no contract " + u)
		}
		e.contracts[c.Fn] = c
	}
	res = &Result{Goal: goal}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *unsupportedErr:
				res.Err = x.msg
				res.Unsupported = true
			case goPanic:
				res.Err = "panic in specification: " + x.msg
			case forkReq:
				res.Err = "undetermined condition in specification: " + x.c.key
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				if dbg {
					res.Err += "\n" + string(debug.Stack())
				}
			}
		}
		res.Obls = e.Obls
		res.Queries, res.SolverTime = e.S.Queries, e.S.Time
		res.Executed, res.Applied, res.Trusted = e.Executed, e.Applied, e.Trusted
		res.Loops = e.Loops
		res.WallTime = time.Since(t0)
		e.S.Close()
	}()
	goal.Run(&G{Engine: e, goal: goal})
	return
}

// ---- building states and calls

func (g *G) newState() *State {
	st := &State{E: g.Engine, Cells: map[string]*Cell{}, Cnt: map[string]int{}, Ghost: map[string]Val{}}
	return st
}

func (g *G) fn(name string) *ssa.Function {
	f := g.funcByName(name)
	if f == nil {
		panic(unsupported("function %s does not exist", name))
	}
	return f
}

// ptr: a parameter object
func (g *G) ptr(id, pkg, typ string) *Addr { return &Addr{R: g.root(id, g.typ(pkg, typ))} }

func (g *G) ptrTag(id, pkg, typ, tag string) *Addr {
	a := g.ptr(id, pkg, typ)
	a.R.Tag = tag
	return a
}

func str(id string) *Term { return Sym(id, SInt) }

var zeroID = StrLit("0")

// exec runs the real body of fn on the state.
func (g *G) exec(st *State, fn string, args ...Val) []Outcome {
	f := g.fn(fn)
	if len(f.Params) != len(args) {
		panic(unsupported("function %s has %d parameters, the contract expects %d", fn, len(f.Params), len(args)))
	}
	if g.st0 == nil {
		g.st0 = st.clone()
	}
	return g.execFunc(st, f, args, nil, f.Name())
}

func (g *G) check(st *State, t *Term, what string) bool {
	ok := st.valid(t)
	d := ""
	if !ok {
		d = "not derivable: " + t.key + "\n  under " + pcStr(st)
	}
	return g.oblige(ok, what, "", d)
}

func pcStr(st *State) string {
	var s []string
	for _, p := range st.PCs {
		k := p.T.key
		if len(k) > 300 {
			k = k[:300] + "…"
		}
		s = append(s, k)
	}
	return strings.Join(s, " ∧ ")
}

// branch runs f on st, splitting on undetermined conditions.
func (g *G) branch(st *State, f func(st *State)) {
	g.branchN(st, f, 0)
}

func (g *G) branchN(st *State, f func(st *State), depth int) {
	if depth > 12 {
		panic(unsupported("too many cases in specification"))
	}
	n := len(g.Obls)
	c := st.clone()
	var fork *forkReq
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(forkReq); ok {
					fork = &x
					return
				}
				panic(r)
			}
		}()
		f(c)
	}()
	if fork == nil {
		return
	}
	g.Obls = g.Obls[:n]
	a, b := st.clone(), st.clone()
	a.assume(fork.c)
	b.assume(Not(fork.c))
	if a.sat() {
		g.branchN(a, f, depth+1)
	}
	if b.sat() {
		g.branchN(b, f, depth+1)
	}
}

// returns checks every outcome: panics are violations unless mayPanic allows
// them, and post is checked on every returning path.
func (g *G) returns(outs []Outcome, mayPanic func(st *State) *Term, post func(st *State, v Val)) {
	nret := 0
	for _, oc := range outs {
		if oc.St.dead || !oc.St.sat() {
			continue
		}
		if oc.Panic {
			if mayPanic == nil {
				g.oblige(false, "does not panic", "", oc.Msg+"\n  under "+pcStr(oc.St))
				continue
			}
			g.branch(oc.St, func(st *State) { g.check(st, mayPanic(st), "panics only where it has to refuse") })
			continue
		}
		nret++
		o := oc
		g.branch(o.St, func(st *State) {
			if mayPanic != nil {
				g.check(st, Not(mayPanic(st)), "refuses where it has to")
			}
			post(st, o.Val)
		})
	}
	g.oblige(nret > 0 || mayPanic != nil, "has a returning path (vacuity guard)", "", "")
}

func (g *G) panics(outs []Outcome, what string) {
	for _, oc := range outs {
		if !oc.St.sat() {
			continue
		}
		g.oblige(oc.Panic, what, "", "returns "+valStr(oc.Val)+" under "+pcStr(oc.St))
	}
	g.oblige(len(outs) > 0, what+" (vacuity guard)", "", "")
}

// pre: the initial memory under the path condition of st
func (g *G) pre(st *State) *State {
	p := g.st0.clone()
	p.PCs = append([]PC{}, st.PCs...)
	return p
}

// ---- comparing values

func (g *G) valEq(st *State, a, b Val, what string) bool {
	ok, d := g.sameVal(st, a, b)
	return g.oblige(ok, what, "", d)
}

func (g *G) sameVal(st *State, a, b Val) (bool, string) {
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		var q *Term
		if ta.Sort == SBool {
			q = And(Implies(ta, tb), Implies(tb, ta))
		} else {
			q = Eq(ta, tb)
		}
		if st.valid(q) {
			return true, ""
		}
		return false, fmt.Sprintf("%s ≠ %s\n  under %s", ta, tb, pcStr(st))
	}
	if valStr(a) == valStr(b) {
		return true, ""
	}
	switch x := a.(type) {
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok && !x.Nil && !y.Nil && g.sameAddr(st, x.Base, y.Base) && st.valid(And(Eq(x.Off, y.Off), Eq(x.Len, y.Len), Eq(x.Cap, y.Cap))) {
			return true, ""
		}
	case *Addr:
		y, ok := b.(*Addr)
		if ok && g.sameAddr(st, x, y) {
			return true, ""
		}
	case *MapV:
		y, ok := b.(*MapV)
		if ok && !x.Nil && !y.Nil && g.sameAddr(st, x.A, y.A) {
			return true, ""
		}
	}
	return false, valStr(a) + " ≠ " + valStr(b)
}

func (g *G) sameAddr(st *State, a, b *Addr) bool {
	if a.Nil || b.Nil {
		return a.Nil && b.Nil
	}
	if a.R != b.R || a.Skel() != b.Skel() {
		return false
	}
	x, y := a.Args(), b.Args()
	for i := range x {
		if !st.valid(Eq(x[i], y[i])) {
			return false
		}
	}
	return true
}

// rowIs: row content equals want in the given representation
func (g *G) rowIs(st *State, got *RowV, dom byte, want *RP, cond []*Term, what string) bool {
	if got.Dom != dom && got.Dom != 'Z' && !(want.IsZero() && dom == 'Z') {
		return g.oblige(false, what+": representation", "", fmt.Sprintf("%s, expected %c", valStr(got), dom))
	}
	d := rpSub(got.RP, want)
	res := g.rpResidue(st, d, cond)
	if len(res) == 0 {
		return g.oblige(true, what, "", "")
	}
	return g.oblige(false, what, "", "got "+clip(got.RP.key)+"\n  want "+clip(want.key)+"\n  difference "+clip(mkRP(res).key)+"\n  under "+pcStr(st))
}

var clipLen = 1500

func clip(s string) string {
	if len(s) > clipLen {
		return s[:clipLen] + "…"
	}
	return s
}

// ---- frame

// generic address of a cell, with fresh index symbols
func genericAddr(c *Cell) *Addr {
	args := c.Proto.Args()
	na := make([]*Term, len(args))
	for i := range args {
		na[i] = Fresh("x", args[i].Sort)
	}
	if c.Row && len(na) > 0 {
		na[len(na)-1] = rowIndexFor(isPRow(c.Proto))
	}
	return c.Proto.withArgs(na)
}

// frame checks that nothing outside of the allowed locations has changed.
func (g *G) frame(st *State, allowed func(a *Addr) *Term) {
	var ks []string
	for k := range st.Cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := st.Cells[k]
		if c.Proto.R.Kind == 'a' {
			continue
		}
		if g.st0.Cells[k] == c {
			continue
		}
		a := genericAddr(c)
		if c.Row && g.isPool(a) {
			continue
		}
		if bookkeeping.MatchString(a.Skel()) {
			// a counter or flag of an internal object: its content on entry is arbitrary in every goal
			if ts := g.walk(a); ts[len(ts)-1] != nil {
				if b, ok := ts[len(ts)-1].Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
					continue
				}
			}
		}
		al := allowed(a)
		if al == nil {
			al = False
		}
		if al.Op == OpTrue {
			continue
		}
		s := st.clone()
		s.addFact(Not(al))
		if !s.sat() {
			continue
		}
		g.branch(s, func(s *State) {
			p := g.pre(s)
			if c.Row {
				t := ROW
				cond := []*Term{Ge(t, Num(0))}
				x, y := s.readRow(a, cond...), p.readRow(a, cond...)
				if x.Dom != y.Dom && x.Dom != 'Z' && y.Dom != 'Z' && !(x.RP.IsZero() && y.RP.IsZero()) {
					g.oblige(false, "frame: "+k+" is unchanged", "", valStr(x)+" ≠ "+valStr(y))
					return
				}
				res := g.rpResidue(s, rpSub(x.RP, y.RP), cond)
				g.oblige(len(res) == 0, "frame: "+k+" is unchanged", "", clip(valStr(x))+" ≠ "+clip(valStr(y))+"\n  under "+pcStr(s))
				return
			}
			ts := g.walk(a)
			t := ts[len(ts)-1]
			if a.P[len(a.P)-1].S == "?" {
				t = types.Typ[types.Bool]
			}
			x, y := s.readLeaf(a, t), p.readLeaf(a, t)
			ok, d := g.sameVal(s, x, y)
			g.oblige(ok, "frame: "+k+" is unchanged", "", d)
		})
	}
}

var bookkeeping = regexp.MustCompile(`^(enc|dec|eval|keygen)(\.(Encryptor|Decryptor|encryptorBase)\*?)*\.[A-Za-z_0-9]+$`)

func noChange(a *Addr) *Term { return nil }

// within: the location belongs to the object at p
func within(ps ...*Addr) func(a *Addr) *Term {
	return func(a *Addr) *Term {
		r := False
		for _, p := range ps {
			if a.R != p.R || len(a.P) < len(p.P) {
				continue
			}
			m := a.prefix(len(p.P))
			if m.Skel() != p.Skel() {
				continue
			}
			x, y := m.Args(), p.Args()
			c := True
			for i := range x {
				c = And(c, Eq(x[i], y[i]))
			}
			r = Or(r, c)
		}
		return r
	}
}

func anyOf(fs ...func(a *Addr) *Term) func(a *Addr) *Term {
	return func(a *Addr) *Term {
		r := False
		for _, f := range fs {
			if t := f(a); t != nil {
				r = Or(r, t)
			}
		}
		return r
	}
}

// fresh: the address was allocated by the call
func (g *G) isFresh(v Val) bool {
	switch x := v.(type) {
	case *Addr:
		return !x.Nil && x.R.Kind == 'a'
	case *MapV:
		return !x.Nil && x.A.R.Kind == 'a'
	case *SliceV:
		return !x.Nil && x.Base.R.Kind == 'a'
	}
	return false
}

// fieldOf reads a field by name through embedded structs.
func (g *G) fieldAddr(a *Addr, t types.Type, path ...string) (*Addr, types.Type) {
	for _, f := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			a, t = a.deref(), p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("no field %s in %s", f, t))
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				a, t = a.field(i, f), s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			panic(unsupported("type %s has no field %s", t, f))
		}
	}
	return a, t
}

// get reads obj.path (obj a pointer to typ), following embedded pointers through memory
func (st *State) get(a *Addr, t types.Type, path ...string) (Val, types.Type) {
	g := &G{Engine: st.E}
	for i, f := range path {
		fa, ft := g.fieldAddr(a, t, f)
		if i == len(path)-1 {
			return st.read(fa, ft), ft
		}
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			v := asAddr(st.read(fa, ft))
			if v.Nil {
				panic(goPanic{"nil pointer in " + fa.String()})
			}
			a, t = v, p.Elem()
		} else {
			a, t = fa, ft
		}
	}
	panic("get")
}

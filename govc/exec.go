package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct{ msg string }

type Frame struct {
	fn   *ssa.Function
	regs map[ssa.Value]Val
	site string
	free []Val
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, site: f.site, free: f.free, regs: make(map[ssa.Value]Val, len(f.regs)+8)}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	return n
}

type Exit struct {
	kind byte // 'r' return, 'p' panic, 'b' back edge of the current loop, 'x' leaves the current loop
	st   *State
	fr   *Frame
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
	val  Val
	msg  string
}

type Outcome struct {
	St    *State
	Val   Val
	Panic bool
	Msg   string
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	id     string
}

type fnLoops struct {
	byHeader map[*ssa.BasicBlock]*Loop
}

func loopsOf(fn *ssa.Function) *fnLoops {
	r := &fnLoops{map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: fmt.Sprintf("L%d", s.Index)}
					r.byHeader[s] = l
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return r
}

func (e *Engine) loops(fn *ssa.Function) *fnLoops {
	if l, ok := e.loopCache[fn]; ok {
		return l
	}
	l := loopsOf(fn)
	e.loopCache[fn] = l
	return l
}

const maxDepth = 40

// execFunc inlines the body of fn.
func (e *Engine) execFunc(st *State, fn *ssa.Function, args []Val, free []Val, site string) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("function %s has no body", fn))
	}
	if strings.Count(site, "/") > maxDepth {
		panic(unsupported("recursion through %s", fn))
	}
	e.Executed[fn.String()] = true
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, site: site, free: free}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = free[i]
	}
	exits := e.run(st, fr, fn.Blocks[0], nil, nil, false)
	var out []Outcome
	for _, x := range exits {
		switch x.kind {
		case 'r':
			out = append(out, Outcome{St: x.st, Val: x.val})
		case 'p':
			out = append(out, Outcome{St: x.st, Panic: true, Msg: x.msg})
		default:
			panic(unsupported("internal: stray exit"))
		}
	}
	return out
}

type workItem struct {
	st   *State
	fr   *Frame
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	pc   int
	skip bool // header of the current loop already entered
}

func (e *Engine) checkTime() {
	if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
		panic(unsupported("time limit of the verifier reached"))
	}
}

// run executes from block b until function exit (cur == nil) or until the
// current loop's back edge / exit edges.
func (e *Engine) run(st *State, fr *Frame, b, prev *ssa.BasicBlock, cur *Loop, inHeader bool) []Exit {
	var exits []Exit
	work := []workItem{{st, fr, b, prev, 0, inHeader}}
	ls := e.loops(fr.fn)
	for len(work) > 0 {
		e.checkTime()
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.pc == 0 && !w.skip {
			if cur != nil {
				if w.b == cur.header {
					exits = append(exits, Exit{kind: 'b', st: w.st, fr: w.fr, to: w.b, from: w.prev})
					continue
				}
				if !cur.blocks[w.b] {
					exits = append(exits, Exit{kind: 'x', st: w.st, fr: w.fr, to: w.b, from: w.prev})
					continue
				}
			}
			if l := ls.byHeader[w.b]; l != nil {
				for _, x := range e.loop(w.st, w.fr, l, w.prev) {
					switch x.kind {
					case 'x':
						work = append(work, workItem{x.st, x.fr, x.to, x.from, 0, false})
					default:
						exits = append(exits, x)
					}
				}
				continue
			}
		}
		nexts, xs := e.block(w, ls)
		work = append(work, nexts...)
		exits = append(exits, xs...)
		if len(exits)+len(work) > 400 {
			panic(unsupported("too many paths in %s", fr.fn))
		}
	}
	return exits
}

// block executes the instructions of one block from w.pc.
func (e *Engine) block(w workItem, ls *fnLoops) (nexts []workItem, exits []Exit) {
	st, fr := w.st, w.fr
	b := w.b
	if w.pc == 0 && !w.skip {
		e.phis(st, fr, b, w.prev)
	}
	for i := w.pc; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		switch x := ins.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.val(fr, x.Cond).(*Term)
			switch st.decide(c) {
			case 1:
				return append(nexts, workItem{st, fr, b.Succs[0], b, 0, false}), exits
			case -1:
				return append(nexts, workItem{st, fr, b.Succs[1], b, 0, false}), exits
			}
			st2, fr2 := st.clone(), fr.clone()
			st.assume(c)
			st2.assume(Not(c))
			return append(nexts, workItem{st, fr, b.Succs[0], b, 0, false}, workItem{st2, fr2, b.Succs[1], b, 0, false}), exits
		case *ssa.Jump:
			return append(nexts, workItem{st, fr, b.Succs[0], b, 0, false}), exits
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
			case 1:
				v = e.val(fr, x.Results[0])
			default:
				t := &TupleV{}
				for _, r := range x.Results {
					t.V = append(t.V, e.val(fr, r))
				}
				v = t
			}
			return nexts, append(exits, Exit{kind: 'r', st: st, fr: fr, val: v})
		case *ssa.Panic:
			return nexts, append(exits, Exit{kind: 'p', st: st, fr: fr, msg: "panic: " + valStr(e.val(fr, x.X))})
		case *ssa.RunDefers:
			continue
		}
		// calls may have several outcomes
		if c, ok := ins.(*ssa.Call); ok {
			outs, fork, pan := e.tryCall(st, fr, c)
			if fork != nil {
				return append(nexts, e.forkAt(st, fr, b, w.prev, i, fork)...), exits
			}
			if pan != "" {
				return nexts, append(exits, Exit{kind: 'p', st: st, fr: fr, msg: pan})
			}
			if len(outs) == 1 && !outs[0].Panic {
				st = outs[0].St
				fr.regs[c] = outs[0].Val
				continue
			}
			for _, o := range outs {
				if o.Panic {
					exits = append(exits, Exit{kind: 'p', st: o.St, fr: fr, msg: o.Msg})
					continue
				}
				f2 := fr.clone()
				f2.regs[c] = o.Val
				nexts = append(nexts, workItem{o.St, f2, b, w.prev, i + 1, true})
			}
			return nexts, exits
		}
		snap := st
		if mayFork(ins) {
			snap = st.clone()
		}
		fork, pan := e.tryStep(st, fr, ins)
		if fork != nil {
			return append(nexts, e.forkAt(snap, fr, b, w.prev, i, fork)...), exits
		}
		if pan != "" {
			return nexts, append(exits, Exit{kind: 'p', st: st, fr: fr, msg: pan})
		}
	}
	return nexts, exits
}

func mayFork(ins ssa.Instruction) bool {
	switch ins.(type) {
	case *ssa.UnOp, *ssa.Lookup, *ssa.Store, *ssa.MapUpdate, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.BinOp, *ssa.TypeAssert, *ssa.Next, *ssa.Slice, *ssa.Convert, *ssa.Index, *ssa.Extract:
		return true
	}
	return false
}

func (e *Engine) forkAt(st *State, fr *Frame, b, prev *ssa.BasicBlock, i int, f *forkReq) []workItem {
	e.Forks++
	var out []workItem
	s2, f2 := st.clone(), fr.clone()
	st.assume(f.c)
	s2.assume(Not(f.c))
	if st.sat() {
		out = append(out, workItem{st, fr, b, prev, i, true})
	}
	if s2.sat() {
		out = append(out, workItem{s2, f2, b, prev, i, true})
	}
	return out
}

func (e *Engine) tryStep(st *State, fr *Frame, ins ssa.Instruction) (fork *forkReq, pan string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				fork = &x
			case goPanic:
				pan = "panic: " + x.msg
			case *unsupportedErr:
				if x.msg != "" && !strings.Contains(x.msg, " [at ") {
					x.msg += " [at " + e.pos(fr.fn, ins) + "]"
				}
				panic(x)
			default:
				panic(r)
			}
		}
	}()
	e.step(st, fr, ins)
	return
}

func (e *Engine) pos(fn *ssa.Function, ins ssa.Instruction) string {
	p := fn.Prog.Fset.Position(ins.Pos())
	return fmt.Sprintf("%s %s:%d", fn.Name(), shortFile(p.Filename), p.Line)
}

func shortFile(s string) string {
	return strings.TrimPrefix(s, "/repo/")
}

func (e *Engine) tryCall(st *State, fr *Frame, c *ssa.Call) (outs []Outcome, fork *forkReq, pan string) {
	snap := st.clone()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				fork = &x
				*st = *snap
			case goPanic:
				pan = "panic: " + x.msg
			case *unsupportedErr:
				if x.msg != "" && !strings.Contains(x.msg, " [at ") {
					x.msg += " [at " + e.pos(fr.fn, c) + "]"
				}
				panic(x)
			default:
				panic(r)
			}
		}
	}()
	outs = e.call(st, fr, c)
	return
}

func (e *Engine) phis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	var vals []Val
	var ps []*ssa.Phi
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, e.val(fr, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.regs[p] = vals[i]
	}
}

func (e *Engine) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Global:
		return &Addr{R: e.globalRoot(x)}
	case *ssa.Builtin:
		return &FuncV{Name: x.Name()}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsupported("value %s of %s not available", v.Name(), fr.fn))
	}
	return r
}

func (e *Engine) globalRoot(g *ssa.Global) *Root {
	id := "global:" + g.String()
	if r, ok := e.roots[id]; ok {
		return r
	}
	r := &Root{ID: id, Kind: 'p', Typ: g.Type().(*types.Pointer).Elem()}
	e.roots[id] = r
	return r
}

func constRat(v constant.Value) *big.Rat {
	r := new(big.Rat)
	if i := constant.ToInt(v); i.Kind() == constant.Int {
		b, _ := new(big.Int).SetString(i.ExactString(), 10)
		return r.SetInt(b)
	}
	f := constant.ToFloat(v)
	if _, ok := r.SetString(f.ExactString()); ok {
		return r
	}
	ff, _ := constant.Float64Val(f)
	r.SetFloat64(ff)
	return r
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return True
		}
		return False
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant %s", c))
	}
	if b.Info()&types.IsComplex != 0 {
		return o("cplx", NumR(constRat(constant.Real(c.Value)), SReal), NumR(constRat(constant.Imag(c.Value)), SReal))
	}
	if b.Info()&types.IsFloat != 0 {
		return NumR(constRat(c.Value), SReal)
	}
	return NumR(constRat(c.Value), SInt)
}

func (e *Engine) zero(t types.Type) Val {
	if e.isOpaque(t) {
		return o("zero:" + t.String())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsFloat != 0:
			return RealC(0, 1)
		case u.Info()&types.IsString != 0:
			return StrLit("")
		case u.Info()&types.IsComplex != 0:
			return o("cplx", RealC(0, 1), RealC(0, 1))
		case u.Kind() == types.UnsafePointer:
			return nilAddr()
		case u.Kind() == types.UntypedNil:
			return nilAddr()
		}
		return Num(0)
	case *types.Pointer:
		return nilAddr()
	case *types.Slice:
		return &SliceV{Nil: true, Off: Num(0), Len: Num(0), Cap: Num(0)}
	case *types.Map:
		return &MapV{Nil: true}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{Nil: true}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := &StructV{T: t}
		for i := 0; i < int(u.Len()); i++ {
			s.F = append(s.F, e.zero(u.Elem()))
		}
		return s
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			s.V = append(s.V, e.zero(u.At(i).Type()))
		}
		return s
	}
	panic(unsupported("zero value of %s", t))
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func asAddr(v Val) *Addr {
	switch x := v.(type) {
	case *Addr:
		return x
	}
	panic(unsupported("pointer expected, have %s", valStr(v)))
}

func asTerm(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	panic(unsupported("scalar expected, have %s", valStr(v)))
}

func (e *Engine) step(st *State, fr *Frame, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		site := fr.site + ":" + x.Name()
		tag := ""
		if x.Comment == "slicelit" || x.Comment == "varargs" {
			tag = "lit"
		}
		fr.regs[x] = st.alloc(site, deref(x.Type()), tag)
	case *ssa.BinOp:
		fr.regs[x] = e.binop(st, x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x)
	case *ssa.UnOp:
		v := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			fr.regs[x] = st.read(asAddr(v), x.Type())
		case token.NOT:
			fr.regs[x] = Not(asTerm(v))
		case token.SUB:
			if c, ok := v.(*OpaqueV); ok && c.Kind == "cplx" {
				fr.regs[x] = o("cplx", Neg(c.Args[0]), Neg(c.Args[1]))
				return
			}
			fr.regs[x] = Neg(asTerm(v))
		case token.XOR:
			panic(unsupported("bitwise complement"))
		default:
			panic(unsupported("unary operator %s", x.Op))
		}
	case *ssa.ChangeType:
		fr.regs[x] = e.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.regs[x] = e.val(fr, x.X)
	case *ssa.Convert:
		fr.regs[x] = e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		fr.regs[x] = &IfaceV{T: x.X.Type(), V: e.val(fr, x.X)}
	case *ssa.TypeAssert:
		e.typeAssert(st, fr, x)
	case *ssa.Extract:
		t, ok := e.val(fr, x.Tuple).(*TupleV)
		if !ok {
			panic(unsupported("extract from %s", valStr(e.val(fr, x.Tuple))))
		}
		if lz, ok := t.V[x.Index].(*OpaqueV); ok && lz.Kind == "range value" {
			fr.regs[x] = st.mapVal(lz.Data[0].(*MapV), lz.Args[0], x.Type())
			return
		}
		fr.regs[x] = t.V[x.Index]
	case *ssa.Field:
		s, ok := e.val(fr, x.X).(*StructV)
		if !ok {
			panic(unsupported("field of %s", valStr(e.val(fr, x.X))))
		}
		fr.regs[x] = s.F[x.Field]
	case *ssa.FieldAddr:
		a := asAddr(e.val(fr, x.X))
		if a.Nil {
			panic(goPanic{"nil pointer dereference"})
		}
		s := deref(x.X.Type()).Underlying().(*types.Struct)
		fr.regs[x] = a.field(x.Field, s.Field(x.Field).Name())
	case *ssa.Index:
		v := e.val(fr, x.X)
		if s, ok := v.(*StructV); ok {
			if n, ok := asTerm(e.val(fr, x.Index)).Int(); ok {
				fr.regs[x] = s.F[n]
				return
			}
		}
		panic(unsupported("index of %s", valStr(v)))
	case *ssa.IndexAddr:
		fr.regs[x] = e.indexAddr(st, e.val(fr, x.X), x.X.Type(), asTerm(e.val(fr, x.Index)))
	case *ssa.Lookup:
		e.lookup(st, fr, x)
	case *ssa.MakeMap:
		a := st.alloc(fr.site+":"+x.Name(), x.Type(), "map")
		fr.regs[x] = &MapV{A: a}
	case *ssa.MapUpdate:
		m, ok := e.val(fr, x.Map).(*MapV)
		if !ok {
			panic(unsupported("map update of %s", valStr(e.val(fr, x.Map))))
		}
		st.mapSet(m, asTerm(e.val(fr, x.Key)), x.Map.Type().Underlying().(*types.Map).Elem(), e.val(fr, x.Value))
	case *ssa.MakeSlice:
		n := asTerm(e.val(fr, x.Len))
		c := asTerm(e.val(fr, x.Cap))
		if !st.valid(Ge(n, Num(0))) {
			st.require(Ge(n, Num(0)), "makeslice length", e.pos(fr.fn, x))
		}
		a := st.alloc(fr.site+":"+x.Name(), x.Type(), "slice")
		fr.regs[x] = &SliceV{Base: a, Off: Num(0), Len: n, Cap: c}
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Free = append(f.Free, e.val(fr, b))
		}
		fr.regs[x] = f
	case *ssa.Slice:
		e.slice(st, fr, x)
	case *ssa.Store:
		st.write(asAddr(e.val(fr, x.Addr)), deref(x.Addr.Type()), e.val(fr, x.Val))
	case *ssa.Range:
		fr.regs[x] = &OpaqueV{Kind: "range", Data: []Val{e.val(fr, x.X)}}
	case *ssa.Next:
		v, ok := fr.regs[x]
		_ = v
		if !ok {
			panic(unsupported("iteration outside of a loop"))
		}
	default:
		panic(unsupported("instruction %T", ins))
	}
}

func (e *Engine) indexAddr(st *State, v Val, t types.Type, i *Term) *Addr {
	switch x := v.(type) {
	case *Addr:
		if x.Nil {
			panic(goPanic{"nil pointer dereference"})
		}
		at := deref(t)
		n := at.Underlying().(*types.Array).Len()
		st.bounds(i, Num(n))
		if x.View {
			return viewIndex(x, i)
		}
		return arrayElem(x, at, i)
	case *SliceV:
		if x.Nil {
			panic(goPanic{"index out of range (nil slice)"})
		}
		st.bounds(i, x.Len)
		if x.Arr != nil {
			j := Add(x.Off, i)
			for c := int64(0); c < x.Arr.Underlying().(*types.Array).Len(); c++ {
				if st.cond(Eq(j, Num(c))) {
					return arrayElem(x.Base, x.Arr, Num(c))
				}
			}
		}
		return x.Base.index(Add(x.Off, i))
	}
	panic(unsupported("index into %s", valStr(v)))
}

// bounds: index out of range is a panic of the program under analysis
func (st *State) bounds(i, n *Term) {
	ok := And(Ge(i, Num(0)), Lt(i, n))
	switch st.decide(ok) {
	case 1:
		return
	case -1:
		panic(goPanic{fmt.Sprintf("index out of range: %s with length %s", i, n)})
	}
	panic(forkReq{ok})
}

func (e *Engine) lookup(st *State, fr *Frame, x *ssa.Lookup) {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsupported("string index"))
	}
	m, ok := e.val(fr, x.X).(*MapV)
	if !ok {
		panic(unsupported("lookup in %s", valStr(e.val(fr, x.X))))
	}
	k := asTerm(e.val(fr, x.Index))
	has := st.mapHas(m, k)
	if x.CommaOk {
		var v Val
		if st, isS := mt.Elem().Underlying().(*types.Struct); isS && st.NumFields() == 0 {
			fr.regs[x] = &TupleV{[]Val{e.zero(mt.Elem()), has}}
			return
		}
		if st.cond(has) {
			v = st.mapVal(m, k, mt.Elem())
			fr.regs[x] = &TupleV{[]Val{v, True}}
		} else {
			fr.regs[x] = &TupleV{[]Val{e.zero(mt.Elem()), False}}
		}
		return
	}
	if st.cond(has) {
		fr.regs[x] = st.mapVal(m, k, mt.Elem())
	} else {
		fr.regs[x] = e.zero(mt.Elem())
	}
}

func (e *Engine) slice(st *State, fr *Frame, x *ssa.Slice) {
	v := e.val(fr, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = asTerm(e.val(fr, x.Low))
	} else {
		lo = Num(0)
	}
	if x.High != nil {
		hi = asTerm(e.val(fr, x.High))
	}
	if x.Max != nil {
		panic(unsupported("three-index slice"))
	}
	switch s := v.(type) {
	case *SliceV:
		if hi == nil {
			hi = s.Len
		}
		if s.Nil {
			if st.cond(And(Eq(lo, Num(0)), Eq(hi, Num(0)))) {
				fr.regs[x] = s
				return
			}
			panic(goPanic{"slice bounds out of range (nil slice)"})
		}
		ok := And(Ge(lo, Num(0)), Le(lo, hi), Le(hi, s.Cap))
		switch st.decide(ok) {
		case -1:
			panic(goPanic{"slice bounds out of range"})
		case 0:
			panic(forkReq{ok})
		}
		fr.regs[x] = &SliceV{Base: s.Base, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(s.Cap, lo), Arr: s.Arr}
		return
	case *Addr:
		at := deref(x.X.Type())
		n := Num(at.Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		sv := &SliceV{Base: s, Off: lo, Len: Sub(hi, lo), Cap: Sub(n, lo)}
		if b, ok := at.Underlying().(*types.Array).Elem().Underlying().(*types.Basic); !(ok && b.Info()&types.IsNumeric != 0) && !litArray(s) {
			sv.Arr = at
		}
		fr.regs[x] = sv
		return
	}
	panic(unsupported("slice of %s", valStr(v)))
}

func (e *Engine) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) {
	v, ok := e.val(fr, x.X).(*IfaceV)
	if !ok {
		panic(unsupported("type assertion on %s", valStr(e.val(fr, x.X))))
	}
	match := v.T != nil && types.Identical(v.T, x.AssertedType)
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		match = v.T != nil && types.AssignableTo(v.T, x.AssertedType)
		if match {
			if x.CommaOk {
				fr.regs[x] = &TupleV{[]Val{v, True}}
			} else {
				fr.regs[x] = v
			}
			return
		}
	}
	if x.CommaOk {
		if match {
			fr.regs[x] = &TupleV{[]Val{v.V, True}}
		} else {
			fr.regs[x] = &TupleV{[]Val{e.zero(x.AssertedType), False}}
		}
		return
	}
	if !match {
		panic(goPanic{"interface conversion"})
	}
	fr.regs[x] = v.V
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	if tb, ok := to.Underlying().(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fb, ok := from.Underlying().(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		a := asAddr(v)
		el := deref(to)
		if _, ok := el.Underlying().(*types.Array); ok {
			if n := len(a.P); n > 0 && a.P[n-1].K == '[' {
				b := *a
				b.View = true
				return &b
			}
		}
		panic(unsupported("unsafe pointer conversion of %s", a))
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if sl, ok := to.Underlying().(*types.Slice); ok && ok1 && fb.Info()&types.IsString != 0 && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
		return &OpaqueV{Kind: "bytes", Data: []Val{v}}
	}
	if !ok1 || !ok2 {
		panic(unsupported("conversion %s -> %s", from, to))
	}
	if c, ok := v.(*CoefV); ok {
		if tb.Info()&types.IsInteger != 0 {
			return c
		}
		panic(unsupported("conversion of a residue to %s", to))
	}
	if c, ok := v.(*OpaqueV); ok {
		if c.Kind == "cplx" || strings.HasPrefix(c.Kind, "gal") {
			return c
		}
		panic(unsupported("conversion of %s", valStr(v)))
	}
	t := asTerm(v)
	switch {
	case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return ToReal(t)
	case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		if i, ok := isIntegral(t); ok {
			t = i
		} else if st.valid(Ge(t, RealC(0, 1))) {
			t = Floor(t)
		} else if st.valid(Le(t, RealC(0, 1))) {
			t = Neg(Floor(Neg(t)))
		} else {
			t = Ite(Ge(t, RealC(0, 1)), Floor(t), Neg(Floor(Neg(t))))
		}
		if isUnsigned(to) && !t.IsNum() {
			st.require(Ge(t, Num(0)), "conversion to unsigned of a non-negative value", to.String())
		}
		if !hasRealLeaf(t) {
			return t // a quotient of lengths or levels
		}
		// outside of the range of the target type the result is whatever the processor gives
		lim := NumR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63)), SInt)
		if isUnsigned(to) {
			lim = Mul(lim, Num(2))
		}
		in := And(Lt(t, lim), Ge(t, Neg(lim)))
		if !st.valid(in) && !st.cond(in) {
			f := Fresh("overflow", SInt)
			st.addFact(And(Lt(f, lim), Ge(f, Neg(lim))))
			return f
		}
		return t
	case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if isUnsigned(to) && !isUnsigned(from) {
			st.require(Ge(t, Num(0)), "conversion to unsigned of a non-negative value", to.String())
		}
		return t
	case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return t
	case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return t
	}
	panic(unsupported("conversion %s -> %s", from, to))
}

// hasRealLeaf reports whether t depends on a number that is not a machine integer.
func hasRealLeaf(t *Term) bool {
	if t.Op == OpSym || t.Op == OpApp {
		return t.Sort == SReal
	}
	for _, m := range t.Mon {
		for _, f := range m.F {
			if hasRealLeaf(f.T) {
				return true
			}
		}
	}
	for _, a := range t.Args {
		if hasRealLeaf(a) {
			return true
		}
	}
	return false
}

func (e *Engine) eqVals(st *State, a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
	case *Addr:
		y, ok := b.(*Addr)
		if !ok {
			break
		}
		if x.Nil || y.Nil {
			if x.Nil && y.Nil {
				return True
			}
			return False
		}
		if x.Skel() != y.Skel() {
			return False
		}
		g := True
		ya := y.Args()
		for i, t := range x.Args() {
			g = And(g, Eq(t, ya[i]))
		}
		return g
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.T == nil || y.T == nil {
				if x.T == nil && y.T == nil {
					return True
				}
				return False
			}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if y.Nil {
				if x.Nil {
					return True
				}
				return False
			}
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			if y.Nil {
				if x.Nil {
					return True
				}
				return False
			}
		}
	case *OpaqueV:
		if y, ok := b.(*Addr); ok && y.Nil {
			return False
		}
		if y, ok := b.(*IfaceV); ok && y.T == nil {
			return False
		}
	}
	panic(unsupported("comparison of %s and %s", valStr(a), valStr(b)))
}

func (e *Engine) binop(st *State, op token.Token, a, b Val, t types.Type, ins *ssa.BinOp) Val {
	switch op {
	case token.EQL:
		return e.eqVals(st, a, b)
	case token.NEQ:
		return Not(e.eqVals(st, a, b))
	}
	if v, ok := e.specialBinop(st, op, a, b); ok {
		return v
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("operator %s on %s and %s", op, valStr(a), valStr(b)))
	}
	if e.word && isUint64(t) {
		switch op {
		case token.ADD:
			return e.wrapWord(st, Add(x, y))
		case token.SUB:
			return e.wrapWord(st, Sub(x, y))
		case token.MUL:
			return e.wrapWord(st, Mul(x, y))
		case token.SHL:
			if n, ok := y.Int(); ok && n >= 0 && n < 64 {
				return e.wrapWord(st, Mul(pow2n(uint(n)), x))
			}
		}
	}
	bt, _ := t.Underlying().(*types.Basic)
	isF := bt != nil && bt.Info()&types.IsFloat != 0
	switch op {
	case token.LSS:
		return Lt(x, y)
	case token.GTR:
		return Gt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GEQ:
		return Ge(x, y)
	case token.ADD:
		if bt != nil && bt.Info()&types.IsString != 0 {
			return App("strcat", SInt, x, y)
		}
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO:
		if isF {
			return RDiv(x, y)
		}
		return e.intDiv(st, x, y)
	case token.REM:
		if !isF && len(st.Trackers) == 0 && isRotPeriod(y) && st.valid(Gt(y, Num(0))) {
			return e.remainder(st, x, y, false)
		}
		d := e.intDiv(st, x, y)
		if y.IsNum() && st.valid(Ge(x, Num(0))) {
			return Mod(x, y)
		}
		return Sub(x, Mul(d, y))
	case token.SHL:
		if n, ok := y.Int(); ok && n >= 0 && n < 64 {
			return MulC(1<<uint(n), x)
		}
		return Mul(x, Pow2(y))
	case token.SHR:
		if n, ok := y.Int(); ok && n >= 0 && n < 64 {
			if !st.valid(Ge(x, Num(0))) {
				panic(unsupported("right shift of a possibly negative value"))
			}
			return Div(x, Num(1<<uint(n)))
		}
		if d := e.digit; d != nil && x.key == d[0].key && y.key == d[3].key {
			return d[2]
		}
		panic(unsupported("right shift by %s", y))
	case token.AND:
		if n, ok := y.Int(); ok && n == 1 {
			return Mod(x, Num(2))
		}
		if n, ok := x.Int(); ok && n == 1 {
			return Mod(y, Num(2))
		}
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			// two's complement: masks of low bits are residues, also of negative numbers
			if n, ok := p[1].Int(); ok && n > 0 && n < 1<<62 && n&(n+1) == 0 {
				return Mod(p[0], Num(n+1))
			} else if ok && n == 0 {
				return Num(0)
			}
			// a single binary digit of the index of a rotation
			if v := e.digitOf(p[0], p[1]); v != nil {
				return v
			}
			// two's complement: x & (2^k - 1) is the residue of x modulo 2^k
			if per := Add(p[1], Num(1)); len(st.Trackers) == 0 && isRotPeriod(per) && (st.valid(Eq(per, MulC(8, symM))) || st.valid(Eq(per, symN))) {
				return e.remainder(st, p[0], per, true)
			}
		}
	case token.XOR:
		if n, ok := y.Int(); ok && n == 1 && st.valid(And(Ge(x, Num(0)), Le(x, Num(1)))) {
			return Sub(Num(1), x)
		}
	case token.OR:
		if n, ok := x.Int(); ok && n == 0 {
			return y
		}
		if n, ok := y.Int(); ok && n == 0 {
			return x
		}
	}
	panic(unsupported("operator %s on %s and %s", op, x, y))
}

// isRotPeriod: a multiple of m (half the ring degree is 8m)
func isRotPeriod(y *Term) bool {
	ms := monosOf(y)
	for _, m := range ms {
		if !m.hasSym("m") {
			return false
		}
	}
	return len(ms) > 0
}

func allNeg(ms []Mono) bool {
	for _, m := range ms {
		if m.C.Sign() >= 0 {
			return false
		}
	}
	return true
}

// remainder of x by the positive y in terms of the floor quotient:
// truncated (the sign of x) or, if floor, never negative
func (e *Engine) remainder(st *State, x, y *Term, floor bool) *Term {
	if ms := monosOf(x); len(ms) > 0 && allNeg(ms) {
		// by the remainder of -x, so that both are named by the same quotient
		if !floor {
			return Neg(e.remainder(st, Neg(x), y, false))
		}
		r := e.remainder(st, Neg(x), y, true)
		switch {
		case st.valid(Eq(r, Num(0))):
			return Num(0)
		case st.valid(Gt(r, Num(0))):
			return Sub(y, r)
		}
		panic(forkReq{Eq(r, Num(0))})
	}
	r := Sub(x, Mul(Div(x, y), y))
	if floor || st.valid(Ge(x, Num(0))) {
		return r
	}
	if !st.valid(Lt(x, Num(0))) {
		panic(forkReq{Ge(x, Num(0))})
	}
	switch {
	case st.valid(Eq(r, Num(0))):
		return Num(0)
	case st.valid(Gt(r, Num(0))):
		return Sub(r, y)
	}
	panic(forkReq{Eq(r, Num(0))})
}

// digitOf: rho & 2^j in an iteration of the rotation loop, where rho = R·2^j + rem
func (e *Engine) digitOf(x, y *Term) *Term {
	d := e.digit
	if d == nil || x.key != d[0].key || y.key != d[1].key {
		return nil
	}
	return Mul(Mod(d[2], Num(2)), y)
}

func (e *Engine) intDiv(st *State, x, y *Term) *Term {
	if x.IsNum() && y.IsNum() && y.Num.Sign() != 0 {
		q := new(big.Int).Quo(x.Num.Num(), y.Num.Num())
		return NumR(new(big.Rat).SetInt(q), SInt)
	}
	if !st.valid(Gt(y, Num(0))) {
		if st.valid(Eq(y, Num(0))) {
			panic(goPanic{"integer divide by zero"})
		}
		if st.sat(Eq(y, Num(0))) && !y.IsNum() {
			panic(forkReq{Gt(y, Num(0))})
		}
		panic(unsupported("division by a negative value"))
	}
	if x.key == symNP.key && (y.key == symGamma.key || st.valid(Eq(y, symGamma))) {
		return symAlpha // by definition
	}
	if st.valid(Ge(x, Num(0))) {
		return Div(x, y)
	}
	// truncated division
	if st.valid(Le(x, Num(0))) {
		return Neg(Div(Neg(x), y))
	}
	return Ite(Ge(x, Num(0)), Div(x, y), Neg(Div(Neg(x), y)))
}

func Pow2(n *Term) *Term {
	if k, ok := n.Int(); ok && k >= 0 && k < 4096 {
		return NumR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k))), SInt)
	}
	// pow2(x+c) = 2^c pow2(x)
	var c int64
	var rest []Mono
	for _, m := range monosOf(n) {
		if len(m.F) == 0 && m.C.IsInt() {
			c = m.C.Num().Int64()
		} else {
			rest = append(rest, m)
		}
	}
	if c > 0 && c < 64 {
		return MulC(1<<uint(c), App("pow2", SInt, fromMonos(rest, SInt)))
	}
	return App("pow2", SInt, n)
}

// ---- calls

func (e *Engine) call(st *State, fr *Frame, c *ssa.Call) []Outcome {
	cc := c.Common()
	site := fmt.Sprintf("%s/%s.%s", fr.site, fr.fn.Name(), c.Name())
	var args []Val
	if cc.IsInvoke() {
		recv := e.val(fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, e.val(fr, a))
		}
		return e.invoke(st, recv, cc.Method, args, site, cc.Value.Type())
	}
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return []Outcome{{St: st, Val: e.builtin(st, b.Name(), args, cc, site)}}
	}
	f, ok := e.val(fr, cc.Value).(*FuncV)
	if !ok || f.Nil {
		panic(unsupported("call of %s", valStr(e.val(fr, cc.Value))))
	}
	return e.callFunc(st, f, args, site)
}

func (e *Engine) callFunc(st *State, f *FuncV, args []Val, site string) []Outcome {
	fn := f.Fn
	if fn == nil {
		panic(unsupported("call of unknown function %s", f.Name))
	}
	name := fn.String()
	if len(f.Free) > 0 && strings.HasSuffix(name, "$bound") {
		// bound method value: the receiver is the free variable
		name = strings.TrimSuffix(name, "$bound")
		args = append([]Val{f.Free[0]}, args...)
		if m := e.externals[name]; m != nil {
			return []Outcome{{St: st, Val: m(e, st, args, site)}}
		}
		if obj := e.funcByName(name); obj != nil {
			return e.callNamed(st, obj, args, nil, site)
		}
		panic(unsupported("call of %s", name))
	}
	return e.callNamed(st, fn, args, f.Free, site)
}

func (e *Engine) callNamed(st *State, fn *ssa.Function, args []Val, free []Val, site string) []Outcome {
	name := fn.String()
	if c := e.contracts[name]; c != nil && c != e.current {
		if outs := c.apply(e, st, args, site); outs != nil {
			e.Applied[name] = true
			return outs
		}
	}
	if m := e.externals[name]; m != nil {
		e.Trusted[name] = true
		return []Outcome{{St: st, Val: m(e, st, args, site)}}
	}
	if e.inRepo(fn) || e.inlineExt[name] || fn.Synthetic != "" && len(fn.Blocks) > 0 {
		if name == "("+pkMk+".Parameters).Beta" && len(args) == 2 {
			pre := st.clone()
			return e.normBeta(pre, e.execFunc(st, fn, args, free, site), asTerm(args[1]), site)
		}
		return e.execFunc(st, fn, args, free, site)
	}
	panic(unsupported("call of external function %s without a contract", name))
}

// normBeta: where the number of digits that was just computed provably is the
// ceiling of (l+1)/alpha it is written as such, however it was computed; the
// paths of the computation are joined again when none of them wrote anything but
// locals.
func (e *Engine) normBeta(pre *State, outs []Outcome, l *Term, site string) []Outcome {
	want := e.betaOf(l)
	all := len(outs) > 0
	reads := func(s *State) (n int) {
		for _, t := range s.Trackers {
			n += len(t.Reads)
		}
		return
	}
	for i, o := range outs {
		if v, ok := o.Val.(*Term); ok && !o.Panic && (v.key == want.key || o.St.valid(And(Ge(l, Num(0)), Eq(v, want)))) {
			outs[i].Val = want
		} else {
			all = false
		}
	}
	if !all || len(outs) == 1 {
		return outs
	}
	for _, o := range outs {
		if reads(o.St) != reads(outs[0].St) {
			return outs
		}
		for k, c := range o.St.Cells {
			if c != pre.Cells[k] && (pre.Cells[k] != nil || len(c.Ovs) > 0) && !strings.HasPrefix(k, "@"+site+"/Beta.") {
				return outs
			}
		}
	}
	outs[0].St.PCs = pre.PCs
	return outs[:1]
}

func (e *Engine) invoke(st *State, recv Val, m *types.Func, args []Val, site string, it types.Type) []Outcome {
	iv, ok := recv.(*IfaceV)
	if ok {
		if iv.T == nil {
			panic(goPanic{"nil interface"})
		}
		ms := e.prog.MethodSets.MethodSet(iv.T)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel != nil {
			fn := e.prog.MethodValue(sel)
			return e.callNamed(st, fn, append([]Val{iv.V}, args...), nil, site)
		}
	}
	name := "(" + it.String() + ")." + m.Name()
	if x := e.externals[name]; x != nil {
		e.Trusted[name] = true
		return []Outcome{{St: st, Val: x(e, st, append([]Val{recv}, args...), site)}}
	}
	panic(unsupported("call of interface method %s on %s", name, valStr(recv)))
}

func (e *Engine) builtin(st *State, name string, args []Val, cc *ssa.CallCommon, site string) Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return x.Len
		case *MapV:
			return st.mapLen(x)
		case *Term:
			return App("strlen", SInt, x)
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			return x.Cap
		}
	case "delete":
		st.mapDelete(args[0].(*MapV), asTerm(args[1]))
		return nil
	case "real":
		if c, ok := args[0].(*OpaqueV); ok && c.Kind == "cplx" {
			return c.Args[0]
		}
	case "imag":
		if c, ok := args[0].(*OpaqueV); ok && c.Kind == "cplx" {
			return c.Args[1]
		}
	case "complex":
		return o("cplx", asTerm(args[0]), asTerm(args[1]))
	case "copy":
		return e.copySlices(st, args[0], args[1], cc.Args[0].Type(), site)
	case "append":
		return e.appendSlice(st, args[0], args[1], cc.Args[0].Type(), site)
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "min":
		m := asTerm(args[0])
		for _, a := range args[1:] {
			if m.Sort == SInt {
				m = st.forkMin(m, asTerm(a))
			} else {
				m = Min(m, asTerm(a))
			}
		}
		return m
	case "max":
		m := asTerm(args[0])
		for _, a := range args[1:] {
			m = Max(m, asTerm(a))
		}
		return m
	}
	panic(unsupported("builtin %s on %s", name, valStr(args[0])))
}

func (e *Engine) copySlices(st *State, d, s Val, t types.Type, site string) Val {
	dst, ok1 := d.(*SliceV)
	src, ok2 := s.(*SliceV)
	if !ok1 || !ok2 {
		panic(unsupported("copy of %s", valStr(s)))
	}
	n := Min(dst.Len, src.Len)
	if dst.Nil || src.Nil {
		return Num(0)
	}
	if isRowAddr(dst.Base) && isRowAddr(src.Base) {
		// whole rows only
		if st.valid(And(Eq(dst.Off, Num(0)), Eq(src.Off, Num(0)), Eq(n, symN))) {
			st.copyRow(dst.Base, src.Base)
			return n
		}
	}
	el := t.Underlying().(*types.Slice).Elem()
	switch el.Underlying().(type) {
	case *types.Basic, *types.Pointer:
		i := Fresh("i", SInt)
		st2 := st.clone()
		st2.addFact(And(Ge(i, Num(0)), Lt(i, n)))
		v := st2.readLeaf(src.Base.index(Add(src.Off, i)), el)
		da := dst.Base.index(Add(dst.Off, i))
		args := da.Args()
		h := hole(len(args) - 1)
		g := And(Ge(Sub(h, dst.Off), Num(0)), Lt(Sub(h, dst.Off), n))
		for k, x := range args[:len(args)-1] {
			g = And(g, Eq(hole(k), x))
		}
		st.writeGuarded(da, g, subVal(v, Subst{i.Name: Sub(h, dst.Off)}), false)
		return n
	}
	panic(unsupported("copy of slices of %s", el))
}

// copyRow copies one row onto another, possibly of another coordinate.
func (st *State) copyRow(dst, src *Addr) {
	da, sa := dst.Args(), src.Args()
	dt, sT := da[len(da)-1], sa[len(sa)-1]
	if isPRow(dst) == isPRow(src) && st.valid(Eq(dt, sT)) {
		// same coordinate: read at ROW, guard the destination row
		tr := rowIndexFor(isPRow(src))
		sa2 := append(append([]*Term{}, sa[:len(sa)-1]...), tr)
		rv := st.readRow(src.withArgs(sa2), Eq(tr, sT))
		g := True
		for i, x := range da {
			g = And(g, Eq(hole(i), x))
		}
		c := st.cellW(dst, true)
		c.push(Ov{G: g, V: rv, Epoch: st.Epoch})
		return
	}
	panic(unsupported("copy between rows of different moduli"))
}

func (e *Engine) appendSlice(st *State, a, b Val, t types.Type, site string) Val {
	s, ok := a.(*SliceV)
	ad, ok2 := b.(*SliceV)
	if !ok || !ok2 {
		panic(unsupported("append to %s", valStr(a)))
	}
	if s.Arr != nil || ad.Arr != nil {
		panic(unsupported("append to a slice of an array"))
	}
	el := t.Underlying().(*types.Slice).Elem()
	var na *Addr
	inPlace := !s.Nil && s.Base.R.Tag == "acc"
	if inPlace {
		na = s.Base
	} else {
		na = st.alloc(site+":append", t, "slice")
	}
	n := Add(s.Len, ad.Len)
	cp := func(src *SliceV, off *Term) {
		if src.Nil || (src.Len.IsNum() && src.Len.Num.Sign() == 0) {
			return
		}
		if k, ok := src.Len.Int(); ok && k <= 16 {
			for i := int64(0); i < k; i++ {
				v := st.read(src.Base.index(Add(src.Off, Num(i))), el)
				st.write(na.index(Add(off, Num(i))), el, v)
			}
			return
		}
		i := Fresh("i", SInt)
		st2 := st.clone()
		st2.addFact(And(Ge(i, Num(0)), Lt(i, src.Len)))
		v := st2.readLeaf(src.Base.index(Add(src.Off, i)), el)
		da := na.index(Add(off, i))
		args := da.Args()
		h := hole(len(args) - 1)
		g := And(Ge(Sub(h, off), Num(0)), Lt(Sub(h, off), src.Len))
		for k, x := range args[:len(args)-1] {
			g = And(g, Eq(hole(k), x))
		}
		st.writeGuarded(da, g, subVal(v, Subst{i.Name: Sub(h, off)}), false)
	}
	if inPlace {
		cp(ad, Add(s.Off, s.Len))
		return &SliceV{Base: na, Off: s.Off, Len: n, Cap: n}
	}
	cp(s, Num(0))
	cp(ad, s.Len)
	return &SliceV{Base: na, Off: Num(0), Len: n, Cap: n}
}

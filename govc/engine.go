package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	pkRing  = "github.com/ldsec/lattigo/v2/ring"
	pkRlwe  = "github.com/ldsec/lattigo/v2/rlwe"
	pkCkks  = "github.com/ldsec/lattigo/v2/ckks"
	pkUtils = "github.com/ldsec/lattigo/v2/utils"
	pkMk    = "mk-lr/mkrlwe"
	pkMc    = "mk-lr/mkckks"
)

// parameters of the scheme: every parameter set is covered by these symbols
var (
	symM     = Sym("m", SInt) // N = 16 m
	symN     = MulC(16, symM)
	symH     = MulC(8, symM) // N/2
	symLogN  = Sym("logN", SInt)
	symNQ    = Sym("nQ", SInt)
	symNP    = Sym("nP", SInt)
	symGamma = Sym("gamma", SInt)
	symAlpha = Sym("alpha", SInt)
	symScale = Sym("scale", SReal)
	symLogS  = Sym("logSlots", SInt)
)

type Obligation struct {
	Fn, Case, What, Where string
	OK                    bool
	Detail                string
}

type extFn func(e *Engine, st *State, args []Val, site string) Val

// Program: the loaded source, shared by the engines.
type Program struct {
	prog  *ssa.Program
	funcs map[string]*ssa.Function
	pkgs  map[string]*packages.Package
	repo  map[*ssa.Package]bool
}

type Engine struct {
	*Program
	S         *Solver
	Facts     []*Term
	word      bool // word mode
	wordBound func(t *Term) *Term
	Rules     []func(app *Term) []*Term
	loopCache map[*ssa.Function]*fnLoops
	Executed  map[string]bool
	Applied   map[string]bool
	Trusted   map[string]bool
	Deadline  time.Time
	Forks     int
	roots     map[string]*Root
	contracts map[string]*Contract
	current   *Contract
	curCase   string
	externals map[string]extFn
	inlineExt map[string]bool
	allocSeq  int
	cardSeen  map[string]bool
	tRows     types.Type
	tRow      types.Type
	Obls      []*Obligation
	baseHook  func(st *State, a *Addr, t types.Type) Val // case-specific pre-state leaves
	rowHook   func(st *State, a *Addr) *RowV             // case-specific pre-state rows
	pow2Of    map[string]*Term                           // variables that are powers of two, with the exponents
	loopHook  func(e *Engine, st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) ([]Exit, bool)
	alias     map[string]string // skeleton prefix -> root, for aliased parameters
	Loops     int
	digit     []*Term // rho, 2^j, R in an iteration of the rotation loop
	debug     bool
}

func loadProgram(dir string, lr bool) (*Program, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	cfg := &packages.Config{Mode: mode, Dir: dir}
	pats := []string{"./mkrlwe", "./mkckks"}
	if lr {
		// the training programs share a directory, each a package main of its own
		abs, err := filepath.Abs(dir)
		if err != nil {
			return nil, err
		}
		cfg.Overlay = map[string][]byte{}
		for _, f := range lrPrograms {
			b, err := os.ReadFile(filepath.Join(abs, "lr", f+".go"))
			if err != nil {
				continue
			}
			cfg.Overlay[filepath.Join(abs, "verif_"+f, "main.go")] = b
			pats = append(pats, "./verif_"+f)
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, er)
		}
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, funcs: map[string]*ssa.Function{}, pkgs: map[string]*packages.Package{}, repo: map[*ssa.Package]bool{}}
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("package %s not built", pkgs[i].PkgPath)
		}
		P.repo[s] = true
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) { P.pkgs[p.PkgPath] = p })
	for fn := range ssautil.AllFunctions(prog) {
		P.funcs[fn.String()] = fn
	}
	return P, nil
}

func (p *Program) funcByName(n string) *ssa.Function { return p.funcs[n] }

func (p *Program) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && p.repo[f.Pkg]
}

// typ looks up a named type.
func (p *Program) typ(pkg, name string) types.Type {
	q := p.pkgs[pkg]
	if q == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	o := q.Types.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("type %s.%s does not exist", pkg, name))
	}
	return o.Type()
}

func NewEngine(p *Program) *Engine {
	e := &Engine{Program: p, S: NewSolver(), loopCache: map[*ssa.Function]*fnLoops{}, Executed: map[string]bool{}, Applied: map[string]bool{}, Trusted: map[string]bool{},
		roots: map[string]*Root{}, contracts: map[string]*Contract{}, externals: map[string]extFn{}, inlineExt: map[string]bool{}}
	u64 := types.Typ[types.Uint64]
	e.tRow = types.NewSlice(u64)
	e.tRows = types.NewSlice(e.tRow)
	e.S.rules = e.appRules
	e.Facts = []*Term{
		Ge(symM, Num(1)), Ge(symNQ, Num(1)), Ge(symNP, Num(1)), Ge(symGamma, Num(1)), Ge(symAlpha, Num(1)), Le(symAlpha, symNP),
		Ge(symLogN, Num(4)), Gt(symScale, RealC(0, 1)), Ge(symLogS, Num(0)), Lt(symLogS, symLogN),
	}
	registerExternals(e)
	return e
}

func (e *Engine) relevant(q []*Term) []*Term { return q }

// facts about the functions of the logic, instantiated for the terms of a query
func (e *Engine) appRules(t *Term) []*Term {
	var out []*Term
	switch {
	case strings.HasPrefix(t.Name, "lvl|"):
		out = append(out, Ge(t, Num(0)), Le(t, Sub(symNQ, Num(1))))
	case strings.HasPrefix(t.Name, "has0|"):
		out = append(out, Implies(Eq(t.Args[len(t.Args)-1], Num(0)), t))
	case strings.HasPrefix(t.Name, "hasn|"):
		out = append(out, Implies(t, Neq(t.Args[len(t.Args)-1], Num(0))))
	case strings.HasPrefix(t.Name, "prod|"):
		out = append(out, Implies(Eq(t.Args[0], Num(0)), Eq(t, RealC(1, 1))))
	case strings.HasPrefix(t.Name, "len|"):
		out = append(out, Ge(t, Num(0)))
	case strings.HasPrefix(t.Name, "scale|"):
		out = append(out, Gt(t, RealC(0, 1)))
	case t.Name == "q":
		out = append(out, Gt(t, Num(1)))
	case t.Name == "pow2":
		out = append(out, Implies(Ge(t.Args[0], Num(0)), Ge(t, Num(1))), Implies(Ge(t.Args[0], Num(1)), Ge(t, Num(2))))
		// N/2 = 2^(logN-1)
		x := t.Args[0]
		below := Lt(x, Sub(symLogN, Num(1)))
		out = append(out, Implies(And(Ge(x, Num(0)), below), Le(MulC(2, t), symH)), Implies(Not(below), Ge(t, symH)), Implies(Eq(x, Sub(symLogN, Num(1))), Eq(t, symH)))
	case t.Name == "galinv" || t.Name == "galidx":
		out = append(out, Ge(t, Num(0)), Lt(t, symN))
		if t.Name == "galinv" {
			// multiplication by a Galois element permutes the indices (it is odd)
			out = append(out, Implies(And(Ge(t.Args[2], Num(0)), Lt(t.Args[2], symN)), Eq(App("galidx", SInt, t.Args[0], t.Args[1], t), t.Args[2])))
		}
	case t.Name == "galbit":
		out = append(out, Ge(t, Num(0)), Le(t, Num(1)))
	case t.Name == "hasCRS":
		k := t.Args[0]
		out = append(out, Implies(Or(Eq(k, Num(0)), Eq(k, Num(-1)), Eq(k, Num(-2)), Eq(k, Num(1))), t))
		for _, p := range subApps(k, "pow2") {
			out = append(out, Implies(And(Eq(k, p), Ge(p.Args[0], Num(0)), Lt(p.Args[0], Sub(symLogN, Num(1)))), t))
		}
	}
	if e.word {
		out = append(out, e.wordRules(t)...)
	}
	for _, r := range e.Rules {
		out = append(out, r(t)...)
	}
	return out
}

func (e *Engine) isOpaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case pkRlwe + ".Parameters", pkCkks + ".Parameters", "math/big.Int", "math/big.Float", pkRing + ".GaussianSampler", pkRing + ".TernarySampler", pkRing + ".UniformSampler", pkUtils + ".KeyedPRNG":
		return true
	}
	return false
}

func namedOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// ---- obligations

func (e *Engine) oblige(ok bool, what, where, detail string) bool {
	fn := ""
	if e.current != nil {
		fn = e.current.Fn
	}
	e.Obls = append(e.Obls, &Obligation{fn, e.curCase, what, where, ok, detail})
	return ok
}

func (e *Engine) require(st *State, t *Term, what, where string) {
	ok := st.valid(t)
	d := ""
	if !ok {
		d = "cannot derive " + t.key
	}
	e.oblige(ok, what, where, d)
	if !ok {
		st.addFact(t)
	}
}

// ---- addresses and types

// walk gives the type at every prefix of the path of a.
func (e *Engine) walk(a *Addr) []types.Type {
	cur := a.R.Typ
	out := make([]types.Type, 0, len(a.P)+1)
	out = append(out, cur)
	for _, s := range a.P {
		var nxt types.Type
		if cur != nil {
			switch s.K {
			case 'f':
				switch u := cur.Underlying().(type) {
				case *types.Struct:
					if s.N >= 0 && s.N < u.NumFields() {
						nxt = u.Field(s.N).Type()
					}
				case *types.Array:
					nxt = u.Elem()
				}
				if s.S == "?" {
					nxt = types.Typ[types.Bool]
				}
			case '*':
				switch u := cur.Underlying().(type) {
				case *types.Pointer:
					nxt = u.Elem()
				default:
					nxt = cur
				}
			case '[':
				switch u := cur.Underlying().(type) {
				case *types.Slice:
					nxt = u.Elem()
				case *types.Array:
					nxt = u.Elem()
				}
			case '{':
				if u, ok := cur.Underlying().(*types.Map); ok {
					nxt = u.Elem()
				}
			}
		}
		cur = nxt
		out = append(out, cur)
	}
	return out
}

func (a *Addr) prefix(n int) *Addr {
	return &Addr{R: a.R, RA: a.RA, P: append([]Step{}, a.P[:n]...)}
}

// object: the innermost-to-outermost semantic owner of a location
type owner struct {
	Kind string // type name
	Addr *Addr  // address of the object
	N    int    // length of its path
	Rest []Step
}

var ownerKinds = map[string]bool{
	pkMk + ".SecretKey": true, pkMk + ".PublicKey": true, pkMk + ".RelinearizationKey": true, pkMk + ".RotationKey": true, pkMk + ".ConjugationKey": true,
	pkMk + ".Ciphertext": true, pkMk + ".HoistedCiphertext": true, pkRlwe + ".Plaintext": true,
	pkMk + ".KeySwitcher": true, pkMc + ".Evaluator": true, pkMk + ".KeyGenerator": true, pkMk + ".Encryptor": true, pkMk + ".Decryptor": true, pkMc + ".Encryptor": true, pkMc + ".Decryptor": true,
	pkMk + ".SwitchingKey": true, pkRing + ".Poly": true, pkMk + ".RelinearizationKeySet": true, pkMk + ".Decomposer": true,
}

// owners lists the semantic objects along the path, outermost first.
func (e *Engine) owners(a *Addr) []owner {
	ts := e.walk(a)
	var out []owner
	for i, t := range ts {
		if t == nil {
			continue
		}
		n := namedOf(t)
		if ownerKinds[n] {
			// only the object itself, not a map or slice storage of it
			out = append(out, owner{n, a.prefix(i), i, a.P[i:]})
		}
	}
	return out
}

// innermost owner of one of the given kinds
func findOwner(os []owner, kinds ...string) *owner {
	for i := len(os) - 1; i >= 0; i-- {
		for _, k := range kinds {
			if os[i].Kind == k {
				return &os[i]
			}
		}
	}
	return nil
}

func outerOwner(os []owner, kinds ...string) *owner {
	for i := range os {
		for _, k := range kinds {
			if os[i].Kind == k {
				return &os[i]
			}
		}
	}
	return nil
}

var poolOwners = []string{pkMc + ".Evaluator", pkMk + ".KeySwitcher", pkMk + ".KeyGenerator", pkMk + ".Encryptor", pkMk + ".Decryptor", pkMc + ".Encryptor", pkMc + ".Decryptor", pkMk + ".RelinearizationKeySet"}

// isPool: scratch memory of one of the long-lived objects
func (e *Engine) isPool(a *Addr) bool {
	if a.R.Kind != 'p' {
		return false
	}
	os := e.owners(a)
	o := outerOwner(os, poolOwners...)
	if o == nil {
		return false
	}
	if o.Kind == pkMk+".RelinearizationKeySet" {
		return len(o.Rest) > 0 && o.Rest[0].S == "HoistPool"
	}
	// parameters reached through the object are not scratch
	for _, s := range o.Rest {
		if s.K == 'f' && (s.S == "params" || s.S == "Parameters" || s.S == "CRS" || s.S == "ckksParams") {
			return false
		}
	}
	return true
}

// lastKey: the innermost map key on the path of a
func lastKey(a *Addr) *Term {
	for i := len(a.P) - 1; i >= 0; i-- {
		if a.P[i].K == '{' {
			return a.P[i].T
		}
	}
	return nil
}

// idOf: the party an object belongs to. Elements of a key set are stored under their id.
func (e *Engine) idOf(ob *Addr, kind string) *Term {
	keys := []*Term{}
	for _, s := range ob.P {
		if s.K == '{' {
			keys = append(keys, s.T)
		}
	}
	if len(keys) > 0 {
		return keys[0]
	}
	return App("id|"+ob.Skel(), SInt, ob.Args()...)
}

func (e *Engine) rotOf(ob *Addr) *Term {
	keys := []*Term{}
	for _, s := range ob.P {
		if s.K == '{' {
			keys = append(keys, s.T)
		}
	}
	if len(keys) > 1 {
		return keys[1]
	}
	return App("rot|"+ob.Skel(), SInt, ob.Args()...)
}

func (e *Engine) lvlOf(ct *Addr) *Term {
	if e.isPool(ct) {
		return Sub(symNQ, Num(1))
	}
	return App("lvl|"+ct.Skel(), SInt, ct.Args()...)
}

// polyLen: number of rows of a pre-state polynomial at address p
func (e *Engine) polyLen(p *Addr, rowsAddr *Addr) (n, c *Term) {
	full := symNQ
	if isPRow(rowsAddr.deref().index(Num(0)).deref()) {
		full = symNP
	}
	os := e.owners(p)
	if e.isPool(p) {
		if findOwner(os, pkRlwe+".Plaintext") != nil {
			l := App("lvl|"+p.Skel(), SInt, p.Args()...)
			return Add(l, Num(1)), full
		}
		return full, full
	}
	if o := outerOwner(os, pkMk+".Ciphertext"); o != nil {
		l := Add(e.lvlOf(o.Addr), Num(1))
		return l, l
	}
	if findOwner(os, pkMk+".SecretKey", pkMk+".PublicKey", pkMk+".SwitchingKey") != nil {
		return full, full
	}
	if o := outerOwner(os, pkRlwe+".Plaintext"); o != nil {
		l := Add(App("lvl|"+o.Addr.Skel(), SInt, o.Addr.Args()...), Num(1))
		return l, l
	}
	l := Add(App("lvl|"+p.Skel(), SInt, p.Args()...), Num(1))
	if full == symNP {
		return symNP, symNP
	}
	return l, l
}

func (e *Engine) baseLeaf(st *State, a *Addr, t types.Type) Val {
	n := len(a.P)
	last := Step{}
	if n > 0 {
		last = a.P[n-1]
	}
	// header of a row
	if n >= 3 && last.K == '[' && a.P[n-2].K == '*' && a.P[n-3].K == 'f' && a.P[n-3].S == "Coeffs" && (a.R.Kind != 'a' || a.R.Tag == "Q" || a.R.Tag == "P") {
		return &SliceV{Base: a.deref(), Off: Num(0), Len: symN, Cap: symN}
	}
	if a.R.Kind == 'a' {
		if last.K == 'f' && last.S == "?" {
			return False
		}
		return e.zero(t)
	}
	if e.baseHook != nil {
		if v := e.baseHook(st, a, t); v != nil {
			return v
		}
	}
	switch a.R.ID {
	case "ringQ", "ringP":
		off := Num(0)
		cnt := symNQ
		if a.R.ID == "ringP" {
			off, cnt = symNQ, symNP
		}
		f := a.P[0].S
		if n == 1 {
			switch f {
			case "N":
				return symN
			case "Modulus", "MredParams", "BredParams":
				return &SliceV{Base: a.deref(), Off: Num(0), Len: cnt, Cap: cnt}
			case "NttPsi", "NttPsiInv":
				if e.word {
					return &SliceV{Base: a.deref(), Off: Num(0), Len: cnt, Cap: cnt}
				}
			case "ModulusBigint":
				return o("bigint:" + a.R.ID)
			}
		}
		if n >= 3 {
			c := Add(off, a.P[2].T)
			switch f {
			case "Modulus":
				return App("q", SInt, c)
			case "MredParams":
				if e.word {
					return App("mredc", SInt, App("q", SInt, c))
				}
				return o("mred", c)
			case "NttPsi":
				if n == 3 && e.word {
					return o("NTT", App("q", SInt, c))
				}
			case "NttPsiInv":
				if n == 3 && e.word {
					return o("INTT", App("q", SInt, c))
				}
			case "BredParams":
				if n == 3 && e.word {
					return o("bredm", App("q", SInt, c))
				}
				if n == 3 {
					return o("bred", c)
				}
			}
		}
		panic(unsupported("field %s of the ring", a))
	case "ringQP":
		switch a.P[0].S {
		case "RingQ":
			return e.special("ringQ")
		case "RingP":
			return e.special("ringP")
		}
	case "CRS":
		if last.S == "?" {
			return App("hasCRS", SBool, a.P[n-2].T)
		}
	}
	args := a.Args()
	if e.isOpaque(t) {
		switch namedOf(t) {
		case pkRlwe + ".Parameters":
			return o("rlweParams")
		case pkCkks + ".Parameters":
			return o("ckksParams")
		}
		return o("obj:"+a.Skel(), args...)
	}
	// fields with a meaning
	if last.K == 'f' {
		switch last.S {
		case "?":
			return e.hasBase(st, a)
		case "gamma":
			return symGamma
		case "logSlots":
			return symLogS
		case "scale":
			return symScale
		case "CRS":
			return &MapV{A: &Addr{R: e.root("CRS", e.crsType())}}
		case "IsNTT":
			return e.nttBase(st, a)
		case "ID":
			os := e.owners(a)
			if o := findOwner(os, pkMk+".SecretKey", pkMk+".PublicKey", pkMk+".RelinearizationKey", pkMk+".RotationKey", pkMk+".ConjugationKey"); o != nil {
				return e.idOf(o.Addr, o.Kind)
			}
		case "RotIdx":
			os := e.owners(a)
			if o := findOwner(os, pkMk+".RotationKey"); o != nil {
				return e.rotOf(o.Addr)
			}
		case "Scale":
			return App("scale|"+a.Skel(), SReal, args...)
		case "ringQ", "RingQ":
			return e.special("ringQ")
		case "ringP", "RingP":
			return e.special("ringP")
		case "Coeffs":
			l, c := e.polyLen(a.prefix(n-1), a)
			return &SliceV{Base: a.deref(), Off: Num(0), Len: l, Cap: c}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return a.deref()
	case *types.Slice:
		l := App("len|"+a.Skel(), SInt, args...)
		if ts := e.walk(a); n > 0 && last.S == "Value" && len(ts) >= 2 && ts[n-1] != nil && namedOf(ts[n-1]) == pkMk+".SwitchingKey" {
			l = e.betaOf(Sub(symNQ, Num(1)))
		}
		if namedOf(t) != "" {
			_ = u
		}
		return &SliceV{Base: a.deref(), Off: Num(0), Len: l, Cap: l}
	case *types.Map:
		return &MapV{A: a.deref()}
	case *types.Interface:
		return o("iface:"+a.Skel(), args...)
	case *types.Basic:
		nm := "v|" + a.Skel()
		switch {
		case u.Info()&types.IsBoolean != 0:
			return App(nm, SBool, args...)
		case u.Info()&types.IsFloat != 0:
			return App(nm, SReal, args...)
		case u.Info()&types.IsInteger != 0:
			if u.Info()&types.IsUnsigned != 0 {
				st.addFact(Ge(App(nm, SInt, args...), Num(0)))
			}
			return App(nm, SInt, args...)
		case u.Info()&types.IsString != 0:
			return App(nm, SInt, args...)
		case u.Info()&types.IsComplex != 0:
			return o("cplx", App(nm+".re", SReal, args...), App(nm+".im", SReal, args...))
		}
	}
	panic(unsupported("pre-state value of %s (%s)", a, t))
}

func (e *Engine) crsType() types.Type {
	return types.NewMap(types.Typ[types.Int], types.NewPointer(e.typ(pkMk, "SwitchingKey")))
}

// betaOf: number of digits at level l
func (e *Engine) betaOf(l *Term) *Term { return Div(Add(l, symAlpha), symAlpha) }

func (e *Engine) nttBase(st *State, a *Addr) Val {
	os := e.owners(a)
	if e.isPool(a) {
		if strings.HasSuffix(a.Skel(), "eval.polyQPool*.IsNTT") {
			return True
		}
		if findOwner(os, pkRlwe+".Plaintext") != nil {
			if outerOwner(os, pkMc+".Encryptor") != nil {
				return True
			}
		}
		return False
	}
	if o := outerOwner(os, pkMk+".Ciphertext"); o != nil {
		if o.Addr.R.Tag == "ntt?" {
			return App("ntt|"+o.Addr.Skel(), SBool, o.Addr.Args()...)
		}
		return False
	}
	return App("v|"+a.Skel(), SBool, a.Args()...)
}

func (e *Engine) hasBase(st *State, a *Addr) Val {
	n := len(a.P)
	args := a.Args()
	os := e.owners(a)
	if o := findOwner(os, pkMk+".Ciphertext"); o != nil && n-o.N == 4 {
		return App("has0|"+a.Skel(), SBool, args...)
	}
	if o := findOwner(os, pkMk+".RelinearizationKeySet"); o != nil && o.Rest[0].S == "HoistPool" {
		v := o.Addr.field(1, "Value").deref()
		has := st.E.hasBase(st, hasAddr(v, a.P[n-2].T)).(*Term)
		return Or(has, App("has|"+a.Skel(), SBool, args...))
	}
	ts := e.walk(a)
	if n >= 4 && namedOf(ts[n-4]) == pkMk+".IDSet" {
		return App("hasn|"+a.Skel(), SBool, args...)
	}
	return App("has|"+a.Skel(), SBool, args...)
}

// ---- pre-state rows

func (e *Engine) junkRow(a *Addr) *RowV {
	args := a.Args()
	if len(args) > 0 {
		args = args[:len(args)-1]
	}
	return &RowV{'?', rpAtom(A("junk|"+a.Skel(), args...))}
}

func sAtom(id *Term) *RP { return rpAtom(A("s", id)) }
func rAtom(id *Term) *RP { return rpAtom(A("r", id)) }
func crsAtom(idx, i *Term) *RP {
	return rpAtom(A("crs", idx, i))
}

// gadget: P on the rows of digit i, zero elsewhere
func gadget(i *Term) *RP {
	return rpGuard(And(Eq(Div(ROW, symAlpha), i), Ge(ROW, Num(0)), Lt(ROW, symNQ)), rpP(1))
}

func negT(t *Term) *Term { return normRot(Neg(t)) }

// normRot: rotation amounts are taken modulo N/2 = 8m
func normRot(t *Term) *Term {
	var out []Mono
	for _, m := range monosOf(t) {
		q := new(big.Rat).Quo(m.C, big.NewRat(8, 1))
		hasM := false
		if nr, nc := m.hasSym("numRow"), m.hasSym("numCol"); nr && nc && m.C.IsInt() {
			continue // a packed matrix fills the slots: numRow·numCol = N/2
		}
		for _, f := range m.F {
			if f.T.Op == OpSym && f.T.Name == "m" {
				hasM = true
			}
		}
		if hasM && q.IsInt() {
			continue
		}
		out = append(out, m)
	}
	return fromMonos(out, SInt)
}

func (m Mono) hasSym(n string) bool {
	for _, f := range m.F {
		if f.T.Op == OpSym && f.T.Name == n {
			return true
		}
	}
	return false
}

func sigma(r *RP, rot *Term, conj bool) *RP { return rpSigma(r, rot, conj, normRot) }

// content equations of the keys (the representation invariants of the key types)
func pkContent(id *Term, n int) *RP {
	c := crsAtom(Num(0), Num(0))
	if n == 1 {
		return c
	}
	return rpSub(rpAtom(A("epk", id)), rpMul(sAtom(id), c))
}

func rlkContent(id, i *Term, n int) *RP {
	er := func(k string) *RP { return rpMul(rpR(1), rpAtom(A(k, id, i))) }
	switch n {
	case 0:
		return rpSub(er("eb"), rpMul(sAtom(id), crsAtom(Num(0), i)))
	case 1:
		return rpAdd(er("ed"), rpMul(rpR(1), sAtom(id), gadget(i)), rpNeg(rpMul(rAtom(id), crsAtom(Num(0), i))))
	}
	return rpNeg(rpAdd(er("ev"), rpMul(rpR(1), rAtom(id), gadget(i)), rpMul(sAtom(id), crsAtom(Num(-1), i))))
}

func rtkContent(id, rot, i *Term) *RP {
	return rpAdd(rpMul(rpR(1), rpAtom(A("er", id, rot, i))), rpMul(rpR(1), sAtom(id), gadget(i)),
		rpNeg(rpMul(crsAtom(rot, i), sigma(sAtom(id), Neg(rot), false))))
}

func cjkContent(id, i *Term) *RP {
	return rpAdd(rpMul(rpR(1), rpAtom(A("ec", id, i))), rpMul(rpR(1), sigma(sAtom(id), nil, true), gadget(i)),
		rpNeg(rpMul(crsAtom(Num(-2), i), sAtom(id))))
}

func rpMulN(rs ...*RP) *RP {
	r := rs[0]
	for _, x := range rs[1:] {
		r = rpMul2(r, x)
	}
	return r
}

func (e *Engine) baseRow(st *State, a *Addr) *RowV {
	if a.R.Kind == 'a' {
		return &RowV{'Z', rpZero}
	}
	if e.rowHook != nil {
		if v := e.rowHook(st, a); v != nil {
			return v
		}
	}
	os := e.owners(a)
	if e.isPool(a) {
		return e.junkRow(a)
	}
	idx := func(o *owner) *Term { // index of the digit of a switching key
		for _, s := range o.Rest {
			if s.K == '[' {
				return s.T
			}
		}
		return Num(0)
	}
	arr := func(o *owner) int {
		for _, s := range o.Rest {
			if s.K == 'f' && strings.HasPrefix(s.S, "#") {
				return s.N
			}
		}
		return -1
	}
	if a.R.ID == "CRS" {
		var k *Term
		for _, s := range a.P {
			if s.K == '{' {
				k = s.T
			}
		}
		for _, s := range a.P {
			if s.K == '[' {
				return &RowV{'N', crsAtom(k, s.T)}
			}
		}
	}
	if o := findOwner(os, pkMk+".SecretKey"); o != nil {
		id := e.idOf(o.Addr, o.Kind)
		if o.Addr.R.Tag == "r" {
			return &RowV{'N', rpMulN(rpR(1), rAtom(id))}
		}
		return &RowV{'N', rpMulN(rpR(1), sAtom(id))}
	}
	if o := findOwner(os, pkMk+".PublicKey"); o != nil {
		return &RowV{'N', pkContent(e.idOf(o.Addr, o.Kind), arr(o))}
	}
	if o := findOwner(os, pkMk+".RelinearizationKey"); o != nil {
		return &RowV{'N', rlkContent(e.idOf(o.Addr, o.Kind), idx(o), arr(o))}
	}
	if o := findOwner(os, pkMk+".RotationKey"); o != nil {
		return &RowV{'N', rtkContent(e.idOf(o.Addr, o.Kind), e.rotOf(o.Addr), idx(o))}
	}
	if o := findOwner(os, pkMk+".ConjugationKey"); o != nil {
		return &RowV{'N', cjkContent(e.idOf(o.Addr, o.Kind), idx(o))}
	}
	if o := findOwner(os, pkMk+".Ciphertext"); o != nil {
		k := lastKey(a)
		dom := byte('C')
		ntt := asTerm(e.nttBase(st, a.prefix(len(a.P)-4).field(1, "IsNTT")))
		if ntt.Op == OpTrue {
			dom = 'N'
		} else if ntt.Op != OpFalse {
			if st.cond(ntt) {
				dom = 'N'
			}
		}
		return &RowV{dom, e.ctAtom(o.Addr, k)}
	}
	if o := findOwner(os, pkMk+".HoistedCiphertext"); o != nil && strings.HasPrefix(o.Addr.R.Tag, "hoist:") {
		ct := e.roots[strings.TrimPrefix(o.Addr.R.Tag, "hoist:")]
		k := lastKey(a)
		var ix *Term
		for _, s := range o.Rest {
			if s.K == '[' {
				ix = s.T
				break
			}
		}
		ca := e.ctAddrOf(&Addr{R: ct})
		return &RowV{'N', decAtom(ix, e.lvlOf(ca), e.ctAtom(ca, k))}
	}
	if o := findOwner(os, pkMk+".SwitchingKey"); o != nil {
		args := o.Addr.Args()
		return &RowV{'N', rpAtom(A("swk|"+o.Addr.Skel(), append(args, idx(o))...))}
	}
	if o := findOwner(os, pkRlwe+".Plaintext"); o != nil {
		dom := byte('C')
		if b, ok := e.nttBase(st, a.prefix(len(a.P)-4).field(1, "IsNTT")).(*Term); ok && b.Op != OpFalse {
			if st.cond(b) {
				dom = 'N'
			}
		}
		return &RowV{dom, rpAtom(A("pt|"+o.Addr.Skel(), o.Addr.Args()...))}
	}
	args := a.Args()
	dom := byte('C')
	if a.R.Tag == "N" {
		dom = 'N'
	}
	return &RowV{dom, rpAtom(A("poly|"+a.Skel(), args[:len(args)-1]...))}
}

// ctAddrOf: address of the mkrlwe.Ciphertext of a ciphertext of either package
func (e *Engine) ctAddrOf(a *Addr) *Addr {
	if namedOf(a.R.Typ) == pkMc+".Ciphertext" && len(a.P) == 0 {
		return a.field(0, "Ciphertext").deref()
	}
	return a
}

func (e *Engine) ctAtom(ct *Addr, id *Term) *RP {
	return rpAtom(A("c|"+ct.Skel(), append(ct.Args(), id)...))
}

func decAtom(i, lvl *Term, x *RP) *RP {
	return rpAtom(mkAtom("Dec", []*Term{i, lvl}, []*RP{x}, nil, false))
}

// ---- roots

func (e *Engine) root(id string, t types.Type) *Root {
	if r, ok := e.roots[id]; ok {
		return r
	}
	r := &Root{ID: id, Kind: 'p', Typ: t}
	e.roots[id] = r
	return r
}

func (e *Engine) special(name string) *Addr {
	r, ok := e.roots[name]
	if !ok {
		var t types.Type
		switch name {
		case "ringQ", "ringP":
			t = e.typ(pkRing, "Ring")
		case "ringQP":
			t = e.typ(pkRlwe, "RingQP")
		}
		r = &Root{ID: name, Kind: 'g', Typ: t}
		e.roots[name] = r
	}
	return &Addr{R: r}
}

// ---- words

func (e *Engine) toCoef(st *State, v Val, coord *Term) *CoefV {
	switch x := v.(type) {
	case *CoefV:
		return x
	case *Term:
		return &CoefV{Row: coord, T: []CoefTerm{{K: scalarRP(x)}}}
	}
	panic(unsupported("word value %s", valStr(v)))
}

func scalarRP(t *Term) *RP {
	if t.IsNum() {
		return rpConst(t.Num)
	}
	if t.Sort == SInt {
		// the integers map homomorphically
		ms := monosOf(t)
		ok := true
		r := rpZero
		for _, m := range ms {
			if !m.C.IsInt() {
				ok = false
				break
			}
			c := rpConst(m.C)
			for _, f := range m.F {
				if f.E < 0 {
					ok = false
				}
				for i := 0; i < f.E; i++ {
					c = rpMul(c, rpAtom(A("Kt", f.T)))
				}
			}
			r = rpAdd(r, c)
		}
		if ok {
			return r
		}
	}
	return rpAtom(A("Kt", t))
}

func coefScale(k *RP, c *CoefV) *CoefV {
	n := &CoefV{Row: c.Row}
	for _, t := range c.T {
		t.K = rpMul2(k, t.K)
		n.T = append(n.T, t)
	}
	return n
}

func coefAdd(a, b *CoefV) *CoefV {
	return &CoefV{Row: a.Row, T: append(append([]CoefTerm{}, a.T...), b.T...)}
}

func isQ(t *Term) bool { return t.Op == OpApp && t.Name == "q" }

// specialBinop: arithmetic on residues and on Galois elements
func (e *Engine) specialBinop(st *State, op token.Token, a, b Val) (Val, bool) {
	ca, okA := a.(*CoefV)
	cb, okB := b.(*CoefV)
	if okA || okB {
		same := func(x, y *CoefV) {
			if !st.valid(Eq(x.Row, y.Row)) {
				panic(unsupported("arithmetic on residues of different moduli"))
			}
		}
		if okA && okB {
			switch op {
			case token.ADD:
				same(ca, cb)
				return coefAdd(ca, cb), true
			case token.SUB:
				if ca.Up < 1 || cb.Up > 0 {
					panic(unsupported("difference of residues without reduction"))
				}
				same(ca, cb)
				d := coefAdd(ca, coefScale(rpConst(big.NewRat(-1, 1)), cb))
				d.Up = ca.Up - 1
				return d, true
			case token.OR:
				// the operands are never non-zero together: the guards of their factors are disjoint
				same(ca, cb)
				for _, x := range ca.T {
					for _, y := range cb.T {
						if !e.rpZeroUnder(st, rpMul2(x.K, y.K), nil) {
							panic(unsupported("bitwise or of overlapping residues"))
						}
					}
				}
				return coefAdd(ca, cb), true
			}
			return nil, false
		}
		var t *Term
		var c *CoefV
		var ok bool
		if okA {
			c = ca
			t, ok = b.(*Term)
		} else {
			c = cb
			t, ok = a.(*Term)
		}
		if !ok {
			return nil, false
		}
		switch op {
		case token.MUL:
			// multiplication by a bit
			if st.valid(And(Ge(t, Num(0)), Le(t, Num(1)))) {
				return coefScale(rpGuard(Eq(t, Num(1)), rpConst(ratOne)), c), true
			}
			return nil, false
		case token.ADD:
			if isQ(t) && st.valid(Eq(t.Args[0], c.Row)) {
				return &CoefV{Row: c.Row, T: c.T, Up: c.Up + 1}, true
			}
			if t.IsNum() && t.Num.Sign() == 0 {
				return c, true
			}
		case token.SUB:
			if isQ(t) && okB && st.valid(Eq(t.Args[0], c.Row)) {
				return coefScale(rpConst(big.NewRat(-1, 1)), c), true
			}
		}
		return nil, false
	}
	ga, okA2 := a.(*OpaqueV)
	gb, okB2 := b.(*OpaqueV)
	if okA2 && strings.HasPrefix(ga.Kind, "gal") || okB2 && strings.HasPrefix(gb.Kind, "gal") {
		if okB2 && !okA2 {
			ga = gb
			a, b = b, a
			if op != token.MUL && op != token.AND {
				return nil, false
			}
		}
		t, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		switch {
		case op == token.MUL && ga.Kind == "galEl":
			return &OpaqueV{Kind: "galMul", Args: append(append([]*Term{}, ga.Args...), t)}, true
		case op == token.AND && ga.Kind == "galMul" && st.valid(Eq(t, Sub(symN, Num(1)))):
			return App("galidx", SInt, ga.Args...), true
		case op == token.REM && ga.Kind == "galMul" && st.valid(Eq(t, symN)):
			return App("galidx", SInt, ga.Args...), true
		case op == token.SHR && ga.Kind == "galMul" && st.valid(Eq(t, symLogN)):
			return &OpaqueV{Kind: "galShr", Args: ga.Args}, true
		case op == token.QUO && ga.Kind == "galMul" && st.valid(Eq(t, symN)):
			return &OpaqueV{Kind: "galShr", Args: ga.Args}, true
		case op == token.AND && ga.Kind == "galShr" && st.valid(Eq(t, Num(1))):
			return App("galbit", SInt, ga.Args...), true
		case op == token.REM && ga.Kind == "galShr" && st.valid(Eq(t, Num(2))):
			return App("galbit", SInt, ga.Args...), true
		}
		return nil, false
	}
	if okA2 && okB2 && ga.Kind == "cplx" && gb.Kind == "cplx" {
		switch op {
		case token.ADD:
			return o("cplx", Add(ga.Args[0], gb.Args[0]), Add(ga.Args[1], gb.Args[1])), true
		case token.SUB:
			return o("cplx", Sub(ga.Args[0], gb.Args[0]), Sub(ga.Args[1], gb.Args[1])), true
		}
	}
	return nil, false
}

// subApps: the applications of a function in a term
func subApps(t *Term, name string) []*Term {
	var out []*Term
	seen := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.key] {
			return
		}
		seen[t.key] = true
		if t.Op == OpApp && t.Name == name {
			out = append(out, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, m := range t.Mon {
			for _, f := range m.F {
				rec(f.T)
			}
		}
	}
	rec(t)
	return out
}

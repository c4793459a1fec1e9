package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Root struct {
	ID   string
	Kind byte // 'p' parameter / pre-state object, 'a' allocated here (zero base), 'g' ghost/special
	Tag  string
	Typ  types.Type
}

type Step struct {
	K byte // 'f' field, '*' indirection, '[' index, '{' map value
	N int
	S string
	T *Term
}

// Addr is a location: the object root followed by a path.
type Addr struct {
	Nil  bool
	R    *Root
	RA   []*Term
	P    []Step
	View bool // pointer reinterpreted as pointer to an array starting here
	skel string
}

func nilAddr() *Addr { return &Addr{Nil: true} }

func (a *Addr) with(s ...Step) *Addr {
	p := make([]Step, 0, len(a.P)+len(s))
	p = append(p, a.P...)
	p = append(p, s...)
	return &Addr{R: a.R, RA: a.RA, P: p}
}
func (a *Addr) field(i int, name string) *Addr { return a.with(Step{K: 'f', N: i, S: name}) }
func (a *Addr) deref() *Addr                   { return a.with(Step{K: '*'}) }
func (a *Addr) index(t *Term) *Addr            { return a.with(Step{K: '[', T: t}) }
func (a *Addr) key(t *Term) *Addr              { return a.with(Step{K: '{', T: t}) }

func (a *Addr) Skel() string {
	if a.skel == "" {
		var sb strings.Builder
		sb.WriteString(a.R.ID)
		for _, s := range a.P {
			switch s.K {
			case 'f':
				sb.WriteString("." + s.S)
			case '*':
				sb.WriteString("*")
			case '[':
				sb.WriteString("[]")
			case '{':
				sb.WriteString("{}")
			}
		}
		a.skel = sb.String()
	}
	return a.skel
}

func (a *Addr) Args() []*Term {
	out := append([]*Term{}, a.RA...)
	for _, s := range a.P {
		if s.K == '[' || s.K == '{' {
			out = append(out, s.T)
		}
	}
	return out
}

// withArgs rebuilds the address with other index terms.
func (a *Addr) withArgs(args []*Term) *Addr {
	b := &Addr{R: a.R, View: a.View, Nil: a.Nil}
	b.RA = append([]*Term{}, args[:len(a.RA)]...)
	i := len(a.RA)
	for _, s := range a.P {
		if s.K == '[' || s.K == '{' {
			s.T = args[i]
			i++
		}
		b.P = append(b.P, s)
	}
	return b
}

func (a *Addr) String() string {
	if a == nil || a.Nil {
		return "nil"
	}
	var sb strings.Builder
	sb.WriteString(a.R.ID)
	if len(a.RA) > 0 {
		sb.WriteString("<")
		for i, t := range a.RA {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(t.key)
		}
		sb.WriteString(">")
	}
	for _, s := range a.P {
		switch s.K {
		case 'f':
			sb.WriteString("." + s.S)
		case '*':
			sb.WriteString("*")
		case '[':
			sb.WriteString("[" + s.T.key + "]")
		case '{':
			sb.WriteString("{" + s.T.key + "}")
		}
	}
	if a.View {
		sb.WriteString("@view")
	}
	return sb.String()
}

type SliceV struct {
	Nil           bool
	Base          *Addr
	Off, Len, Cap *Term
	Arr           types.Type // the slice views an array that is kept as a record
}

type MapV struct {
	Nil bool
	A   *Addr
}

type StructV struct {
	T types.Type
	F []Val
}

type TupleV struct{ V []Val }

type IfaceV struct {
	T types.Type // dynamic type; nil for the nil interface
	V Val
}

type FuncV struct {
	Nil  bool
	Fn   *ssa.Function
	Free []Val
	Recv Val // bound method receiver
	Name string
}

// RowV: content of a polynomial row.
type RowV struct {
	Dom byte // 'C' coefficients, 'N' NTT, 'Z' zero (either), '?' unknown
	RP  *RP
}

// CoefV: machine word holding a representative of a residue modulo the modulus of row Row.
// It is a linear combination of words of rows, or a scalar (Idx nil).
type CoefTerm struct {
	K   *RP   // scalar factor
	X   *RP   // row content the word is taken from (nil: scalar)
	Dom byte  //
	Idx *Term // word index
}
type CoefV struct {
	Row *Term
	T   []CoefTerm
	Up  int // multiples of the modulus added, available for a subtraction
	// guarded alternative: value is (Bit==1 ? Alt : this)
}

// OpaqueV: values of external types the engine knows by kind.
type OpaqueV struct {
	Kind string
	Args []*Term
	Data []Val
}

type JunkV struct{ ID string }

func o(kind string, args ...*Term) *OpaqueV { return &OpaqueV{Kind: kind, Args: args} }

func subTerms(ts []*Term, m Subst) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = t.Sub(m)
	}
	return out
}

func subAddr(a *Addr, m Subst) *Addr {
	if a == nil || a.Nil {
		return a
	}
	ch := false
	args := a.Args()
	for i, t := range args {
		args[i] = t.Sub(m)
		if args[i] != t {
			ch = true
		}
	}
	if !ch {
		return a
	}
	return a.withArgs(args)
}

func subVal(v Val, m Subst) Val {
	if len(m) == 0 {
		return v
	}
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return x.Sub(m)
	case *Addr:
		return subAddr(x, m)
	case *SliceV:
		if x.Nil {
			return x
		}
		return &SliceV{Base: subAddr(x.Base, m), Off: x.Off.Sub(m), Len: x.Len.Sub(m), Cap: x.Cap.Sub(m), Arr: x.Arr}
	case *MapV:
		if x.Nil {
			return x
		}
		return &MapV{A: subAddr(x.A, m)}
	case *StructV:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = subVal(x.F[i], m)
		}
		return &StructV{T: x.T, F: f}
	case *TupleV:
		f := make([]Val, len(x.V))
		for i := range f {
			f[i] = subVal(x.V[i], m)
		}
		return &TupleV{f}
	case *IfaceV:
		return &IfaceV{x.T, subVal(x.V, m)}
	case *FuncV:
		f := make([]Val, len(x.Free))
		for i := range f {
			f[i] = subVal(x.Free[i], m)
		}
		return &FuncV{Nil: x.Nil, Fn: x.Fn, Free: f, Recv: subVal(x.Recv, m), Name: x.Name}
	case *RowV:
		return &RowV{x.Dom, x.RP.Sub(m)}
	case *CoefV:
		c := &CoefV{Row: x.Row.Sub(m), Up: x.Up}
		inner := Subst{}
		for k, t := range m {
			if k != ROW.Name {
				inner[k] = t
			}
		}
		for _, t := range x.T {
			n := CoefTerm{K: t.K.Sub(inner), Dom: t.Dom}
			if t.X != nil {
				n.X = t.X.Sub(inner)
				n.Idx = t.Idx.Sub(m)
			}
			c.T = append(c.T, n)
		}
		return c
	case *OpaqueV:
		d := make([]Val, len(x.Data))
		for i := range d {
			d[i] = subVal(x.Data[i], m)
		}
		return &OpaqueV{x.Kind, subTerms(x.Args, m), d}
	case *JunkV:
		return x
	}
	panic(fmt.Sprintf("subVal %T", v))
}

func valStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return x.key
	case *Addr:
		return "&" + x.String()
	case *SliceV:
		if x.Nil {
			return "nilslice"
		}
		return fmt.Sprintf("slice(%s,%s,%s,%s)", x.Base, x.Off, x.Len, x.Cap)
	case *MapV:
		if x.Nil {
			return "nilmap"
		}
		return "map@" + x.A.String()
	case *StructV:
		var s []string
		for _, f := range x.F {
			s = append(s, valStr(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *TupleV:
		var s []string
		for _, f := range x.V {
			s = append(s, valStr(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *IfaceV:
		if x.T == nil {
			return "iface(nil)"
		}
		return "iface(" + x.T.String() + ":" + valStr(x.V) + ")"
	case *FuncV:
		if x.Fn != nil {
			return "func " + x.Fn.String() + valStr(x.Recv)
		}
		return "func " + x.Name
	case *RowV:
		return fmt.Sprintf("row<%c>%s", x.Dom, x.RP.key)
	case *CoefV:
		var s []string
		for _, t := range x.T {
			if t.X == nil {
				s = append(s, "("+t.K.key+")")
			} else {
				s = append(s, fmt.Sprintf("(%s)*word<%c>(%s)[%s]", t.K.key, t.Dom, t.X.key, t.Idx.key))
			}
		}
		return "coef@" + x.Row.key + ":" + strings.Join(s, "+")
	case *OpaqueV:
		var s []string
		for _, t := range x.Args {
			s = append(s, t.key)
		}
		for _, t := range x.Data {
			s = append(s, valStr(t))
		}
		return x.Kind + "<" + strings.Join(s, ",") + ">"
	case *JunkV:
		return "junk" + x.ID
	}
	return fmt.Sprintf("%T", v)
}

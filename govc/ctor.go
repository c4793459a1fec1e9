package main

import (
	"fmt"
	"go/types"
)

// Constructors: they establish what the other goals assume of the objects they work on.

const (
	fnNewDec = pkMk + ".NewDecomposer"
	fnNewKsw = pkMk + ".NewKeySwitcher"
)

func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func init() {
	allContracts[fnNewDec] = &Contract{Fn: fnNewDec, Apply: func(e *Engine, st *State, a []Val, site string) []Outcome {
		if len(a) != 3 {
			return nil
		}
		gm, ok := a[2].(*Term)
		e.require(st, boolT(ok && valStr(a[0]) == valStr(e.special("ringQ")) && valStr(a[1]) == valStr(e.special("ringP"))), "a decomposer for the rings of the parameters", site)
		if ok {
			e.require(st, Eq(gm, symGamma), "a decomposer for the ratio of the parameters", site)
		}
		return []Outcome{{St: st, Val: st.alloc(site+"#mkdecomposer", e.typ(pkMk, "Decomposer"), "")}}
	}}
	allContracts[fnNewKsw] = &Contract{Fn: fnNewKsw, Apply: func(e *Engine, st *State, a []Val, site string) []Outcome {
		if len(a) != 1 {
			return nil
		}
		return []Outcome{{St: st, Val: st.alloc(site+"#ksw", e.typ(pkMk, "KeySwitcher"), "")}}
	}}
	addGoal(&Goal{Name: "ksw.new", Fn: fnNewKsw, Props: []string{"C04", "C05", "C06", "C07", "C14"}, Uses: []string{fnNewDec}, Run: func(g *G) {
		params := g.params()
		g.returns(g.exec(g.newState(), fnNewKsw, params), nil, func(st *State, r Val) {
			ks := asAddr(r)
			t := g.typ(pkMk, "KeySwitcher")
			g.oblige(g.isFresh(ks), "a fresh key switcher", "", valStr(ks))
			v, _ := st.get(ks, t, "Parameters")
			g.valEq(st, v, params, "works with the given parameters")
			v, _ = st.get(ks, t, "Decomposer")
			g.oblige(g.isFresh(v), "a decomposer of its own", "", valStr(v))
			v, _ = st.get(ks, t, "KeySwitcher", "Baseconverter")
			g.oblige(g.isFresh(v), "a basis converter of its own", "", valStr(v))
			// the scratch polynomials
			type poly struct {
				name string
				a    *Addr
				rows *Term
			}
			var ps []poly
			v, _ = st.get(ks, t, "KeySwitcher", "keySwitcherBuffer", "PoolInvNTT")
			ps = append(ps, poly{"PoolInvNTT", asAddr(v), symNQ})
			v, _ = st.get(ks, t, "polyQPool")
			for i, x := range v.(*StructV).F {
				ps = append(ps, poly{fmt.Sprintf("polyQPool[%d]", i), asAddr(x), symNQ})
			}
			v, _ = st.get(ks, t, "KeySwitcher", "keySwitcherBuffer", "Pool")
			for i, x := range v.(*StructV).F[:2] {
				ps = append(ps, poly{fmt.Sprintf("Pool[%d].Q", i), asAddr(x.(*StructV).F[0]), symNQ}, poly{fmt.Sprintf("Pool[%d].P", i), asAddr(x.(*StructV).F[1]), symNP})
			}
			seen := map[string]string{}
			for _, p := range ps {
				g.check(st, Eq(st.polyRows(p.a).Len, p.rows), p.name+" has all moduli")
				a := st.rowAddr(p.a, Num(0))
				g.oblige(a.R.Kind == 'a' && seen[a.String()] == "", p.name+" has storage of its own", "", a.String()+" is "+seen[a.String()])
				seen[a.String()] = p.name
			}
			for _, n := range []string{"swkPool1", "swkPool2", "swkPool3"} {
				v, _ = st.get(ks, t, n)
				g.oblige(g.isFresh(v) && seen[valStr(v)] == "", n+" has storage of its own", "", valStr(v)+" is "+seen[valStr(v)])
				seen[valStr(v)] = n
				g.swkShape(st, asAddr(v))
				val, _ := st.get(asAddr(v), g.typ(pkMk, "SwitchingKey"), "Value")
				g.oblige(g.isFresh(val) && seen[val.(*SliceV).Base.String()] == "", n+" has digits of its own", "", valStr(val))
				seen[val.(*SliceV).Base.String()] = n
				qp := st.read(val.(*SliceV).Base.index(Num(0)), val.(*SliceV).elemT(g))
				for i, x := range qp.(*StructV).F {
					a := st.rowAddr(asAddr(x), Num(0))
					g.oblige(a.R.Kind == 'a' && seen[a.R.ID] == "", n+" has polynomials of its own", "", a.String())
					seen[a.R.ID] = fmt.Sprint(n, i)
				}
			}
			g.frame(st, noChange)
		})
	}})
	fnNewEval := pkMc + ".NewEvaluator"
	addGoal(&Goal{Name: "eval.new", Fn: fnNewEval, Props: []string{"C03", "C04", "C14"}, Uses: []string{fnNewKsw}, Run: func(g *G) {
		params := g.cparams()
		g.returns(g.exec(g.newState(), fnNewEval, params), nil, func(st *State, r Val) {
			ev := asAddr(r)
			t := g.typ(pkMc, "Evaluator")
			g.oblige(g.isFresh(ev), "a fresh evaluator", "", valStr(ev))
			v, _ := st.get(ev, t, "params")
			g.valEq(st, v, params, "works with the given parameters")
			v, _ = st.get(ev, t, "ksw")
			g.oblige(g.isFresh(v), "a key switcher of its own", "", valStr(v))
			v, _ = st.get(ev, t, "polyQPool")
			g.check(st, Eq(st.polyRows(asAddr(v)).Len, symNQ), "the scratch polynomial has all moduli")
			g.oblige(st.rowAddr(asAddr(v), Num(0)).R.Kind == 'a', "the scratch polynomial has storage of its own", "", valStr(v))
			g.check(st, asTerm(st.readLeaf(asAddr(v).field(1, "IsNTT"), tBool)), "the scratch polynomial is in NTT representation")
			v, _ = st.get(ev, t, "ctxtPool")
			g.freshZeroCt(st, asAddr(v), Sub(symNQ, Num(1)), false)
			g.check(st, st.ctHas(asAddr(v), zeroID), "the scratch ciphertext has the common component")
			g.frame(st, noChange)
		})
	}})
}

func (s *SliceV) elemT(g *G) types.Type {
	v := g.typ(pkMk, "SwitchingKey").Underlying().(*types.Struct)
	for i := 0; i < v.NumFields(); i++ {
		if v.Field(i).Name() == "Value" {
			return v.Field(i).Type().Underlying().(*types.Slice).Elem()
		}
	}
	panic(unsupported("SwitchingKey"))
}

package main

import (
	"go/types"
)

// registerEnc: the CKKS encoder. Encode(pt, values, logSlots) writes the
// encoding of values at the plaintext's scale and level; Decode is its inverse.
func registerEnc(e *Engine) {
	x := e.externals
	enc := func(ntt bool) extFn {
		return func(e *Engine, st *State, a []Val, site string) Val {
			pt := asAddr(a[1])
			ptT := e.typ(pkCkks, "Plaintext")
			pv, _ := st.get(pt, ptT, "Plaintext", "Value")
			sc, _ := st.get(pt, ptT, "Scale")
			p := polyArg(pv)
			vals, ok := a[2].(*SliceV)
			if !ok {
				panic(unsupported("encoding of %s", valStr(a[2])))
			}
			msg := App("msg|"+vals.Base.Skel(), SInt, vals.Base.Args()...)
			dom := byte('C')
			if ntt {
				dom = 'N'
			}
			st.writePoly(p, st.polyLevel(p), &RowV{dom, rpAtom(A("encode", msg, asTerm(sc), asTerm(a[3])))})
			b := False
			if ntt {
				b = True
			}
			st.writeLeaf(p.field(1, "IsNTT"), b)
			return nil
		}
	}
	x["("+pkCkks+".Encoder).Encode"] = enc(false)
	x["("+pkCkks+".Encoder).EncodeNTT"] = enc(true)
	x["("+pkCkks+".Encoder).Decode"] = func(e *Engine, st *State, a []Val, site string) Val {
		pt := asAddr(a[1])
		ptT := e.typ(pkCkks, "Plaintext")
		pv, _ := st.get(pt, ptT, "Plaintext", "Value")
		sc, _ := st.get(pt, ptT, "Scale")
		p := polyArg(pv)
		v := st.readPoly(p, st.polyLevel(p))
		isNTT := asTerm(st.readLeaf(p.field(1, "IsNTT"), types.Typ[types.Bool]))
		dom := byte('C')
		if st.cond(isNTT) {
			dom = 'N'
		}
		if v.Dom != dom && v.Dom != 'Z' {
			v = badRow("decode", v)
		}
		r := st.alloc(site+":decoded", types.NewSlice(types.Typ[types.Complex128]), "decoded")
		st.Ghost["decoded:"+r.R.ID] = &OpaqueV{Kind: "decoded", Args: []*Term{asTerm(sc), asTerm(a[2])}, Data: []Val{v, st.polyLevel(p)}}
		n := Pow2(asTerm(a[2]))
		return &SliceV{Base: r, Off: Num(0), Len: n, Cap: n}
	}
	x[pkCkks+".NewEncoder"] = func(e *Engine, st *State, a []Val, site string) Val {
		return &OpaqueV{Kind: "encoder", Data: []Val{a[0]}}
	}
	x[pkCkks+".NewParameters"] = func(e *Engine, st *State, a []Val, site string) Val {
		return &TupleV{[]Val{&OpaqueV{Kind: "ckksParams", Args: []*Term{asTerm(a[1]), asTerm(a[2])}, Data: []Val{a[0]}}, &IfaceV{}}}
	}
}

package main

import (
	"go/types"
	"math/big"
	"strings"
)

// ---- phases

// phase: c_0 + sum over the parties of c_id * s_id, and the common representation
func (g *G) phase(st *State, ct *Addr, lvl *Term, what string) (*RP, byte) {
	return g.phaseOf(st, func(st *State, k *Term) *Term { return st.ctHas(ct, k) }, func(st *State, k *Term) *RowV {
		r, n := st.ctRow(ct, k, lvl)
		if b, ok := n.(*Term); ok && r.Dom != 'Z' && r.Dom != '?' {
			want := b
			if r.Dom == 'C' {
				want = Not(b)
			}
			g.check(st, want, what+": the representation flag is right")
		}
		return r
	}, what)
}

func (g *G) phaseOf(st *State, has func(st *State, k *Term) *Term, row func(st *State, k *Term) *RowV, what string) (*RP, byte) {
	c0 := row(st, zeroID)
	k := Fresh("id", SInt)
	o := st.clone()
	h := And(has(st, k), Neq(k, zeroID))
	o.assume(h)
	if !o.sat() {
		return c0.RP, c0.Dom
	}
	ck := row(o, k)
	dom, ok := domJoin(c0.Dom, ck.Dom)
	g.oblige(ok, what+": all components are in the same representation", "", valStr(c0)+" / "+valStr(ck))
	return rpAdd(c0.RP, rpSum(k, h, rpMul(ck.RP, sAtom(k)))), dom
}

// noiseOnly: the difference consists of noise
func (g *G) noiseOnly(st *State, d *RP, cond []*Term, what string) bool {
	res := g.rpResidue(st, d, cond)
	ok := true
	var bad []Comp
	for _, c := range res {
		if !isNoise(c) {
			ok = false
			bad = append(bad, c)
		}
	}
	return g.oblige(ok, what, "", "difference "+clip(mkRP(bad).key)+"\n  under "+pcStr(st))
}

func upTo(lvl *Term) []*Term { return []*Term{Ge(ROW, Num(0)), Le(ROW, lvl)} }

// maskIs: the residue is one fresh Gaussian error with coefficient one
func (g *G) maskAtom(c Comp) *Atom {
	if len(c.F) == 1 && c.F[0].E == 1 && strings.HasPrefix(c.F[0].A.Kind, "gauss|") && (c.C.Cmp(ratOne) == 0 || c.C.Cmp(big.NewRat(-1, 1)) == 0) && c.G.Op == OpTrue && len(c.B) == 0 {
		return c.F[0].A
	}
	return nil
}

// encrypted: ct is an encryption of m under pk (phase and masks)
func (g *G) encrypted(st *State, ct *Addr, id *Term, lvl *Term, m *RP, mdom byte) {
	c0, n0 := st.ctRow(ct, zeroID, lvl)
	c1, n1 := st.ctRow(ct, id, lvl)
	g.check(st, Eq(st.polyLevel(st.ctPoly(ct, zeroID)), lvl), "level of the constant component")
	g.check(st, Eq(st.polyLevel(st.ctPoly(ct, id)), lvl), "level of the party's component")
	for _, x := range []struct {
		r *RowV
		n Val
	}{{c0, n0}, {c1, n1}} {
		want := asTerm(x.n)
		if x.r.Dom != 'N' {
			want = Not(want)
		}
		g.check(st, want, "representation and flag agree")
	}
	g.oblige(c0.Dom == c1.Dom, "components are in the same representation", "", "")
	ph := rpAdd(c0.RP, rpMul(c1.RP, sAtom(id)))
	g.noiseOnly(st, rpSub(ph, m), upTo(lvl), "the phase is the plaintext plus a small error")
	// masks: c0 = m + u*pk0 + e0, c1 = u*pk1 + e1 with u ternary, e0, e1 Gaussian, all fresh
	var u *Atom
	c0m := g.rpResidue(st, rpSub(c0.RP, m), upTo(lvl))
	c1m := g.rpResidue(st, c1.RP, upTo(lvl))
	for _, c := range append(append([]Comp{}, c0m...), c1m...) {
		for _, f := range c.F {
			if strings.HasPrefix(f.A.Kind, "tern|") {
				if u == nil {
					u = f.A
				}
			}
		}
	}
	if !g.oblige(u != nil, "an ephemeral secret masks the ciphertext", "", clip(c0.RP.key)) {
		return
	}
	var es []*Atom
	for n, cm := range []*RP{rpSub(c0.RP, m), c1.RP} {
		res := g.rpResidue(st, rpSub(cm, rpMul(rpAtom(u), pkContent(id, n))), upTo(lvl))
		var e *Atom
		if len(res) == 1 {
			e = g.maskAtom(res[0])
		}
		g.oblige(e != nil, "every component is the public key times the ephemeral secret plus its own error", "", "component "+clip(cm.key)+" remainder "+clip(mkRP(res).key))
		es = append(es, e)
	}
	if es[0] != nil && es[1] != nil {
		g.oblige(es[0].key != es[1].key, "the errors are different draws", "", es[0].key)
	}
}

func (st *State) ptRow(pt *Addr, lvl *Term) (*RowV, *Addr) {
	v, _ := st.get(pt, st.E.typ(pkRlwe, "Plaintext"), "Value")
	p := asAddr(v)
	return st.readPoly(p, lvl), p
}

func (g *G) ptLevel(pt *Addr) *Term { return App("lvl|"+pt.Skel(), SInt, pt.Args()...) }

func init() {
	goal := func(name, fn string, props []string, run func(g *G)) {
		addGoal(&Goal{Name: name, Fn: fn, Props: props, Run: run})
	}
	p1 := []string{"C01", "C11", "C14"}
	encR, encC := "(*"+pkMk+".Encryptor)", "(*"+pkMc+".Encryptor)"
	samplers := func(g *G, st *State) {
		g.draws(st, func(kind string, s *OpaqueV) bool {
			return kind == "gauss" && strings.HasSuffix(s.Kind, ".gaussianSampler*") || kind == "tern" && strings.HasSuffix(s.Kind, ".ternarySampler*")
		})
	}
	// frame of an encryption: the receiver, only its constant and its party's component
	ctFrame := func(g *G, st *State, ct *Addr, id *Term) func(a *Addr) *Term {
		return func(a *Addr) *Term {
			kk := lastKey(a)
			if kk == nil {
				return nil
			}
			return And(within(ct)(a), Or(Eq(kk, zeroID), Eq(kk, id)))
		}
	}
	goal("enc.Encrypt", encR+".Encrypt", p1, func(g *G) {
		enc, pt, pk, ct := g.ptr("enc", pkMk, "Encryptor"), g.ptr("pt", pkRlwe, "Plaintext"), g.ptr("pk", pkMk, "PublicKey"), g.ptrTag("ct", pkMk, "Ciphertext", "ntt?")
		st := g.newState()
		id := g.keyID(pk, "PublicKey")
		st.addFact(Neq(id, zeroID))
		st.addFact(st.ctHas(ct, id))
		g.returns(g.exec(st, encR+".Encrypt", enc, pt, pk, ct), nil, func(st *State, r Val) {
			p := g.pre(st)
			lv := st.minOf(g.ptLevel(pt), g.lvlOf(ct))
			m, _ := p.ptRow(pt, lv)
			g.encrypted(st, ct, id, lv, m.RP, m.Dom)
			_, n0 := p.ctRow(ct, zeroID, lv)
			_, n1 := st.ctRow(ct, zeroID, lv)
			g.valEq(st, n1, n0, "the receiver keeps its representation")
			samplers(g, st)
			g.frame(st, ctFrame(g, st, ct, id))
		})
	})
	goal("enc.new", pkMk+".NewEncryptor", p1, func(g *G) {
		g.returns(g.exec(g.newState(), pkMk+".NewEncryptor", g.params()), nil, func(st *State, r Val) {
			g.encryptorInv(st, asAddr(r))
			g.frame(st, noChange)
		})
	})
	goal("ckks.enc.new", pkMc+".NewEncryptor", p1, func(g *G) {
		g.returns(g.exec(g.newState(), pkMc+".NewEncryptor", g.cparams()), nil, func(st *State, r Val) {
			t := g.typ(pkMc, "Encryptor")
			e, _ := st.get(asAddr(r), t, "Encryptor")
			g.encryptorInv(st, asAddr(e))
			v, _ := st.get(asAddr(r), t, "ptxtPool", "Plaintext", "Value")
			g.check(st, Eq(st.polyLevel(asAddr(v)), Sub(symNQ, Num(1))), "the encoding buffer has all moduli")
			sc, _ := st.get(asAddr(r), t, "ptxtPool", "Scale")
			g.check(st, Eq(asTerm(sc), symScale), "the encoding buffer has the default scale")
			g.encoderInv(st, asAddr(r), t)
			g.frame(st, noChange)
		})
	})
	goal("ckks.enc.EncryptPtxt", encC+".EncryptPtxt", p1, func(g *G) {
		enc, pt, pk, ct := g.ptr("enc", pkMc, "Encryptor"), g.ptr("pt", pkCkks, "Plaintext"), g.ptr("pk", pkMk, "PublicKey"), g.ptrTag("ct", pkMc, "Ciphertext", "ntt?")
		st := g.newState()
		id := g.keyID(pk, "PublicKey")
		st.addFact(Neq(id, zeroID))
		in := st.innerCt(ct)
		st.addFact(st.ctHas(in, id))
		g.returns(g.exec(st, encC+".EncryptPtxt", enc, pt, pk, ct), nil, func(st *State, r Val) {
			p := g.pre(st)
			pv, _ := p.get(pt, g.typ(pkCkks, "Plaintext"), "Plaintext", "Value")
			lv := st.minOf(p.polyLevel(asAddr(pv)), g.lvlOf(in))
			m := p.readPoly(asAddr(pv), lv)
			g.encrypted(st, st.innerCt(ct), id, lv, m.RP, m.Dom)
			sc, _ := st.get(ct, g.typ(pkMc, "Ciphertext"), "Scale")
			ps, _ := p.get(pt, g.typ(pkCkks, "Plaintext"), "Scale")
			g.check(st, Eq(asTerm(sc), asTerm(ps)), "the ciphertext has the scale of the plaintext")
			samplers(g, st)
			fr := ctFrame(g, st, in, id)
			g.frame(st, anyOf(fr, within(ct.field(1, "Scale"))))
		})
	})
	msgOf := func(g *G) (*Addr, func(st *State) *RP) {
		msg := g.ptr("msg", pkMc, "Message")
		return msg, func(st *State) *RP {
			v, _ := st.get(msg, g.typ(pkMc, "Message"), "Value")
			b := v.(*SliceV).Base
			return rpAtom(A("encode", App("msg|"+b.Skel(), SInt, b.Args()...), symScale, symLogS))
		}
	}
	poolOK := func(g *G, st *State, enc *Addr) {
		// invariant of the encryptor: its buffer has all moduli and the default scale
		v, _ := st.get(enc, g.typ(pkMc, "Encryptor"), "ptxtPool", "Plaintext", "Value")
		st.addFact(Eq(st.polyLevel(asAddr(v)), Sub(symNQ, Num(1))))
		sc, _ := st.get(enc, g.typ(pkMc, "Encryptor"), "ptxtPool", "Scale")
		st.addFact(Eq(asTerm(sc), symScale))
	}
	poolKept := func(g *G, st *State, enc *Addr) {
		v, _ := st.get(enc, g.typ(pkMc, "Encryptor"), "ptxtPool", "Plaintext", "Value")
		g.check(st, Eq(st.polyLevel(asAddr(v)), Sub(symNQ, Num(1))), "the encoding buffer keeps all moduli")
		sc, _ := st.get(enc, g.typ(pkMc, "Encryptor"), "ptxtPool", "Scale")
		g.check(st, Eq(asTerm(sc), symScale), "the encoding buffer keeps the default scale")
	}
	encPool := func(enc *Addr) func(a *Addr) *Term {
		return func(a *Addr) *Term {
			if a.R == enc.R && strings.Contains(a.Skel(), ".ptxtPool") && strings.HasSuffix(a.Skel(), ".IsNTT") {
				return True
			}
			return nil
		}
	}
	goal("ckks.enc.EncryptMsg", encC+".EncryptMsg", p1, func(g *G) {
		enc, pk, ct := g.ptr("enc", pkMc, "Encryptor"), g.ptr("pk", pkMk, "PublicKey"), g.ptrTag("ct", pkMc, "Ciphertext", "ntt?")
		msg, m := msgOf(g)
		st := g.newState()
		id := g.keyID(pk, "PublicKey")
		st.addFact(Neq(id, zeroID))
		in := st.innerCt(ct)
		st.addFact(st.ctHas(in, id))
		poolOK(g, st, enc)
		g.returns(g.exec(st, encC+".EncryptMsg", enc, msg, pk, ct), nil, func(st *State, r Val) {
			p := g.pre(st)
			g.encrypted(st, st.innerCt(ct), id, g.lvlOf(in), m(p), 'C')
			sc, _ := st.get(ct, g.typ(pkMc, "Ciphertext"), "Scale")
			g.check(st, Eq(asTerm(sc), symScale), "the ciphertext has the default scale")
			poolKept(g, st, enc)
			samplers(g, st)
			g.frame(st, anyOf(ctFrame(g, st, in, id), within(ct.field(1, "Scale")), encPool(enc)))
		})
	})
	for _, expand := range []bool{false, true} {
		expand := expand
		fn, nm := encC+".EncryptMsgNew", "ckks.enc.EncryptMsgNew"
		if expand {
			fn, nm = encC+".EncryptMsgNewExpand", "ckks.enc.EncryptMsgNewExpand"
		}
		goal(nm, fn, p1, func(g *G) {
			enc, pk := g.ptr("enc", pkMc, "Encryptor"), g.ptr("pk", pkMk, "PublicKey")
			msg, m := msgOf(g)
			st := g.newState()
			id := g.keyID(pk, "PublicKey")
			k := str("k")
			st.addFact(Neq(id, zeroID))
			poolOK(g, st, enc)
			args := []Val{enc, msg, pk}
			var set *Addr
			has := func(st *State, k *Term) *Term {
				if set == nil {
					return Eq(k, id)
				}
				mv, _ := st.get(set, g.typ(pkMk, "IDSet"), "Value")
				return st.mapHas(mv.(*MapV), k)
			}
			if expand {
				set = g.ptr("set", pkMk, "IDSet")
				st.addFact(has(st, id))
				args = append(args, set)
			}
			g.returns(g.exec(st, fn, args...), nil, func(st *State, r Val) {
				p := g.pre(st)
				ct := asAddr(r)
				in := st.innerCt(ct)
				want := Or(Eq(k, zeroID), has(p, k))
				g.check(st, And(Implies(st.ctHas(in, k), want), Implies(want, st.ctHas(in, k))), "one component per party and the constant one")
				top := Sub(symNQ, Num(1))
				g.encrypted(st, in, id, top, m(p), 'C')
				o := st.clone()
				o.assume(And(st.ctHas(in, k), Neq(k, zeroID), Neq(k, id)))
				if o.sat() {
					g.branch(o, func(o *State) {
						row, n := o.ctRow(in, k, top)
						g.rowIs(o, row, 'Z', rpZero, upTo(top), "padding is zero")
						_, n0 := o.ctRow(in, zeroID, top)
						g.valEq(o, n, n0, "padding has the same representation flag")
						g.check(o, Eq(o.polyLevel(o.ctPoly(in, k)), top), "padding has the same level")
					})
				}
				o = st.clone()
				o.assume(st.ctHas(in, k))
				g.branch(o, func(o *State) {
					pa := o.rowAddr(o.ctPoly(in, k), Num(0))
					g.oblige(pa.R.Kind == 'a', "the ciphertext has storage of its own", "", valStr(pa))
					g.distinctPolys(o, in, k)
				})
				sc, _ := st.get(ct, g.typ(pkMc, "Ciphertext"), "Scale")
				g.check(st, Eq(asTerm(sc), symScale), "the ciphertext has the default scale")
				poolKept(g, st, enc)
				samplers(g, st)
				g.frame(st, encPool(enc))
			})
		})
	}
	goal("ckks.enc.EncodeMsgNew", encC+".EncodeMsgNew", []string{"C01", "C09", "C14"}, func(g *G) {
		enc := g.ptr("enc", pkMc, "Encryptor")
		msg, m := msgOf(g)
		st := g.newState()
		g.returns(g.exec(st, encC+".EncodeMsgNew", enc, msg), nil, func(st *State, r Val) {
			pt := asAddr(r)
			t := g.typ(pkCkks, "Plaintext")
			v, _ := st.get(pt, t, "Plaintext", "Value")
			poly := asAddr(v)
			top := Sub(symNQ, Num(1))
			g.check(st, Eq(st.polyLevel(poly), top), "the plaintext has the top level")
			row := st.readPoly(poly, top)
			isN := asTerm(st.readLeaf(poly.field(1, "IsNTT"), tBool))
			dom := byte('C')
			if st.cond(isN) {
				dom = 'N'
			}
			g.rowIs(st, row, dom, m(g.pre(st)), upTo(top), "the plaintext encodes the message")
			sc, _ := st.get(pt, t, "Scale")
			g.check(st, Eq(asTerm(sc), symScale), "the plaintext has the default scale")
			g.oblige(g.isFresh(pt) && g.isFresh(poly), "the plaintext is fresh", "", "")
			g.frame(st, noChange)
		})
	})
	// ---- decryption
	p2 := []string{"C01", "C02"}
	decR, decC := "(*"+pkMk+".Decryptor)", "(*"+pkMc+".Decryptor)"
	skHas := func(st *State, set *Addr, k *Term) *Term {
		v, _ := st.get(set, st.E.typ(pkMk, "SecretKeySet"), "Value")
		return st.mapHas(v.(*MapV), k)
	}
	goal("dec.PartialDecrypt", decR+".PartialDecrypt", p2, func(g *G) {
		dec, ct, sk := g.ptr("dec", pkMk, "Decryptor"), g.ptrTag("ct", pkMk, "Ciphertext", "ntt?"), g.skp("sk")
		st := g.newState()
		id, k := g.keyID(sk, "SecretKey"), str("k")
		st.addFact(Neq(id, zeroID))
		st.addFact(st.ctHas(ct, id))
		g.returns(g.exec(st, decR+".PartialDecrypt", dec, ct, sk), nil, func(st *State, r Val) {
			p := g.pre(st)
			g.check(st, And(Implies(st.ctHas(ct, k), And(p.ctHas(ct, k), Neq(k, id))), Implies(And(p.ctHas(ct, k), Neq(k, id)), st.ctHas(ct, k))), "exactly the party is taken out")
			lv := g.lvlOf(ct)
			ph0, d0 := g.phase(p, ct, lv, "before")
			ph1, d1 := g.phase(st, ct, lv, "after")
			g.oblige(d0 == d1, "the representation is kept", "", "")
			g.check(st, Eq(st.polyLevel(st.ctPoly(ct, zeroID)), lv), "the level is kept")
			d := rpSub(ph1, ph0)
			res := g.rpResidue(st, d, upTo(lv))
			g.oblige(len(res) == 0, "the phase under the remaining keys is kept exactly", "", clip(mkRP(res).key))
			g.frame(st, func(a *Addr) *Term {
				kk := lastKey(a)
				if kk == nil {
					return nil
				}
				return And(within(ct)(a), Or(Eq(kk, zeroID), Eq(kk, id)))
			})
		})
	})
	goal("dec.Decrypt", decR+".Decrypt", p2, func(g *G) {
		dec, ct, set, pt := g.ptr("dec", pkMk, "Decryptor"), g.ptrTag("ct", pkMk, "Ciphertext", "ntt?"), g.ptr("set", pkMk, "SecretKeySet"), g.ptr("pt", pkRlwe, "Plaintext")
		st := g.newState()
		g.returns(g.exec(st, decR+".Decrypt", dec, ct, set, pt), func(st *State) *Term {
			p := g.pre(st)
			return missing(func(k *Term) *Term { return skHas(p, set, k) }, func(k *Term) *Term { return p.ctHas(ct, k) })
		}, func(st *State, r Val) {
			p := g.pre(st)
			lv := st.minOf(g.lvlOf(ct), g.ptLevel(pt))
			ph, dom := g.phase(p, ct, lv, "ciphertext")
			row, pp := st.ptRow(pt, lv)
			g.check(st, Eq(st.polyLevel(pp), lv), "the plaintext has the common level")
			g.rowIs(st, row, dom, ph, upTo(lv), "the plaintext is the phase of the ciphertext")
			g.frame(st, within(pt))
		})
	})
	goal("dec.new", pkMk+".NewDecryptor", p2, func(g *G) {
		g.returns(g.exec(g.newState(), pkMk+".NewDecryptor", g.params()), nil, func(st *State, r Val) {
			g.oblige(g.isFresh(r), "a fresh decryptor", "", "")
			v, _ := st.get(asAddr(r), g.typ(pkMk, "Decryptor"), "ringQ")
			g.oblige(valStr(v) == valStr(g.special("ringQ")), "works in the ciphertext ring", "", valStr(v))
			g.frame(st, noChange)
		})
	})
	goal("ckks.dec.new", pkMc+".NewDecryptor", p2, func(g *G) {
		g.returns(g.exec(g.newState(), pkMc+".NewDecryptor", g.cparams()), nil, func(st *State, r Val) {
			g.oblige(g.isFresh(r), "a fresh decryptor", "", "")
			v, _ := st.get(asAddr(r), g.typ(pkMc, "Decryptor"), "ptxtPool", "Plaintext", "Value")
			s := st.polyRows(asAddr(v))
			g.check(st, Ge(s.Cap, symNQ), "the decoding buffer has room for all moduli")
			g.check(st, Not(asTerm(st.readLeaf(asAddr(v).field(1, "IsNTT"), tBool))), "the decoding buffer is in coefficient representation")
			g.encoderInv(st, asAddr(r), g.typ(pkMc, "Decryptor"))
			g.frame(st, noChange)
		})
	})
	goal("ckks.dec.PartialDecrypt", decC+".PartialDecrypt", p2, func(g *G) {
		dec, ct, sk := g.ptr("dec", pkMc, "Decryptor"), g.ptrTag("ct", pkMc, "Ciphertext", "ntt?"), g.skp("sk")
		st := g.newState()
		in := st.innerCt(ct)
		id, k := g.keyID(sk, "SecretKey"), str("k")
		st.addFact(Neq(id, zeroID))
		st.addFact(st.ctHas(in, id))
		g.returns(g.exec(st, decC+".PartialDecrypt", dec, ct, sk), nil, func(st *State, r Val) {
			p := g.pre(st)
			g.check(st, And(Implies(st.ctHas(in, k), And(p.ctHas(in, k), Neq(k, id))), Implies(And(p.ctHas(in, k), Neq(k, id)), st.ctHas(in, k))), "exactly the party is taken out")
			lv := g.lvlOf(in)
			ph0, _ := g.phase(p, in, lv, "before")
			ph1, _ := g.phase(st, in, lv, "after")
			res := g.rpResidue(st, rpSub(ph1, ph0), upTo(lv))
			g.oblige(len(res) == 0, "the phase under the remaining keys is kept exactly", "", clip(mkRP(res).key))
			g.frame(st, func(a *Addr) *Term {
				kk := lastKey(a)
				if kk == nil {
					return nil
				}
				return And(within(in)(a), Or(Eq(kk, zeroID), Eq(kk, id)))
			})
		})
	})
	goal("ckks.dec.Decrypt", decC+".Decrypt", p2, func(g *G) {
		dec, ct, set := g.ptr("dec", pkMc, "Decryptor"), g.ptr("ct", pkMc, "Ciphertext"), g.ptr("set", pkMk, "SecretKeySet")
		st := g.newState()
		in := st.innerCt(ct)
		g.returns(g.exec(st, decC+".Decrypt", dec, ct, set), func(st *State) *Term {
			p := g.pre(st)
			return missing(func(k *Term) *Term { return skHas(p, set, k) }, func(k *Term) *Term { return p.ctHas(in, k) })
		}, func(st *State, r Val) {
			p := g.pre(st)
			v, _ := st.get(asAddr(r), g.typ(pkMc, "Message"), "Value")
			d, ok := st.Ghost["decoded:"+v.(*SliceV).Base.R.ID].(*OpaqueV)
			if !g.oblige(ok, "the message is a decoded plaintext", "", valStr(v)) {
				return
			}
			lv := g.lvlOf(in)
			g.check(st, Eq(asTerm(d.Data[1]), lv), "decoded at the level of the ciphertext")
			sc, _ := p.get(ct, g.typ(pkMc, "Ciphertext"), "Scale")
			g.check(st, Eq(d.Args[0], asTerm(sc)), "decoded at the scale of the ciphertext")
			g.check(st, Eq(d.Args[1], symLogS), "all slots are decoded")
			ph, dom := g.phase(p, in, lv, "ciphertext")
			g.rowIs(st, d.Data[0].(*RowV), dom, ph, upTo(lv), "the decoded plaintext is the phase of the ciphertext")
			g.frame(st, func(a *Addr) *Term {
				if a.R == dec.R && strings.Contains(a.Skel(), ".ptxtPool") && (strings.HasSuffix(a.Skel(), ".Scale") || strings.HasSuffix(a.Skel(), ".Coeffs")) {
					return True
				}
				return nil
			})
		})
	})
}

func (g *G) cparams() Val {
	st := g.newState()
	return st.read(g.ptr("params", pkMc, "Parameters"), g.typ(pkMc, "Parameters"))
}

// encoderInv: the encoder and the parameters kept by a mkckks encryptor or decryptor
func (g *G) encoderInv(st *State, a *Addr, t types.Type) {
	v, _ := st.get(a, t, "encoder")
	if i, ok := v.(*IfaceV); ok && i.V != nil {
		v = i.V
	}
	d, ok := v.(*OpaqueV)
	if !g.oblige(ok && d.Kind == "encoder", "the encoder is set up", "", valStr(v)) {
		return
	}
	p, ok := d.Data[0].(*OpaqueV)
	if g.oblige(ok && p.Kind == "ckksParams" && len(p.Args) == 2, "the encoder is set up from the parameters", "", valStr(d.Data[0])) {
		g.check(st, Eq(p.Args[0], symLogS), "the encoder works with the number of slots of the parameters")
	}
	for f, want := range map[string]*Term{"logSlots": symLogS, "scale": symScale} {
		x, _ := st.get(a, t, "params", f)
		g.check(st, Eq(asTerm(x), want), "the parameters are kept: "+f)
	}
}

// encryptorInv: samplers and scratch of a fresh encryptor
func (g *G) encryptorInv(st *State, e *Addr) {
	t := g.typ(pkMk, "Encryptor")
	for _, f := range []struct{ n, typ, kind string }{{"gaussianSampler", "GaussianSampler", "sampler:gauss"}, {"ternarySampler", "TernarySampler", "sampler:tern"}} {
		v, _ := st.get(e, t, "encryptorBase", f.n)
		s := st.samplerOf(v, f.typ)
		g.samplerIs(st, s, f.kind, f.n)
		g.oblige(strings.Contains(valStr(s), "ringQ"), f.n+" samples in the ciphertext ring", "", valStr(s))
		if f.kind == "sampler:tern" {
			g.oblige(asTerm(s.Data[1]).Op == OpFalse, "the ternary sampler does not use Montgomery form", "", valStr(s))
		}
	}
	fa, ft := g.fieldAddr(e, t, "encryptorBase", "poolQ")
	el := ft.Underlying().(*types.Array).Elem()
	p := asAddr(st.read(arrayElem(fa, ft, Num(0)), el))
	g.check(st, Eq(st.polyRows(p).Len, symNQ), "the scratch polynomial has all moduli")
	g.oblige(g.isFresh(e) && g.isFresh(p), "a fresh encryptor", "", "")
}

// missing: some party has no key
func missing(has func(k *Term) *Term, in func(k *Term) *Term) *Term {
	x := Sym("party", SInt)
	return Not(Forall([]*Term{x}, Implies(And(in(x), Neq(x, zeroID)), has(x))))
}

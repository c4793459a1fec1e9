package main

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	props["C13"] = c13
}

func setOf(s *mkrlwe.IDSet) map[string]bool {
	m := map[string]bool{}
	for k := range s.Value {
		m[k] = true
	}
	return m
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func c13(t *T) {
	univ := []string{"", "00", "a", "b", "user0", "0 ", "π"}
	mk := func(bits int) (*mkrlwe.IDSet, map[string]bool) {
		s := mkrlwe.NewIDSet()
		m := map[string]bool{}
		for i, u := range univ {
			if bits>>uint(i)&1 == 1 {
				s.Add(u)
				m[u] = true
			}
		}
		return s, m
	}
	full := 1 << uint(len(univ))
	stepB := 5
	if t.thorough {
		stepB = 1
	}
	for a := 0; a < full; a++ {
		t.run(fmt.Sprintf("C13 party set %b", a), func() {
			s, m := mk(a)
			t.check(sameSet(setOf(s), m) && s.Size() == len(m), "Add/Size: %v", s.Value)
			for _, u := range append(univ, "0", "zz") {
				t.check(s.Has(u) == m[u], "Has(%q)=%v", u, s.Has(u))
			}
			cp := s.CopyNew()
			t.check(sameSet(setOf(cp), m), "CopyNew: %v", cp.Value)
			for _, u := range univ {
				cp.Remove(u)
				t.check(!cp.Has(u), "Remove(%q)", u)
			}
			t.check(cp.Size() == 0 && sameSet(setOf(s), m), "removing from a copy touched the original")
			cp = s.CopyNew()
			cp.Add("new")
			t.check(!s.Has("new"), "adding to a copy touched the original")
			s.Remove("absent")
			for _, u := range univ {
				s.Add(u)
				m[u] = true
			}
			t.check(sameSet(setOf(s), m) && s.Size() == len(m), "repeated Add")
			t.check(panics(func() { s.Add("0") }) && !s.Has("0") && s.Size() == len(m), "the reserved id was admitted")
			s.Remove("a")
			delete(m, "a")
			t.check(sameSet(setOf(s), m) && s.Size() == len(m), "Remove")
		})
		for b := a % stepB; b < full; b += stepB {
			t.run(fmt.Sprintf("C13 party sets %b %b", a, b), func() {
				x, mx := mk(a)
				y, my := mk(b)
				u, i := map[string]bool{}, map[string]bool{}
				for k := range mx {
					u[k] = true
					if my[k] {
						i[k] = true
					}
				}
				for k := range my {
					u[k] = true
				}
				ru, ri := x.Union(y), x.Intersection(y)
				t.check(sameSet(setOf(ru), u), "Union: %v", ru.Value)
				t.check(sameSet(setOf(ri), i), "Intersection: %v", ri.Value)
				ru.Add("q")
				ri.Add("q")
				for k := range u {
					ru.Remove(k)
					ri.Remove(k)
				}
				t.check(sameSet(setOf(x), mx) && sameSet(setOf(y), my), "operands changed")
			})
		}
	}
	xx, _ := mk(5)
	t.run("C13 union with itself", func() {
		t.check(sameSet(setOf(xx.Union(xx)), setOf(xx)) && sameSet(setOf(xx.Intersection(xx)), setOf(xx)), "idempotence")
	})

	// key sets against maps, random histories
	p := mkrlweParams(0)
	nh := 60
	if t.thorough {
		nh = 600
	}
	for hist := 0; hist < nh; hist++ {
		t.run(fmt.Sprintf("C13 key set history %d", hist), func() {
			sks, pks, cks := mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewConjugationKeySet()
			rls, rts := mkrlwe.NewRelinearizationKeyKeySet(p), mkrlwe.NewRotationKeySet()
			ms, mp, mc, mr := map[string]*mkrlwe.SecretKey{}, map[string]*mkrlwe.PublicKey{}, map[string]*mkrlwe.ConjugationKey{}, map[string]*mkrlwe.RelinearizationKey{}
			mt := map[string]*mkrlwe.RotationKey{}
			key := func(id string, r uint) string { return fmt.Sprintf("%d/%s", r, id) }
			rots := []uint{0, 1, 2}
			if hist%3 == 1 {
				b := uint(1) << uint(1+t.rng.Intn(63))
				rots = []uint{uint(t.rng.Intn(3)), b, b + 1, b - 1, ^uint(0) - uint(t.rng.Intn(3))}
			}
			for step := 0; step < 25; step++ {
				id := univ[t.rng.Intn(4)]
				rot := rots[t.rng.Intn(len(rots))]
				if t.rng.Intn(3) > 0 {
					switch t.rng.Intn(5) {
					case 0:
						k := &mkrlwe.SecretKey{ID: id}
						if hist%3 == 2 {
							k = mkrlwe.NewSecretKey(p, id)
						}
						sks.AddSecretKey(k)
						ms[id] = k
					case 1:
						k := &mkrlwe.PublicKey{ID: id}
						if hist%3 == 2 {
							k = mkrlwe.NewPublicKey(p, id)
						}
						pks.AddPublicKey(k)
						mp[id] = k
					case 2:
						k := &mkrlwe.ConjugationKey{ID: id}
						if hist%3 == 2 {
							k = mkrlwe.NewConjugationKey(p, id)
						}
						cks.AddConjugationKey(k)
						mc[id] = k
					case 3:
						k := &mkrlwe.RelinearizationKey{ID: id}
						if hist%3 == 2 {
							k = mkrlwe.NewRelinearizationKey(p, id)
						}
						rls.AddRelinearizationKey(k)
						mr[id] = k
					case 4:
						k := &mkrlwe.RotationKey{ID: id, RotIdx: rot}
						if hist%3 == 2 {
							k = mkrlwe.NewRotationKey(p, rot, id)
						}
						rts.AddRotationKey(k)
						mt[key(id, rot)] = k
					}
				} else {
					switch t.rng.Intn(5) {
					case 0:
						sks.DelSecretKey(id)
						delete(ms, id)
					case 1:
						pks.DelPublicKey(id)
						delete(mp, id)
					case 2:
						cks.DelConjugationKey(id)
						delete(mc, id)
					case 3:
						rls.DelRelinearizationKey(id)
						delete(mr, id)
					case 4:
						rts.DelRotationKey(id, rot)
						delete(mt, key(id, rot))
					}
				}
				for _, id := range univ[:4] {
					t.lookup("secret", id, ms[id] != nil, func() bool { return sks.GetSecretKey(id) == ms[id] })
					t.lookup("public", id, mp[id] != nil, func() bool { return pks.GetPublicKey(id) == mp[id] })
					t.lookup("conjugation", id, mc[id] != nil, func() bool { return cks.GetConjugationKey(id) == mc[id] })
					t.lookup("relinearization", id, mr[id] != nil, func() bool { return rls.GetRelinearizationKey(id) == mr[id] })
					for _, r := range rots {
						t.lookup(fmt.Sprintf("rotation(%d)", r), id, mt[key(id, r)] != nil, func() bool { return rts.GetRotationKey(id, r) == mt[key(id, r)] })
					}
					if mr[id] != nil {
						for w := 0; w < 2; w++ {
							hp := rls.HoistPool[w].Value[id]
							t.check(hp != nil && len(hp.Value) == bet(p), "no hoisting buffer for %q", id)
						}
					}
				}
				t.check(len(sks.Value) == len(ms) && len(pks.Value) == len(mp) && len(cks.Value) == len(mc) && len(rls.Value) == len(mr), "key set holds other keys")
			}
		})
	}

	// ciphertexts
	for si, ps := range psets {
		c := newCtx(ps, 4)
		if si > 1 && !t.thorough {
			continue
		}
		for bits := 0; bits < 16; bits++ {
			var ids []string
			for i, u := range c.ids {
				if bits>>uint(i)&1 == 1 {
					ids = append(ids, u)
				}
			}
			for lvl := 0; lvl <= c.params.MaxLevel(); lvl++ {
				for _, ntt := range []bool{false, true} {
					t.run(fmt.Sprintf("C13 %s ciphertext of %q level=%d ntt=%v", ps.Name, ids, lvl, ntt), func() {
						set := idset(ids...)
						ct := mkrlwe.NewCiphertext(c.params.Parameters, set, lvl)
						if ntt {
							ct = mkrlwe.NewCiphertextNTT(c.params.Parameters, set, lvl)
						}
						t.ids("NewCiphertext", ct, ids...)
						t.level("NewCiphertext", ct, lvl)
						t.check(ct.Level() == lvl, "Level()=%d", ct.Level())
						for id, p := range ct.Value {
							t.check(p.IsNTT == ntt, "component %q IsNTT=%v", id, p.IsNTT)
							t.check(allZero(p), "new component %q is not zero", id)
							t.check(len(p.Coeffs[0]) == c.params.N(), "component %q has degree %d", id, len(p.Coeffs[0]))
						}
						own := storage(ct)
						for id, p := range ct.Value {
							for id2, p2 := range ct.Value {
								if id != id2 {
									t.disjoint("NewCiphertext", storage(p), storage(p2))
								}
							}
						}
						for _, p := range ct.Value {
							for j := range p.Coeffs {
								for w := range p.Coeffs[j] {
									p.Coeffs[j][w] = t.rng.Uint64() % c.params.RingQ().Modulus[j]
								}
							}
						}
						t.check(sameSet(setOf(ct.IDSet()), setOf(set)), "IDSet: %v", ct.IDSet().Value)
						full := &mkckks.Ciphertext{Ciphertext: ct, Scale: 123.5}
						h := deepHash(nil, full)
						cp := full.CopyNew()
						t.check(deepHash(nil, cp) == h && cp.Scale == 123.5, "copy differs")
						t.disjoint("copy", storage(cp), own)
						for _, p := range cp.Value {
							p.Zero()
							p.IsNTT = !p.IsNTT
						}
						delete(cp.Value, "0")
						t.check(deepHash(nil, full) == h, "changing a copy changed the original")
						// Copy into an existing receiver
						rc := mkrlwe.NewCiphertext(c.params.Parameters, set, lvl)
						rc.Copy(ct)
						t.check(deepHash(nil, rc) == deepHash(nil, ct), "Copy differs")
						t.disjoint("Copy", storage(rc), storage(ct))
						// padding
						for pb := 0; pb < 16; pb += 3 {
							var pid []string
							for i, u := range c.ids {
								if pb>>uint(i)&1 == 1 {
									pid = append(pid, u)
								}
							}
							x := ct.CopyNew()
							before := map[string]*ring.Poly{}
							hb := map[string]uint64{}
							for id, p := range x.Value {
								before[id] = p
								hb[id] = deepHash(nil, p)
							}
							pset := idset(pid...)
							x.PadCiphertext(pset)
							t.ids("PadCiphertext", x, union(ids, pid)...)
							t.level("PadCiphertext", x, lvl)
							for id, p := range x.Value {
								if before[id] != nil {
									t.check(p == before[id] && deepHash(nil, p) == hb[id], "padding touched component %q", id)
								} else {
									t.check(allZero(p) && p.IsNTT == ntt && len(p.Coeffs[0]) == c.params.N(), "padded component %q is not a zero of the right kind", id)
								}
							}
							t.check(pset.Size() == len(pid), "padding changed the id set")
						}
					})
				}
			}
		}
		t.run("C13 "+ps.Name+" key copies", func() {
			sk, pk := c.sks.Value[c.ids[0]], c.pks.Value[c.ids[0]]
			h := deepHash(nil, sk, pk)
			s2, p2 := sk.CopyNew(), pk.CopyNew()
			t.check(deepHash(nil, s2, p2) == h, "key copies differ")
			t.disjoint("secret key copy", storage(s2), storage(sk))
			t.disjoint("public key copy", storage(p2), storage(pk))
			s2.Value.Q.Zero()
			s2.Value.P.Zero()
			for i := range p2.Value {
				p2.Value[i].Q.Zero()
				p2.Value[i].P.Zero()
			}
			t.check(deepHash(nil, sk, pk) == h, "changing a key copy changed the original")
			t.check((*mkrlwe.SecretKey)(nil).CopyNew() == nil && (*mkrlwe.PublicKey)(nil).CopyNew() == nil, "copy of nil")
		})
	}
}

func allZero(p *ring.Poly) bool {
	for _, r := range p.Coeffs {
		for _, x := range r {
			if x != 0 {
				return false
			}
		}
	}
	return true
}

func (t *T) lookup(what, id string, present bool, get func() bool) {
	if present {
		t.check(get(), "%s key of %q: lookup returned another key", what, id)
	} else {
		t.check(panics(func() { get() }), "%s key of %q: lookup of an absent key did not refuse", what, id)
	}
}

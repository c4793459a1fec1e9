package main

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
}

// mkctx is a context at the mkrlwe level.
type rctx struct {
	name   string
	params mkrlwe.Parameters
	kgen   *mkrlwe.KeyGenerator
	sks    *mkrlwe.SecretKeySet
	pks    *mkrlwe.PublicKeySet
	enc    *mkrlwe.Encryptor
	dec    *mkrlwe.Decryptor
}

func newRctx(i int, ids ...string) *rctx {
	c := &rctx{name: rlweSets[i].Name, params: mkrlweParams(i)}
	c.kgen = mkrlwe.NewKeyGenerator(c.params)
	c.sks = mkrlwe.NewSecretKeySet()
	c.pks = mkrlwe.NewPublicKeyKeySet()
	for _, id := range ids {
		sk, pk := c.kgen.GenKeyPair(id)
		c.sks.AddSecretKey(sk)
		c.pks.AddPublicKey(pk)
	}
	c.enc = mkrlwe.NewEncryptor(c.params)
	c.dec = mkrlwe.NewDecryptor(c.params)
	return c
}

// bigMsg returns a plaintext polynomial m of the given level (coefficient
// domain) with large random coefficients.
func randPoly(t *T, r *ring.Ring, lvl int) *ring.Poly {
	p := ring.NewPoly(r.N, lvl+1)
	for w := 0; w < r.N; w++ {
		for j := 0; j <= lvl; j++ {
			p.Coeffs[j][w] = t.rng.Uint64() % r.Modulus[j]
		}
	}
	return p
}

func diffBits(r *ring.Ring, a, b *ring.Poly, lvl int) (int, []*big.Int) {
	d := ring.NewPoly(r.N, lvl+1)
	for j := 0; j <= lvl; j++ {
		for w := 0; w < r.N; w++ {
			x := a.Coeffs[j][w] % r.Modulus[j]
			y := b.Coeffs[j][w] % r.Modulus[j]
			d.Coeffs[j][w] = (x + r.Modulus[j] - y) % r.Modulus[j]
		}
	}
	c := centered(r, d, lvl)
	return maxBits(c), c
}

func c01(t *T) {
	reuse(t, "C01")
	// mkrlwe: all plaintext and receiver levels and representations
	for ri := range rlweSets {
		c := newRctx(ri, "a", "", "b")
		L := c.params.MaxLevel()
		rq := c.params.RingQ()
		for _, id := range []string{"a", ""} {
			for lp := 0; lp <= L; lp++ {
				for lc := 0; lc <= L; lc++ {
					for rep := 0; rep < 8; rep++ {
						pn, cn, pad := rep&1 == 1, rep&2 == 2, rep&4 == 4
						if (lp != lc && lp < L && lc < L) && (lp+lc+rep)%3 != 0 && !t.thorough {
							continue
						}
						name := fmt.Sprintf("C01 rlwe %s id=%q ptLevel=%d ctLevel=%d ptNTT=%v ctNTT=%v padded=%v", c.name, id, lp, lc, pn, cn, pad)
						t.run(name, func() {
							m := randPoly(t, rq, lp)
							pt := rlwe.NewPlaintext(c.params.Parameters, lp)
							if pn {
								rq.NTTLvl(lp, m, pt.Value)
							} else {
								pt.Value.CopyValues(m)
							}
							pt.Value.IsNTT = pn
							s := idset(id)
							if pad {
								s.Add("b")
								s.Add("other")
							}
							var ct *mkrlwe.Ciphertext
							if cn {
								ct = mkrlwe.NewCiphertextNTT(c.params, s, lc)
							} else {
								ct = mkrlwe.NewCiphertext(c.params, s, lc)
							}
							// stale contents of the receiver's own components must not matter
							for _, k := range []string{"0", id} {
								ct.Value[k].CopyValues(randPoly(t, rq, lc))
							}
							h := deepHash(nil, pt, c.pks)
							c.enc.Encrypt(pt, c.pks.GetPublicKey(id), ct)
							t.check(deepHash(nil, pt, c.pks) == h, "plaintext or public key changed")
							lvl := lp
							if lc < lvl {
								lvl = lc
							}
							for _, k := range []string{"0", id} {
								t.check(len(ct.Value[k].Coeffs) == lvl+1, "component %q at level %d, want %d", k, len(ct.Value[k].Coeffs)-1, lvl)
								t.check(ct.Value[k].IsNTT == cn, "representation flag of component %q", k)
							}
							for k := range ct.Value {
								if k != "0" && k != id {
									t.check(isZeroPoly(ct.Value[k]), "foreign component %q written", k)
								}
							}
							sk := mkrlwe.NewSecretKeySet()
							sk.AddSecretKey(c.sks.Value[id])
							red := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": ct.Value["0"], id: ct.Value[id]}}
							ph := phase(rq, red, sk)
							bits, ds := diffBits(rq, ph, m, lvl)
							t.check(bits <= 12, "phase differs from the plaintext by %d bits", bits)
							t.check(!isZero(ds), "no encryption error at all")
							// library decryption
							for _, k := range []string{"b", "other"} {
								delete(ct.Value, k)
							}
							out := rlwe.NewPlaintext(c.params.Parameters, L)
							out.Value.IsNTT = cn
							c.dec.Decrypt(ct, c.sks, out)
							o := out.Value.CopyNew()
							t.check(len(o.Coeffs) == lvl+1, "decrypted plaintext at level %d, want %d", len(o.Coeffs)-1, lvl)
							if cn {
								rq.InvNTTLvl(lvl, o, o)
							}
							b2, _ := diffBits(rq, o, m, lvl)
							t.check(b2 <= 12, "decryption differs from the plaintext by %d bits", b2)
						})
					}
				}
			}
		}
	}
	// mkckks
	for _, ps := range psets {
		c := newCtx(ps, 4)
		L := c.params.MaxLevel()
		cp, _ := ckks.NewParameters(c.params.Parameters.Parameters, c.params.LogSlots(), c.params.Scale())
		ecd := ckks.NewEncoder(cp)
		for rep := 0; rep < 3; rep++ {
			for _, id := range c.ids {
				name := fmt.Sprintf("C01 ckks %s id=%q rep=%d", ps.Name, id, rep)
				t.run(name+" EncryptMsgNew", func() {
					m := c.msg(t)
					h := deepHash(nil, m, c.pks)
					ct := c.enc.EncryptMsgNew(m, c.pks.GetPublicKey(id))
					t.check(deepHash(nil, m, c.pks) == h, "message or key changed")
					t.ids("EncryptMsgNew", ct.Ciphertext, id)
					t.level("EncryptMsgNew", ct.Ciphertext, L)
					t.scale("EncryptMsgNew", ct.Scale, c.params.Scale())
					t.close("EncryptMsgNew", c.refDecrypt(ct), m.Value, tol)
					t.close("EncryptMsgNew+Decrypt", c.dec.Decrypt(ct, c.sks).Value, m.Value, tol)
				})
				t.run(name+" EncryptMsgNewExpand", func() {
					m := c.msg(t)
					ct := c.enc.EncryptMsgNewExpand(m, c.pks.GetPublicKey(id), idset(c.ids...))
					t.ids("EncryptMsgNewExpand", ct.Ciphertext, c.ids...)
					t.level("EncryptMsgNewExpand", ct.Ciphertext, L)
					t.scale("EncryptMsgNewExpand", ct.Scale, c.params.Scale())
					t.close("EncryptMsgNewExpand", c.refDecrypt(ct), m.Value, tol)
					t.close("EncryptMsgNewExpand+Decrypt", c.dec.Decrypt(ct, c.sks).Value, m.Value, tol)
				})
				t.run(name+" EncodeMsgNew", func() {
					m := c.msg(t)
					pt := c.enc.EncodeMsgNew(m)
					t.check(pt.Level() == L, "plaintext level %d", pt.Level())
					t.scale("EncodeMsgNew", pt.Scale, c.params.Scale())
					t.check(!pt.Value.IsNTT, "plaintext flagged NTT")
					t.close("EncodeMsgNew", c.decode(pt.Value, pt.Scale), m.Value, tol)
					// the encoding must survive later encryptions
					c.enc.EncryptMsgNew(c.msg(t), c.pks.GetPublicKey(id))
					t.close("EncodeMsgNew after use", c.decode(pt.Value, pt.Scale), m.Value, tol)
				})
				for lvl := 0; lvl <= L; lvl++ {
					t.run(fmt.Sprintf("%s EncryptMsg into level %d", name, lvl), func() {
						m := c.msg(t)
						ct := mkckks.NewCiphertext(c.params, idset(id), lvl, 1)
						c.enc.EncryptMsg(m, c.pks.GetPublicKey(id), ct)
						t.level("EncryptMsg", ct.Ciphertext, lvl)
						t.scale("EncryptMsg", ct.Scale, c.params.Scale())
						t.close("EncryptMsg", c.refDecrypt(ct), m.Value, tol)
						t.close("EncryptMsg+Decrypt", c.dec.Decrypt(ct, c.sks).Value, m.Value, tol)
						m2 := c.msg(t)
						ct2 := c.enc.EncryptMsgNew(m2, c.pks.GetPublicKey(id))
						t.level("EncryptMsgNew after low-level use", ct2.Ciphertext, L)
						t.close("EncryptMsgNew after low-level use", c.refDecrypt(ct2), m2.Value, tol)
					})
					t.run(fmt.Sprintf("%s EncryptPtxt level %d", name, lvl), func() {
						m := c.msg(t)
						sc := c.params.Scale() / 8
						pt := ckks.NewPlaintext(cp, lvl, sc)
						ecd.Encode(pt, m.Value, c.params.LogSlots())
						ct := mkckks.NewCiphertext(c.params, idset(id), L, 1)
						h := deepHash(nil, pt)
						c.enc.EncryptPtxt(pt, c.pks.GetPublicKey(id), ct)
						t.check(deepHash(nil, pt) == h, "plaintext changed")
						t.level("EncryptPtxt", ct.Ciphertext, lvl)
						t.scale("EncryptPtxt", ct.Scale, sc)
						t.close("EncryptPtxt", c.refDecrypt(ct), m.Value, tol)
					})
				}
			}
		}
	}
}

func isZeroPoly(p *ring.Poly) bool {
	for _, r := range p.Coeffs {
		for _, x := range r {
			if x != 0 {
				return false
			}
		}
	}
	return true
}

func subsets(ids []string) [][]string {
	var out [][]string
	for m := 1; m < 1<<uint(len(ids)); m++ {
		var s []string
		for i := range ids {
			if m>>uint(i)&1 == 1 {
				s = append(s, ids[i])
			}
		}
		out = append(out, s)
	}
	return out
}

func c02(t *T) {
	crowd(t, "C02")
	reuse(t, "C02")
	for pi, ps := range psets {
		n := 4
		c := newCtx(ps, n)
		L := c.params.MaxLevel()
		for _, in := range subsets(c.ids) {
			for lvl := 0; lvl <= L; lvl++ {
				if pi > 1 && lvl%2 == 0 && lvl != L {
					continue
				}
				name := fmt.Sprintf("C02 %s parties=%q level=%d", ps.Name, in, lvl)
				ct, want := c.fresh(t, lvl, in...)
				t.run(name+" full set", func() {
					h := deepHash(nil, ct, c.sks)
					got := c.dec.Decrypt(ct, c.sks)
					t.close("Decrypt", got.Value, want, tol*4)
					t.check(deepHash(nil, ct, c.sks) == h, "ciphertext or keys changed by Decrypt")
				})
				for _, miss := range in {
					t.run(name+fmt.Sprintf(" missing=%q", miss), func() {
						s := mkrlwe.NewSecretKeySet()
						for _, id := range c.ids {
							if id != miss {
								s.AddSecretKey(c.sks.Value[id])
							}
						}
						h := deepHash(nil, ct)
						t.check(panics(func() { c.dec.Decrypt(ct, s) }), "Decrypt without %q's key did not refuse", miss)
						t.check(deepHash(nil, ct) == h, "ciphertext changed by refused Decrypt")
					})
				}
				t.run(name+" exact set, new decryptor", func() {
					s := mkrlwe.NewSecretKeySet()
					for _, id := range in {
						s.AddSecretKey(c.sks.Value[id])
					}
					got := mkckks.NewDecryptor(c.params).Decrypt(ct, s)
					t.close("Decrypt", got.Value, want, tol*4)
				})
				t.run(name+" partial decryptions in both orders", func() {
					for dir := 0; dir < 2; dir++ {
						x := ct.CopyNew()
						for i := range in {
							id := in[i]
							if dir == 1 {
								id = in[len(in)-1-i]
							}
							before := map[string]uint64{}
							for k, v := range x.Value {
								before[k] = deepHash(nil, v)
							}
							ph0 := phase(c.params.RingQ(), x.Ciphertext, c.sks)
							c.dec.PartialDecrypt(x, c.sks.Value[id])
							_, still := x.Value[id]
							t.check(!still, "party %q still present after its share was removed", id)
							t.check(len(x.Value) == len(before)-1, "wrong number of components after partial decryption")
							for k, v := range x.Value {
								if k != "0" {
									t.check(before[k] == deepHash(nil, v), "share of %q changed while removing %q", k, id)
								}
							}
							b, _ := diffBits(c.params.RingQ(), ph0, phase(c.params.RingQ(), x.Ciphertext, c.sks), lvl)
							t.check(b == 0, "partial decryption changed the message by %d bits", b)
						}
						t.close("after all partial decryptions", c.decode(x.Value["0"], x.Scale), want, tol*4)
					}
				})
			}
		}
		// history: a low-level decryption must not influence later ones
		cp, _ := ckks.NewParameters(c.params.Parameters.Parameters, c.params.LogSlots(), c.params.Scale())
		ecd := ckks.NewEncoder(cp)
		for lvl := 0; lvl < L; lvl++ {
			t.run(fmt.Sprintf("C02 %s history: level %d then level %d with a large scale", ps.Name, lvl, L), func() {
				d := mkckks.NewDecryptor(c.params)
				lo, wlo := c.fresh(t, lvl, c.ids[0])
				t.close("low", d.Decrypt(lo, c.sks).Value, wlo, tol*4)
				m := c.msg(t)
				sc := c.params.Scale() * float64(uint64(1)<<40)
				pt := ckks.NewPlaintext(cp, L, sc)
				ecd.Encode(pt, m.Value, c.params.LogSlots())
				ct := mkckks.NewCiphertext(c.params, idset(c.ids[1]), L, 1)
				c.enc.EncryptPtxt(pt, c.pks.GetPublicKey(c.ids[1]), ct)
				t.close("high after low", d.Decrypt(ct, c.sks).Value, m.Value, tol*4)
				m1 := d.Decrypt(lo, c.sks)
				m2 := d.Decrypt(ct, c.sks)
				t.close("low again", m1.Value, wlo, tol*4)
				t.close("high again", m2.Value, m.Value, tol*4)
			})
		}
		// history: ciphertexts whose scales are close to one another
		t.run(fmt.Sprintf("C02 %s history: close scales, one decryptor", ps.Name), func() {
			d := mkckks.NewDecryptor(c.params)
			ct, _ := c.fresh(t, L, c.ids[0], c.ids[2])
			base := d.Decrypt(ct, c.sks)
			for _, e := range []float64{1e-2, 1e-3, 3e-4, 5e-5, -2e-5, 1e-6, -1e-7, 0} {
				x := ct.CopyNew()
				x.Scale *= 1 + e
				got := d.Decrypt(x, c.sks)
				want := make([]complex128, len(base.Value))
				for i := range want {
					want[i] = base.Value[i] / complex(1+e, 0)
				}
				t.close(fmt.Sprintf("the same ciphertext with %g times the scale", 1+e), got.Value, want, 1e-8)
			}
		})
	}
	// mkrlwe level: output level and domain
	for ri := range rlweSets {
		c := newRctx(ri, "a", "b", "c")
		rq := c.params.RingQ()
		L := c.params.MaxLevel()
		for lc := 0; lc <= L; lc++ {
			for lp := 0; lp <= L; lp++ {
				for _, ntt := range []bool{false, true} {
					t.run(fmt.Sprintf("C02 rlwe %s ctLevel=%d ptLevel=%d ntt=%v", c.name, lc, lp, ntt), func() {
						ct := mkrlwe.NewCiphertext(c.params, idset("a", "c"), lc)
						for k := range ct.Value {
							ct.Value[k] = randPoly(t, rq, lc)
							ct.Value[k].IsNTT = ntt
						}
						if z := []string{"", "a", "c", "0"}[(lc+2*lp)%4]; z != "" {
							ct.Value[z].Zero()
						}
						h := deepHash(nil, ct, c.sks)
						want := phase(rq, ct, c.sks)
						pt := rlwe.NewPlaintext(c.params.Parameters, lp)
						pt.Value.IsNTT = ntt
						c.dec.Decrypt(ct, c.sks, pt)
						t.check(deepHash(nil, ct, c.sks) == h, "ciphertext or keys changed by Decrypt")
						lvl := lc
						if lp < lvl {
							lvl = lp
						}
						if !t.check(len(pt.Value.Coeffs) == lvl+1, "plaintext level %d want %d", len(pt.Value.Coeffs)-1, lvl) {
							return
						}
						o := pt.Value.CopyNew()
						if ntt {
							rq.InvNTTLvl(lvl, o, o)
						}
						b, _ := diffBits(rq, o, want, lvl)
						t.check(b == 0, "decrypted phase off by %d bits", b)
					})
				}
			}
		}
	}
}

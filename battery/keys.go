package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	props["C10"] = c10
	props["C11"] = c11
	props["C16"] = c16
}

type qp = rlwe.PolyQP

func copyQP(p qp) qp { return p.CopyNew() }

// errOf brings an NTT-domain value out of the NTT (and Montgomery) domain and
// returns it as one integer polynomial; ok is false if the residues modulo Q
// and modulo P are not residues of the same small polynomial.
func errOf(p mkrlwe.Parameters, v qp, mform bool) (e []*big.Int, ok bool) {
	rq, rp := p.RingQ(), p.RingP()
	lq, lp := p.QCount()-1, p.PCount()-1
	x := copyQP(v)
	if mform {
		rq.InvMFormLvl(lq, x.Q, x.Q)
		rp.InvMFormLvl(lp, x.P, x.P)
	}
	rq.InvNTTLvl(lq, x.Q, x.Q)
	rp.InvNTTLvl(lp, x.P, x.P)
	a, b := centered(rq, x.Q, lq), centered(rp, x.P, lp)
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return a, false
		}
	}
	return a, true
}

func (t *T) gaussian(what string, e []*big.Int, ok bool) bool {
	if !t.check(ok, "%s: residues modulo Q and P are not of one small error (max %d bits)", what, maxBits(e)) {
		return false
	}
	if !t.check(maxBits(e) <= 5, "%s: error of %d bits, want a Gaussian error of at most 5 bits", what, maxBits(e)) {
		return false
	}
	return t.check(!isZero(e), "%s: error is zero", what)
}

// mulSubtract returns v + s*a - g where a,s in the usual key conventions.
type qpops struct{ p mkrlwe.Parameters }

// addMul: v += a*b (Montgomery product: one operand in Montgomery form)
func (o qpops) addMul(v, a, b qp) {
	o.p.RingQ().MulCoeffsMontgomeryAndAddLvl(o.p.QCount()-1, a.Q, b.Q, v.Q)
	o.p.RingP().MulCoeffsMontgomeryAndAddLvl(o.p.PCount()-1, a.P, b.P, v.P)
}

// subGadget: v -= sign * g_i * s on Q rows of block i, with s in Montgomery NTT form (so is v)
func (o qpops) subGadget(v qp, s qp, i int, neg bool) {
	alpha := len(o.p.RingP().Modulus) / o.p.Gamma()
	P := big.NewInt(1)
	for _, m := range o.p.RingP().Modulus {
		P.Mul(P, new(big.Int).SetUint64(m))
	}
	for j := i * alpha; j < (i+1)*alpha && j < o.p.QCount(); j++ {
		q := o.p.RingQ().Modulus[j]
		pm := new(big.Int).Mod(P, new(big.Int).SetUint64(q)).Uint64()
		for w := range v.Q.Coeffs[j] {
			x := ring.BRed(s.Q.Coeffs[j][w]%q, pm, q, o.p.RingQ().BredParams[j])
			if neg {
				v.Q.Coeffs[j][w] = (v.Q.Coeffs[j][w] + x) % q
			} else {
				v.Q.Coeffs[j][w] = (v.Q.Coeffs[j][w] + q - x) % q
			}
		}
	}
}

func permNTT(p mkrlwe.Parameters, s qp, galEl uint64) qp {
	rq, rp := p.RingQ(), p.RingP()
	lq, lp := p.QCount()-1, p.PCount()-1
	x := copyQP(s)
	rq.InvNTTLvl(lq, x.Q, x.Q)
	rp.InvNTTLvl(lp, x.P, x.P)
	y := copyQP(s)
	for i := 0; i < rq.N; i++ {
		k := (uint64(i) * galEl) % uint64(2*rq.N)
		dst, neg := k, false
		if k >= uint64(rq.N) {
			dst, neg = k-uint64(rq.N), true
		}
		for j, q := range rq.Modulus {
			c := x.Q.Coeffs[j][i] % q
			if neg && c != 0 {
				c = q - c
			}
			y.Q.Coeffs[j][dst] = c
		}
		for j, q := range rp.Modulus {
			c := x.P.Coeffs[j][i] % q
			if neg && c != 0 {
				c = q - c
			}
			y.P.Coeffs[j][dst] = c
		}
	}
	rq.NTTLvl(lq, y.Q, y.Q)
	rp.NTTLvl(lp, y.P, y.P)
	return y
}

func powMod(b, e, m uint64) uint64 {
	r := uint64(1)
	b %= m
	for e > 0 {
		if e&1 == 1 {
			r = r * b % m
		}
		b = b * b % m
		e >>= 1
	}
	return r
}

func invGal(p mkrlwe.Parameters, rot int) uint64 {
	m := uint64(2 * p.N())
	half := uint64(p.N() / 2)
	k := uint64(((rot % int(half)) + int(half)) % int(half))
	return powMod(5, (half-k)%half, m)
}

// keyErrors returns the error polynomials of all keys, named.
type namedErr struct {
	name string
	e    []*big.Int
	ok   bool
}

func pkErr(p mkrlwe.Parameters, sk *mkrlwe.SecretKey, pk *mkrlwe.PublicKey) namedErr {
	o := qpops{p}
	v := copyQP(pk.Value[0])
	o.addMul(v, sk.Value, pk.Value[1])
	e, ok := errOf(p, v, false)
	return namedErr{"pk", e, ok}
}

func bet(p mkrlwe.Parameters) int {
	alpha := len(p.RingP().Modulus) / p.Gamma()
	return (p.QCount() + alpha - 1) / alpha
}

func swkErr(p mkrlwe.Parameters, name string, swk *mkrlwe.SwitchingKey, a *mkrlwe.SwitchingKey, mask qp, msg *qp, neg bool) (r []namedErr) {
	o := qpops{p}
	for i := 0; i < bet(p); i++ {
		v := copyQP(swk.Value[i])
		o.addMul(v, mask, a.Value[i])
		if msg != nil {
			o.subGadget(v, *msg, i, neg)
		}
		e, ok := errOf(p, v, true)
		r = append(r, namedErr{fmt.Sprintf("%s digit %d", name, i), e, ok})
	}
	return
}

func rlkErr(p mkrlwe.Parameters, sk, r *mkrlwe.SecretKey, rlk *mkrlwe.RelinearizationKey) (out []namedErr) {
	a, u := p.CRS[0], p.CRS[-1]
	sv, rv := sk.Value, r.Value
	out = append(out, swkErr(p, "rlk b", rlk.Value[0], a, sv, nil, false)...)
	out = append(out, swkErr(p, "rlk d", rlk.Value[1], a, rv, &sv, false)...)
	out = append(out, swkErr(p, "rlk v", rlk.Value[2], u, sv, &rv, true)...)
	return
}

func rtkErr(p mkrlwe.Parameters, sk *mkrlwe.SecretKey, rot int, rk *mkrlwe.RotationKey) []namedErr {
	s := sk.Value
	return swkErr(p, fmt.Sprintf("rotation key %d", rot), rk.Value, p.CRS[mod(rot, p.N()/2)], permNTT(p, s, invGal(p, rot)), &s, false)
}

func cjkErr(p mkrlwe.Parameters, sk *mkrlwe.SecretKey, ck *mkrlwe.ConjugationKey) []namedErr {
	s := sk.Value
	m := permNTT(p, s, uint64(2*p.N()-1))
	return swkErr(p, "conjugation key", ck.Value, p.CRS[-2], s, &m, false)
}

func allRlwe() (ps []mkrlwe.Parameters, names []string) {
	for i := range rlweSets {
		ps = append(ps, mkrlweParams(i))
		names = append(names, rlweSets[i].Name)
	}
	for _, s := range psets {
		ps = append(ps, mkckksParams(s).Parameters)
		names = append(names, s.Name)
	}
	return
}

func c10(t *T) {
	ps, names := allRlwe()
	for pi, p := range ps {
		half := p.N() / 2
		for _, k := range []int{3, half - 1, half / 2 * 3 / 2, 7} {
			p.AddCRS(k)
		}
		kg := mkrlwe.NewKeyGenerator(p)
		reps := 2
		if t.thorough {
			reps = 10
		}
		for rep := 0; rep < reps; rep++ {
			for _, id := range []string{"a", "", "π-party", "0x"} {
				t.run(fmt.Sprintf("C10 %s keys of %q #%d", names[pi], id, rep), func() {
					sk := kg.GenSecretKey(id)
					r := kg.GenSecretKey(id)
					h := deepHash(nil, sk, r, p)
					for _, s := range []*mkrlwe.SecretKey{sk, r, kg.GenSecretKeySparse(p.N()/4, id), kg.GenSecretKeyWithDistrib(0.3, id)} {
						e, ok := errOf(p, s.Value, true)
						t.check(ok && maxBits(e) <= 1 && !isZero(e), "secret key is not one ternary polynomial in all moduli (%d bits, consistent=%v)", maxBits(e), ok)
						t.check(s.ID == id, "secret key id %q, want %q", s.ID, id)
					}
					e, ok := errOf(p, kg.GenSecretKeyGaussian(id).Value, true)
					t.gaussian("Gaussian secret key", e, ok)
					pk := kg.GenPublicKey(sk)
					t.check(pk.ID == id, "public key id")
					for _, rq := range [][2]*ring.Poly{{pk.Value[1].Q, p.CRS[0].Value[0].Q}, {pk.Value[1].P, p.CRS[0].Value[0].P}} {
						t.check(reflect.DeepEqual(rq[0].Coeffs, rq[1].Coeffs), "second half of the public key is not the reference string")
					}
					rlk := kg.GenRelinearizationKey(sk, r)
					t.check(rlk.ID == id, "relinearization key id")
					ck := kg.GenConjugationKey(sk)
					t.check(ck.ID == id, "conjugation key id")
					errs := []namedErr{pkErr(p, sk, pk)}
					errs = append(errs, rlkErr(p, sk, r, rlk)...)
					errs = append(errs, cjkErr(p, sk, ck)...)
					for _, k := range []int{1, 2, half / 2, 3, 7, half - 1, -1, -half + 3, -half + 1, -half / 2} {
						rk := kg.GenRotationKey(k, sk)
						t.check(rk.ID == id && rk.RotIdx == uint(mod(k, half)), "rotation key for %d has id %q and amount %d", k, rk.ID, rk.RotIdx)
						errs = append(errs, rtkErr(p, sk, k, rk)...)
					}
					for _, e := range errs {
						if !t.gaussian(e.name, e.e, e.ok) {
							break
						}
					}
					sk2, pk2 := kg.GenKeyPair(id)
					ne := pkErr(p, sk2, pk2)
					t.gaussian("GenKeyPair "+ne.name, ne.e, ne.ok)
					sk3, pk3 := kg.GenKeyPairSparse(p.N()/4, id)
					ne = pkErr(p, sk3, pk3)
					t.gaussian("GenKeyPairSparse "+ne.name, ne.e, ne.ok)
					t.check(sk2.ID == id && pk2.ID == id && sk3.ID == id && pk3.ID == id, "key pair ids")
					t.check(pk2.Value[1].Q != p.CRS[0].Value[0].Q, "public key shares storage with the reference string")
					t.check(deepHash(nil, sk, r, p) == h, "secret key or reference string changed")
					// hamming weight
					for _, hw := range []int{1, p.N() / 2, p.N() - 1} {
						e, _ := errOf(p, kg.GenSecretKeySparse(hw, id).Value, true)
						n := 0
						for _, x := range e {
							if x.Sign() != 0 {
								n++
							}
						}
						t.check(n == hw, "sparse secret key has %d nonzero coefficients, want %d", n, hw)
					}
				})
			}
			t.run(fmt.Sprintf("C10 %s keys of one secret-key object with changing content #%d", names[pi], rep), func() {
				sk, r := kg.GenSecretKey("v"), kg.GenSecretKey("v")
				kgs := []*mkrlwe.KeyGenerator{kg, mkrlwe.NewKeyGenerator(p)}
				for step := 0; step < 10; step++ {
					for _, x := range []*mkrlwe.SecretKey{sk, r} {
						if t.rng.Intn(3) > 0 {
							n := kg.GenSecretKey("w")
							for j := range n.Value.Q.Coeffs {
								copy(x.Value.Q.Coeffs[j], n.Value.Q.Coeffs[j])
							}
							for j := range n.Value.P.Coeffs {
								copy(x.Value.P.Coeffs[j], n.Value.P.Coeffs[j])
							}
							x.ID = []string{"v", "w", ""}[t.rng.Intn(3)]
						}
					}
					g := kgs[t.rng.Intn(2)]
					a, b := sk, r
					if t.rng.Intn(4) == 0 {
						a, b = r, sk
					}
					h := deepHash(nil, a, b, p)
					var errs []namedErr
					id := ""
					switch op := t.rng.Intn(6); op {
					case 0:
						k := g.GenPublicKey(a)
						id, errs = k.ID, []namedErr{pkErr(p, a, k)}
					case 1:
						k := g.GenRelinearizationKey(a, b)
						id, errs = k.ID, rlkErr(p, a, b, k)
					case 2:
						k := g.GenConjugationKey(a)
						id, errs = k.ID, cjkErr(p, a, k)
					case 3:
						rot := []int{1, 2, -1, 3, half / 2, 7}[t.rng.Intn(6)]
						k := g.GenRotationKey(rot, a)
						id, errs = k.ID, rtkErr(p, a, rot, k)
					default:
						// an encryption of a under itself or under b, then the same again
						m := a
						if op == 5 {
							m = b
						}
						s1 := mkrlwe.NewSwitchingKey(p)
						g.GenSwitchingKey(m, s1)
						id, errs = a.ID, nil
						for i := 0; i < bet(p); i++ {
							q := qpops{p}
							v := copyQP(s1.Value[i])
							q.subGadget(v, m.Value, i, false)
							e, ok := errOf(p, v, true)
							errs = append(errs, namedErr{fmt.Sprintf("GenSwitchingKey digit %d", i), e, ok})
						}
					}
					t.check(id == a.ID, "step %d: key carries id %q, want %q", step, id, a.ID)
					t.check(deepHash(nil, a, b, p) == h, "step %d: secret key or reference string changed", step)
					for _, e := range errs {
						t.gaussian(fmt.Sprintf("step %d: %s", step, e.name), e.e, e.ok)
					}
				}
			})
			t.run(fmt.Sprintf("C10 %s default rotation keys #%d", names[pi], rep), func() {
				sk := kg.GenSecretKey("d")
				set := mkrlwe.NewRotationKeySet()
				kg.GenDefaultRotationKeys(sk, set)
				n := 0
				for k := 1; k < half; k *= 2 {
					n++
					rk := set.Value["d"][uint(k)]
					if !t.check(rk != nil && rk.ID == "d" && rk.RotIdx == uint(k), "no default rotation key for %d", k) {
						continue
					}
					for _, e := range rtkErr(p, sk, k, rk) {
						t.gaussian(e.name, e.e, e.ok)
					}
				}
				t.check(len(set.Value["d"]) == n && len(set.Value) == 1, "default rotation keys: %d, want %d", len(set.Value["d"]), n)
			})
			t.run(fmt.Sprintf("C10 %s rotation without reference string #%d", names[pi], rep), func() {
				sk := kg.GenSecretKey("d")
				for _, k := range []int{5, -5, half + 3, -2} {
					if _, ok := p.CRS[k]; !ok {
						if _, ok := p.CRS[mod(k, half)]; !ok || k >= half {
							t.check(panics(func() { kg.GenRotationKey(k, sk) }), "GenRotationKey(%d) did not refuse", k)
						}
					}
				}
			})
		}
	}
}

func bigEq(a, b []*big.Int) bool {
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func bigAbsEq(a, b []*big.Int) bool {
	for i := range a {
		if a[i].CmpAbs(b[i]) != 0 {
			return false
		}
	}
	return true
}

func rowsOf(v qp) (r [][]uint64) {
	r = append(r, v.Q.Coeffs...)
	return append(r, v.P.Coeffs...)
}

// uniformRow rejects rows that cannot plausibly be uniform modulo q.
func uniformRow(row []uint64, q uint64) string {
	seen := map[uint64]int{}
	var sum float64
	for _, x := range row {
		if x >= q {
			return "entry not reduced"
		}
		seen[x]++
		if seen[x] > 1 {
			return "repeated entries"
		}
		sum += float64(x) / float64(q)
	}
	m := sum / float64(len(row))
	if m < 0.05 || m > 0.95 {
		return "mean far from the middle"
	}
	return ""
}

func (t *T) crs(p mkrlwe.Parameters, idx int, seen map[string]string) {
	swk := p.CRS[idx]
	if !t.check(swk != nil && len(swk.Value) == bet(p), "reference string %d missing or of wrong length", idx) {
		return
	}
	for i, v := range swk.Value {
		if !t.check(len(v.Q.Coeffs) == p.QCount() && len(v.P.Coeffs) == p.PCount(), "reference string %d digit %d: wrong number of moduli", idx, i) {
			return
		}
		for j, row := range rowsOf(v) {
			q := uint64(0)
			if j < p.QCount() {
				q = p.RingQ().Modulus[j]
			} else {
				q = p.RingP().Modulus[j-p.QCount()]
			}
			why := uniformRow(row, q)
			t.check(why == "", "reference string %d digit %d modulus %d is not uniform: %s", idx, i, j, why)
			k := fmt.Sprint(row[:4])
			here := fmt.Sprintf("%d digit %d modulus %d", idx, i, j)
			if o, ok := seen[k]; ok {
				t.fail("reference strings %s and %s coincide", here, o)
			}
			seen[k] = here
		}
	}
}

func c11(t *T) {
	ps, names := allRlwe()
	for pi, p := range ps {
		half := p.N() / 2
		seen := map[string]string{}
		t.run(fmt.Sprintf("C11 %s reference strings", names[pi]), func() {
			p.AddCRS(3)
			p.AddCRS(half - 1)
			for idx := range p.CRS {
				t.crs(p, idx, seen)
			}
		})
		t.run(fmt.Sprintf("C11 %s second parameter set", names[pi]), func() {
			q := mkrlwe.NewParameters(p.Parameters, p.Gamma())
			for idx := range q.CRS {
				t.crs(q, idx, seen)
			}
		})
		h := deepHash(nil, p)
		var all []namedErr
		add := func(prefix string, es ...namedErr) {
			for _, e := range es {
				e.name = prefix + " " + e.name
				if t.gaussian(e.name, e.e, e.ok) {
					all = append(all, e)
				}
			}
		}
		var pool []*big.Int
		kg := mkrlwe.NewKeyGenerator(p)
		for rep := 0; rep < 3; rep++ {
			for _, id := range []string{"a", "b"} {
				t.run(fmt.Sprintf("C11 %s key errors of %q #%d", names[pi], id, rep), func() {
					g := kg
					if rep == 2 {
						g = mkrlwe.NewKeyGenerator(p)
					}
					sk, r := g.GenSecretKey(id), g.GenSecretKey(id)
					pre := fmt.Sprintf("%s#%d", id, rep)
					se, ok := errOf(p, sk.Value, true)
					re, ok2 := errOf(p, r.Value, true)
					t.check(ok && ok2 && !isZero(se) && !isZero(re) && !bigAbsEq(se, re), "secret keys not independent")
					all = append(all, namedErr{pre + " secret", se, true}, namedErr{pre + " r", re, true})
					for n := 0; n < 2; n++ {
						s1, pk := g.GenKeyPair(id)
						s2, pk2 := g.GenKeyPairSparse(p.N()/2, id)
						for what, s := range map[string]*mkrlwe.SecretKey{"pair": s1, "sparse pair": s2, "sparse": g.GenSecretKeySparse(p.N()/2, id), "Gaussian": g.GenSecretKeyGaussian(id), "distribution": g.GenSecretKeyWithDistrib(0.4, id)} {
							e, ok := errOf(p, s.Value, true)
							t.check(ok && !isZero(e), "%s secret", what)
							all = append(all, namedErr{fmt.Sprintf("%s %s secret %d", pre, what, n), e, true})
						}
						add(pre, pkErr(p, s1, pk), pkErr(p, s2, pk2))
					}
					add(pre, pkErr(p, sk, g.GenPublicKey(sk)))
					add(pre, pkErr(p, sk, g.GenPublicKey(sk)))
					add(pre, rlkErr(p, sk, r, g.GenRelinearizationKey(sk, r))...)
					add(pre, cjkErr(p, sk, g.GenConjugationKey(sk))...)
					for _, k := range []int{1, 2, 3, half - 1, -half + 3} {
						add(pre, rtkErr(p, sk, k, g.GenRotationKey(k, sk))...)
					}
				})
			}
		}
		old := mkrlwe.NewEncryptor(p)
		enc := old
		rq := p.RingQ()
		for lvl := 0; lvl < p.QCount(); lvl++ {
			for _, ntt := range []bool{false, true} {
				for _, ptNTT := range []bool{false, true} {
					t.run(fmt.Sprintf("C11 %s encryption randomness level=%d ntt=%v ptNTT=%v", names[pi], lvl, ntt, ptNTT), func() {
						// Public keys chosen so that the randomness can be read off: pk = (0,0), (1,0), (0,1).
						mk := func(a, b uint64) *mkrlwe.PublicKey {
							pk := mkrlwe.NewPublicKey(p, "a")
							for j, q := range rq.Modulus {
								for w := 0; w < rq.N; w++ {
									pk.Value[0].Q.Coeffs[j][w] = a % q
									pk.Value[1].Q.Coeffs[j][w] = b % q
								}
							}
							return pk
						}
						const big1 = 1 << 12
						get := func(pk *mkrlwe.PublicKey, pre string) {
							ct := mkrlwe.NewCiphertext(p, idset("a"), lvl)
							if ntt {
								ct = mkrlwe.NewCiphertextNTT(p, idset("a"), lvl)
							}
							pt := rlwe.NewPlaintext(p.Parameters, lvl)
							pt.Value.IsNTT = ptNTT
							enc.Encrypt(pt, pk, ct)
							for _, id := range []string{"0", "a"} {
								x := ct.Value[id].CopyNew()
								if ntt {
									rq.InvNTTLvl(lvl, x, x)
								}
								c := centered(rq, x, lvl)
								// c = big1*u + e
								e, u := make([]*big.Int, len(c)), make([]*big.Int, len(c))
								small := true
								for i := range c {
									e[i] = new(big.Int).Mod(new(big.Int).Add(c[i], big.NewInt(big1/2)), big.NewInt(big1))
									e[i].Sub(e[i], big.NewInt(big1/2))
									u[i] = new(big.Int).Div(new(big.Int).Sub(c[i], e[i]), big.NewInt(big1))
									small = small && e[i].BitLen() <= 5 && u[i].BitLen() <= 1
								}
								if !t.check(small, "%s component %q: not key*u + e with ternary u and Gaussian e", pre, id) {
									return
								}
								t.check(!isZero(e), "%s component %q: error is zero", pre, id)
								all = append(all, namedErr{pre + " e" + id, e, true})
								if !isZero(u) {
									all = append(all, namedErr{pre + " u" + id, u, true})
								} else if (id == "0") == (pk.Value[0].Q.Coeffs[0][0] != 0) {
									t.fail("%s: ephemeral secret is zero", pre)
								}
							}
						}
						pre := fmt.Sprintf("enc level %d ntt=%v,%v", lvl, ntt, ptNTT)
						p0, p1 := mk(big1, 0), mk(0, big1)
						for n := 0; n < 3; n++ {
							enc = old
							if n == 2 { // an encryptor of its own
								enc = mkrlwe.NewEncryptor(p)
							}
							get(p0, fmt.Sprintf("%s #%d pk0", pre, n))
							if n == 1 {
								get(p0, fmt.Sprintf("%s #%d pk0 again", pre, n))
							}
							get(p1, fmt.Sprintf("%s #%d pk1", pre, n))
						}
					})
				}
			}
		}
		t.run(fmt.Sprintf("C11 %s no randomness reused", names[pi]), func() {
			m := map[string]string{}
			for _, e := range all {
				// up to sign, and up to a cyclic relabelling: compare the sequence of absolute values
				k := ""
				for _, x := range e.e {
					k += new(big.Int).Abs(x).String() + ","
				}
				if o, ok := m[k]; ok {
					t.fail("the same randomness masks %s and %s", o, e.name)
				}
				m[k] = e.name
				pool = append(pool, e.e...)
			}
		})
		t.run(fmt.Sprintf("C11 %s Gaussian width", names[pi]), func() {
			var s, n float64
			for _, e := range all {
				if maxBits(e.e) > 1 {
					for _, x := range e.e {
						f, _ := new(big.Float).SetInt(x).Float64()
						s += f * f
						n++
					}
				}
			}
			sd := math.Sqrt(s / n)
			t.check(sd > 2.6 && sd < 3.8, "standard deviation of the errors is %.2f, want 3.2", sd)
		})
		t.run(fmt.Sprintf("C11 %s reference strings unaltered", names[pi]), func() {
			t.check(deepHash(nil, p) == h, "reference strings changed by use")
		})
	}
	for _, ps := range psets {
		c := newCtx(ps, 2)
		t.run("C11 "+ps.Name+" repeated encryptions of one message", func() {
			m := c.msg(t)
			seen := map[string]bool{}
			for i := 0; i < 6; i++ {
				e := c.enc
				if i >= 3 {
					e = mkckks.NewEncryptor(c.params)
				}
				var k string
				if e != nil {
					ct := e.EncryptMsgNew(m, c.pks.Value[c.ids[0]])
					k = fmt.Sprint(ct.Value["0"].Coeffs[0][:4])
					t.check(!seen[fmt.Sprint(ct.Value[c.ids[0]].Coeffs[0][:4])], "ciphertext component repeated")
					seen[fmt.Sprint(ct.Value[c.ids[0]].Coeffs[0][:4])] = true
				} else {
					continue
				}
				t.check(!seen[k], "ciphertext component repeated")
				seen[k] = true
			}
		})
	}
}

func c16(t *T) {
	for nq := 1; nq <= 7; nq++ {
		for np := 1; np <= 6; np++ {
			for g := 1; g <= np && g <= 3; g++ {
				t.run(fmt.Sprintf("C16 moduli=%d+%d ratio=%d", nq, np, g), func() {
					rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: 4, LogQ: rep(nq, 40), LogP: rep(np, 41), Sigma: rlwe.DefaultSigma})
					if err != nil {
						panic(err)
					}
					p := mkrlwe.NewParameters(rp, g)
					checkParams(t, p, nq, np, g, 4)
					n := len(p.CRS)
					h := map[int]uint64{}
					for k, v := range p.CRS {
						h[k] = deepHash(nil, v)
					}
					for _, idx := range []int{3, 7, 5, -5, 1<<8 + 3, 1<<16 + 7, 1<<20 + 1, 1<<32 + 1, 1<<40 - 1, -70001} {
						p.AddCRS(idx)
						n++
						t.check(len(p.CRS) == n && p.CRS[idx] != nil, "AddCRS(%d) did not add exactly that one", idx)
						t.crs(p, idx, map[string]string{})
						for k := range h {
							t.check(deepHash(nil, p.CRS[k]) == h[k], "AddCRS(%d) changed reference string %d", idx, k)
						}
						h[idx] = deepHash(nil, p.CRS[idx])
					}
				})
			}
		}
	}
	for _, ps := range psets {
		t.run("C16 "+ps.Name, func() {
			p := mkckksParams(ps)
			checkParams(t, p.Parameters, len(ps.LogQ), len(ps.LogP), 2, ps.LogN)
			t.check(p.Scale() == ps.Scale && p.LogSlots() == ps.LogSlots && p.Slots() == 1<<uint(ps.LogSlots), "scale %g, slots %d/%d", p.Scale(), p.LogSlots(), p.Slots())
		})
		for ls := 1; ls < ps.LogN; ls++ {
			for _, sc := range []float64{1 << 30, 1<<40 + 12345, 3.25e11} {
				t.run(fmt.Sprintf("C16 %s slots=2^%d scale=%g", ps.Name, ls, sc), func() {
					q := ps
					q.LogSlots, q.Scale = ls, sc
					p := mkckksParams(q)
					t.check(p.Scale() == sc && p.LogSlots() == ls && p.Slots() == 1<<uint(ls), "scale %g, slots %d/%d", p.Scale(), p.LogSlots(), p.Slots())
				})
			}
		}
	}
}

func checkParams(t *T, p mkrlwe.Parameters, nq, np, g, logN int) {
	alpha := np / g
	t.check(p.Alpha() == alpha, "Alpha %d, want %d", p.Alpha(), alpha)
	t.check(p.Gamma() == g, "Gamma %d, want %d", p.Gamma(), g)
	for l := 0; l < nq; l++ {
		w := 0
		for w*alpha < l+1 {
			w++
		}
		t.check(p.Beta(l) == w, "Beta(%d)=%d, want %d", l, p.Beta(l), w)
	}
	want := map[int]bool{0: true, -1: true, -2: true}
	for k := 1; k < 1<<uint(logN-1); k *= 2 {
		want[k] = true
	}
	for k := range want {
		if !t.check(p.CRS[k] != nil && len(p.CRS[k].Value) == p.Beta(nq-1), "reference string %d missing or of wrong length", k) {
			continue
		}
		for _, v := range p.CRS[k].Value {
			t.check(len(v.Q.Coeffs) == nq && len(v.P.Coeffs) == np, "reference string %d of wrong shape", k)
		}
	}
	swk := mkrlwe.NewSwitchingKey(p)
	t.check(len(swk.Value) == p.Beta(nq-1), "switching key of %d digits", len(swk.Value))
	rlk := mkrlwe.NewRelinearizationKey(p, "x")
	for _, s := range rlk.Value {
		t.check(len(s.Value) == p.Beta(nq-1), "relinearization key of %d digits", len(s.Value))
	}
}

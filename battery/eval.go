package main

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
	props["C08"] = c08
	props["C09"] = c09
}

var hoistSkip = map[string]bool{"HoistPool": true}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func mulConstPoly(r *ring.Ring, p *ring.Poly, lvl int, k float64) *ring.Poly {
	o := ring.NewPoly(r.N, lvl+1)
	for j := 0; j <= lvl; j++ {
		q := r.Modulus[j]
		bk, _ := new(big.Float).SetFloat64(k).Int(nil)
		kk := bk.Mod(bk, new(big.Int).SetUint64(q)).Uint64()
		for w := range o.Coeffs[j] {
			o.Coeffs[j][w] = ring.BRed(p.Coeffs[j][w]%q, kk, q, r.BredParams[j])
		}
	}
	return o
}

func pairs() [][2][]string {
	a := allIDs
	return [][2][]string{
		{{a[0]}, {a[0]}}, {{a[0]}, {a[1]}}, {{a[0], a[1]}, {a[1]}}, {{a[1]}, {a[0], a[1]}},
		{{a[0], a[1]}, {a[1], a[2]}}, {{a[0], a[2]}, {a[1], a[3]}}, {{a[0], a[1], a[2]}, {a[2], a[1], a[0]}},
		{{a[2]}, {a[0], a[1], a[3]}},
	}
}

// morePairs returns all pairs of nonempty subsets of the first n ids, in random order.
func morePairs(t *T, n int) (r [][2][]string) {
	for i := 1; i < 1<<n; i++ {
		for j := 1; j < 1<<n; j++ {
			var p [2][]string
			for k := 0; k < n; k++ {
				if i>>k&1 == 1 {
					p[0] = append(p[0], allIDs[k])
				}
				if j>>k&1 == 1 {
					p[1] = append(p[1], allIDs[k])
				}
			}
			r = append(r, p)
		}
	}
	t.rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return
}

func c03(t *T) {
	crowd(t, "C03")
	reuse(t, "C03")
	ratios := []float64{1, 1.5, 1.999, 2, 2.5, 3, 7.9, 1024, 1099511627776, math.Exp2(62), math.Exp2(63), math.Exp2(64) * 3, 1e30}
	for pi, ps := range psets {
		c := newCtx(ps, 4)
		L := c.params.MaxLevel()
		rq := c.params.RingQ()
		for xi, pr := range append(pairs(), morePairs(t, 4)...) {
			for l0 := 0; l0 <= L; l0++ {
				for l1 := 0; l1 <= L; l1++ {
					if xi >= 8 && t.rng.Intn(60) != 0 {
						continue
					}
					if xi == 40 && l0 == 0 && l1 == 0 {
						c.ev = mkckks.NewEvaluator(c.params) // one that has seen no party yet
					}
					if pi > 0 && l0 != l1 && l0 != L && l1 != L && l0 != 0 && l1 != 0 {
						continue
					}
					for _, rt := range ratios {
						if pi > 1 && (l0+l1)%3 != 0 && rt != 1 && rt != 2 {
							continue
						}
						for side := 0; side < 2; side++ {
							if rt == 1 && side == 1 {
								continue
							}
							for _, sub := range []bool{false, true} {
								if xi >= 8 && t.rng.Intn(4) != 0 {
									continue
								}
								t.run(fmt.Sprintf("C03 %s sub=%v parties=%q,%q levels=%d,%d scaleRatio=%g larger=%d", ps.Name, sub, pr[0], pr[1], l0, l1, rt, side), func() {
									a, _ := c.fresh(t, l0, pr[0]...)
									b, _ := c.fresh(t, l1, pr[1]...)
									k0, k1 := 1.0, 1.0
									if side == 0 {
										a.Scale = b.Scale * rt
										if math.Floor(a.Scale/b.Scale) > 1 {
											k1 = math.Floor(a.Scale / b.Scale)
										}
									} else {
										b.Scale = a.Scale * rt
										if math.Floor(b.Scale/a.Scale) > 1 {
											k0 = math.Floor(b.Scale / a.Scale)
										}
									}
									h := deepHash(nil, a, b)
									var o *mkckks.Ciphertext
									if sub {
										o = c.ev.SubNew(a, b)
									} else {
										o = c.ev.AddNew(a, b)
									}
									t.check(deepHash(nil, a, b) == h, "operand changed")
									lvl := minInt(l0, l1)
									t.ids("result", o.Ciphertext, union(pr[0], pr[1])...)
									if !t.level("result", o.Ciphertext, lvl) {
										return
									}
									t.scale("result", o.Scale, math.Max(a.Scale, b.Scale))
									pa := mulConstPoly(rq, phase(rq, a.Ciphertext, c.sks), lvl, k0)
									pb := mulConstPoly(rq, phase(rq, b.Ciphertext, c.sks), lvl, k1)
									if sub {
										rq.SubLvl(lvl, pa, pb, pa)
									} else {
										rq.AddLvl(lvl, pa, pb, pa)
									}
									bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), pa, lvl)
									t.check(bits == 0, "message differs from %g*m0 ± %g*m1 by %d bits", k0, k1, bits)
									for _, p := range o.Value {
										t.check(!p.IsNTT, "component flagged NTT")
									}
								})
							}
						}
					}
				}
			}
		}
		for lvl := 0; lvl <= L; lvl++ {
			t.run(fmt.Sprintf("C03 %s same operand twice level=%d", ps.Name, lvl), func() {
				a, wa := c.fresh(t, lvl, c.ids[0], c.ids[2])
				h := deepHash(nil, a)
				o := c.ev.AddNew(a, a)
				for i := range wa {
					wa[i] *= 2
				}
				t.close("a+a", c.refDecrypt(o), wa, tol*4)
				z := c.ev.SubNew(a, a)
				t.close("a-a", c.refDecrypt(z), make([]complex128, len(wa)), tol)
				t.check(deepHash(nil, a) == h, "operand changed")
			})
		}
	}
}

// mulWant computes the slot-wise product.
func mulWant(a, b []complex128) []complex128 {
	o := make([]complex128, len(a))
	for i := range a {
		o[i] = a[i] * b[i]
	}
	return o
}

// expRescale is the specification of the rescaling loop: number of dropped moduli and resulting scale.
func expRescale(r *ring.Ring, level int, scale, min float64) (int, float64) {
	n := 0
	for level-n > 0 && scale/float64(r.Modulus[level-n]) >= min/2 {
		scale /= float64(r.Modulus[level-n])
		n++
	}
	return n, scale
}

func mulPhase(rq *ring.Ring, a, b *ring.Poly, lvl int) *ring.Poly {
	x, y := ring.NewPoly(rq.N, lvl+1), ring.NewPoly(rq.N, lvl+1)
	rq.NTTLvl(lvl, a, x)
	rq.NTTLvl(lvl, b, y)
	rq.MFormLvl(lvl, x, x)
	rq.MulCoeffsMontgomeryLvl(lvl, x, y, x)
	rq.InvNTTLvl(lvl, x, x)
	return x
}

func (c *Ctx) checkMul(t *T, what string, a, b, o *mkckks.Ciphertext, wa, wb []complex128, ida, idb []string) {
	rq := c.params.RingQ()
	lvl := minInt(a.Level(), b.Level())
	n, sc := expRescale(rq, lvl, a.Scale*b.Scale, c.params.Scale())
	t.ids(what, o.Ciphertext, union(ida, idb)...)
	if !t.level(what, o.Ciphertext, lvl-n) {
		return
	}
	t.scale(what, o.Scale, sc)
	for _, p := range o.Value {
		t.check(!p.IsNTT, "component flagged NTT")
	}
	if lvl > 0 {
		t.close(what, c.refDecrypt(o), mulWant(wa, wb), tol*16)
	}
	// noise relative to the exact product phase, before rounding
	pr := mulPhase(rq, phase(rq, a.Ciphertext, c.sks), phase(rq, b.Ciphertext, c.sks), lvl)
	if n > 0 {
		pool := rq.NewPoly()
		out := ring.NewPoly(rq.N, lvl+1)
		rq.DivRoundByLastModulusManyLvl(lvl, n, pr, pool, out)
		pr = out
	}
	bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), pr, lvl-n)
	t.check(bits <= 26, "%s: result differs from the product of the phases by %d bits", what, bits)
}

func c04(t *T) {
	crowd(t, "C04")
	reuse(t, "C04")
	for _, ps := range psets {
		c := newCtx(ps, 4)
		L := c.params.MaxLevel()
		rq := c.params.RingQ()
		for _, pr := range pairs() {
			for l0 := 0; l0 <= L; l0++ {
				for l1 := 0; l1 <= L; l1++ {
					t.run(fmt.Sprintf("C04 %s MulRelinNew parties=%q,%q levels=%d,%d", ps.Name, pr[0], pr[1], l0, l1), func() {
						a, wa := c.fresh(t, l0, pr[0]...)
						b, wb := c.fresh(t, l1, pr[1]...)
						h := deepHash(hoistSkip, a, b, c.rlks)
						o := c.ev.MulRelinNew(a, b, c.rlks)
						t.check(deepHash(hoistSkip, a, b, c.rlks) == h, "operand or key changed")
						c.checkMul(t, "MulRelinNew", a, b, o, wa, wb, pr[0], pr[1])
					})
				}
			}
			for l0 := 1; l0 <= L; l0++ {
				t.run(fmt.Sprintf("C04 %s square parties=%q level=%d", ps.Name, pr[0], l0), func() {
					a, wa := c.fresh(t, l0, pr[0]...)
					h := deepHash(hoistSkip, a, c.rlks)
					o := c.ev.MulRelinNew(a, a, c.rlks)
					t.check(deepHash(hoistSkip, a, c.rlks) == h, "operand or key changed")
					c.checkMul(t, "square", a, a, o, wa, wa, pr[0], pr[0])
				})
			}
		}
		for _, pr := range morePairs(t, 4) {
			l0, l1 := 1+t.rng.Intn(L), 1+t.rng.Intn(L)
			t.run(fmt.Sprintf("C04 %s MulRelinNew all overlaps parties=%q,%q levels=%d,%d", ps.Name, pr[0], pr[1], l0, l1), func() {
				a, wa := c.fresh(t, l0, pr[0]...)
				b, wb := c.fresh(t, l1, pr[1]...)
				o := c.ev.MulRelinNew(a, b, c.rlks)
				c.checkMul(t, "MulRelinNew", a, b, o, wa, wb, pr[0], pr[1])
			})
		}
		for l0 := 1; l0 <= L; l0++ {
			t.run(fmt.Sprintf("C04 %s product of two handles of one ciphertext level=%d", ps.Name, l0), func() {
				a, wa := c.fresh(t, l0, c.ids[0], c.ids[1])
				b := &mkckks.Ciphertext{Ciphertext: a.Ciphertext, Scale: a.Scale}
				o := c.ev.MulRelinNew(a, b, c.rlks)
				c.checkMul(t, "MulRelinNew", a, b, o, wa, wa, c.ids[:2], c.ids[:2])
			})
		}
		t.run("C04 "+ps.Name+" chain of products down to level 0", func() {
			a, wa := c.fresh(t, L, c.ids[0], c.ids[1])
			b, wb := c.fresh(t, L, c.ids[1], c.ids[2])
			for a.Level() > 0 {
				o := c.ev.MulRelinNew(a, b, c.rlks)
				wa = mulWant(wa, wb)
				t.close(fmt.Sprintf("chain at level %d", o.Level()), c.refDecrypt(o), wa, tol*64)
				a = o
			}
		})
		_ = rq
	}
	// mkrlwe level: plain multiplication and external product
	for ri := range rlweSets {
		if rlweSets[ri].Gamma < 2 {
			continue // the product of two digits needs P at least twice as long as a digit
		}
		c := newRctx(ri, "a", "b", "c")
		ks := mkrlwe.NewKeySwitcher(c.params)
		rq := c.params.RingQ()
		L := c.params.MaxLevel()
		rl := mkrlwe.NewRelinearizationKeyKeySet(c.params)
		for _, id := range []string{"a", "b", "c"} {
			rl.AddRelinearizationKey(c.kgen.GenRelinearizationKey(c.sks.Value[id], c.kgen.GenSecretKey(id)))
		}
		for _, pr := range [][2][]string{{{"a"}, {"a"}}, {{"a"}, {"b"}}, {{"a", "b"}, {"b", "c"}}, {{"a", "b", "c"}, {"b"}}, {{"a"}, {"c", "b"}}} {
			for lvl := 0; lvl <= L; lvl++ {
				for d := 0; d < 3; d++ {
					t.run(fmt.Sprintf("C04 rlwe %s MulAndRelin parties=%q,%q level=%d d=%d", c.name, pr[0], pr[1], lvl, d), func() {
						mk := func(ids []string, l int) *mkrlwe.Ciphertext {
							ct := mkrlwe.NewCiphertext(c.params, idset(ids...), l)
							for k := range ct.Value {
								ct.Value[k] = randPoly(t, rq, l)
							}
							return ct
						}
						la, lb := lvl, lvl
						if d == 1 {
							la = L
						} else if d == 2 {
							lb = L
						}
						a, b := mk(pr[0], la), mk(pr[1], lb)
						o := mkrlwe.NewCiphertext(c.params, idset(union(pr[0], pr[1])...), lvl)
						if d != 0 {
							used(t, rq, o, lvl)
						}
						h := deepHash(hoistSkip, a, b, rl)
						ks.MulAndRelin(a, b, rl, o)
						t.check(deepHash(hoistSkip, a, b, rl) == h, "operand or key changed")
						want := mulPhase(rq, phase(rq, a, c.sks), phase(rq, b, c.sks), lvl)
						bits, _ := diffBits(rq, phase(rq, o, c.sks), want, lvl)
						t.check(bits <= 26, "product phase off by %d bits", bits)
					})
				}
			}
		}
		for lvl := 0; lvl <= L; lvl++ {
			for _, ntt := range []bool{false, true} {
				t.run(fmt.Sprintf("C04 rlwe %s ExternalProduct level=%d ntt=%v", c.name, lvl, ntt), func() {
					sw := mkrlwe.NewSwitchingKey(c.params)
					c.kgen.GenSwitchingKey(c.sks.Value["a"], sw)
					x := randPoly(t, rq, lvl)
					in := x.CopyNew()
					if ntt {
						rq.NTTLvl(lvl, in, in)
						in.IsNTT = true
					}
					out := ring.NewPoly(rq.N, lvl+1)
					h := deepHash(nil, in, sw)
					ks.ExternalProduct(lvl, in, sw, out)
					t.check(deepHash(nil, in, sw) == h, "input changed")
					want := ring.NewPoly(rq.N, lvl+1)
					rq.NTTLvl(lvl, x, want)
					rq.MulCoeffsMontgomeryLvl(lvl, want, c.sks.Value["a"].Value.Q, want)
					rq.InvNTTLvl(lvl, want, want)
					bits, _ := diffBits(rq, out, want, lvl)
					t.check(bits <= 20, "external product with a switching key of s is off by %d bits", bits)
				})
			}
		}
	}
}

func c05(t *T) {
	crowd(t, "C05")
	reuse(t, "C05")
	for _, ps := range psets {
		c := newCtx(ps, 4)
		L := c.params.MaxLevel()
		rq := c.params.RingQ()
		for _, pr := range pairs() {
			for l0 := 0; l0 <= L; l0++ {
				for _, l1 := range []int{l0, 1, L} {
					t.run(fmt.Sprintf("C05 %s mul parties=%q,%q levels=%d,%d", ps.Name, pr[0], pr[1], l0, l1), func() {
						a, wa := c.fresh(t, l0, pr[0]...)
						b, wb := c.fresh(t, l1, pr[1]...)
						ha, hb := c.ev.HoistedForm(a), c.ev.HoistedForm(b)
						t.check(len(ha.Value) == len(pr[0]), "hoisted form has %d entries", len(ha.Value))
						hh := deepHash(hoistSkip, a, b, ha, hb, c.rlks)
						for v := 0; v < 4; v++ {
							xa, xb := ha, hb
							if v&1 == 1 {
								xa = nil
							}
							if v&2 == 2 {
								xb = nil
							}
							if v == 2 {
								// other work in between
								c.ev.MulRelinNew(b, a, c.rlks)
								c.ev.AddNew(b, a)
							}
							o := c.ev.MulRelinHoistedNew(a, b, xa, xb, c.rlks)
							c.checkMul(t, fmt.Sprintf("MulRelinHoistedNew(op0Hoisted=%v,op1Hoisted=%v)", xa != nil, xb != nil), a, b, o, wa, wb, pr[0], pr[1])
							p := c.ev.MulRelinNew(a, b, c.rlks)
							t.check(p.Level() == o.Level() && p.Scale == o.Scale, "hoisted and plain disagree on level or scale")
							bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), phase(rq, p.Ciphertext, c.sks), o.Level())
							t.check(bits <= 26, "hoisted and plain products differ by %d bits", bits)
						}
						t.check(deepHash(hoistSkip, a, b, ha, hb, c.rlks) == hh, "operand, key or hoisted form changed")
					})
				}
			}
		}
		// the hoisted form follows the current content of the ciphertext, and older forms stay as they are
		for l1 := 0; l1 < L; l1++ {
			t.run(fmt.Sprintf("C05 %s hoisting again after the ciphertext was changed, level %d->%d", ps.Name, L, l1), func() {
				a, wa := c.fresh(t, L, c.ids[0], c.ids[1])
				old := c.ev.HoistedForm(a)
				b := a.CopyNew()
				h := deepHash(hoistSkip, old)
				m := c.msg(t)
				pt := c.enc.EncodeMsgNew(m)
				for id := range a.Value {
					if id != "0" && id != c.ids[0] {
						delete(a.Value, id)
					}
				}
				c.enc.EncryptPtxt(pt, c.pks.GetPublicKey(c.ids[0]), a)
				c.ev.DropLevel(a, L-l1)
				ha := c.ev.HoistedForm(a)
				t.check(len(ha.Value) == 1, "hoisted form has %d entries", len(ha.Value))
				t.check(deepHash(hoistSkip, old) == h, "older hoisted form changed")
				t.close("RotateHoistedNew", c.refDecrypt(c.ev.RotateHoistedNew(a, 1, ha, c.rtks)), rotWant(m.Value, 1), tol*8)
				t.close("RotateHoistedNew through the older form", c.refDecrypt(c.ev.RotateHoistedNew(b, 1, old, c.rtks)), rotWant(wa, 1), tol*8)
				o := c.ev.MulRelinHoistedNew(a, a, ha, ha, c.rlks)
				c.checkMul(t, "MulRelinHoistedNew", a, a, o, m.Value, m.Value, c.ids[:1], c.ids[:1])
			})
		}
		rots := []int{0, 1, 2, 4, 8, 3, -1, -8, c.params.N()/2 - 1, c.params.N()/2 + 1, -c.params.N(), 1 - c.params.N(), c.params.N() + 2}
		for lvl := 0; lvl <= L; lvl++ {
			for _, ids := range [][]string{{c.ids[0]}, {c.ids[1], c.ids[2]}, c.ids} {
				a, wa := c.fresh(t, lvl, ids...)
				ha := c.ev.HoistedForm(a)
				for _, k := range rots {
					if _, ok := c.params.CRS[mod(k, c.params.N()/2)]; !ok {
						continue
					}
					t.run(fmt.Sprintf("C05 %s rotate by %d parties=%q level=%d", ps.Name, k, ids, lvl), func() {
						h := deepHash(nil, a, ha, c.rtks)
						o := c.ev.RotateHoistedNew(a, k, ha, c.rtks)
						t.check(deepHash(nil, a, ha, c.rtks) == h, "operand, key or hoisted form changed")
						t.ids("RotateHoistedNew", o.Ciphertext, ids...)
						t.level("RotateHoistedNew", o.Ciphertext, lvl)
						t.scale("RotateHoistedNew", o.Scale, a.Scale)
						t.close("RotateHoistedNew", c.refDecrypt(o), rotWant(wa, k), tol*8)
						p := c.ev.RotateNew(a, k, c.rtks)
						bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), phase(rq, p.Ciphertext, c.sks), lvl)
						t.check(bits <= 20, "hoisted and plain rotations differ by %d bits", bits)
					})
				}
			}
		}
	}
	rlweRotations(t, "C05")
}

func mod(k, n int) int { return ((k % n) + n) % n }

func rotWant(v []complex128, k int) []complex128 {
	n := len(v)
	o := make([]complex128, n)
	for i := range o {
		o[i] = v[mod(i+k, n)]
	}
	return o
}

func c06(t *T) {
	crowd(t, "C06")
	reuse(t, "C06")
	for pi, ps := range psets {
		c := newCtx(ps, 4)
		L := c.params.MaxLevel()
		N := c.params.N()
		for _, ids := range [][]string{{c.ids[0]}, {c.ids[1], c.ids[2]}, c.ids} {
			for lvl := 0; lvl <= L; lvl++ {
				var ks []int
				if lvl == L && len(ids) == 2 && pi != 2 {
					for k := -N - 3; k <= N+3; k++ {
						ks = append(ks, k)
					}
				} else {
					ks = []int{-1, 0, 1, 2, 3, 5, N/4 - 1, N / 4, N/2 - 1, N / 2, N/2 + 1, -N / 2, -N/2 + 3, 7*N + 5, -9*N - 2, -3, t.rng.Intn(N) - N/2}
				}
				a, wa := c.fresh(t, lvl, ids...)
				for _, k := range ks {
					t.run(fmt.Sprintf("C06 %s rotate by %d parties=%q level=%d", ps.Name, k, ids, lvl), func() {
						h := deepHash(nil, a, c.rtks)
						o := c.ev.RotateNew(a, k, c.rtks)
						t.check(deepHash(nil, a, c.rtks) == h, "operand or key changed")
						t.ids("RotateNew", o.Ciphertext, ids...)
						t.level("RotateNew", o.Ciphertext, lvl)
						t.scale("RotateNew", o.Scale, a.Scale)
						t.close("RotateNew", c.refDecrypt(o), rotWant(wa, k), tol*8)
						for _, p := range o.Value {
							t.check(!p.IsNTT, "component flagged NTT")
						}
					})
				}
			}
		}
		// rotation keys generated for negative and large amounts
		for _, k := range []int{-1, -N / 4, -N/2 + 1, N/2 - 1} {
			t.run(fmt.Sprintf("C06 %s key generated for rotation by %d", ps.Name, k), func() {
				set := mkrlwe.NewRotationKeySet()
				for _, id := range c.ids[:2] {
					set.AddRotationKey(c.kgen.GenRotationKey(mod(k, N/2), c.sks.Value[id]))
				}
				a, wa := c.fresh(t, L, c.ids[0], c.ids[1])
				if _, ok := c.params.CRS[mod(k, N/2)]; ok {
					t.close("RotateNew", c.refDecrypt(c.ev.RotateNew(a, k, set)), rotWant(wa, k), tol*8)
				}
			})
		}
		// missing keys
		for _, k := range []int{1, 2, 3, 5, 7, -1, -4, N/2 - 1, N/2 - 2} {
			for _, miss := range []string{c.ids[0], c.ids[1]} {
				t.run(fmt.Sprintf("C06 %s rotate by %d without any key of %q", ps.Name, k, miss), func() {
					set := mkrlwe.NewRotationKeySet()
					for id, m := range c.rtks.Value {
						if id != miss {
							for _, rk := range m {
								set.AddRotationKey(rk)
							}
						}
					}
					a, _ := c.fresh(t, L, c.ids[0], c.ids[1])
					t.check(panics(func() { c.ev.RotateNew(a, k, set) }), "rotation without %q's keys did not refuse", miss)
				})
				t.run(fmt.Sprintf("C06 %s rotate by %d without the step keys of %q", ps.Name, k, miss), func() {
					steps := map[int]bool{}
					kk := mod(k, N/2)
					if _, ok := c.params.CRS[kk]; ok {
						steps[kk] = true
					} else {
						for b := 1; b <= kk; b *= 2 {
							if kk&b != 0 {
								steps[b] = true
							}
						}
					}
					for st := range steps {
						set := mkrlwe.NewRotationKeySet()
						for id, m := range c.rtks.Value {
							for _, rk := range m {
								if !(id == miss && int(rk.RotIdx) == st) {
									set.AddRotationKey(rk)
								}
							}
						}
						a, _ := c.fresh(t, L, c.ids[0], c.ids[1])
						t.check(panics(func() { c.ev.RotateNew(a, k, set) }), "rotation by %d without %q's key for step %d did not refuse", k, miss, st)
					}
				})
			}
		}
	}
	rlweRotations(t, "C06")
}

// rlweRotations: rotations of the key switcher itself, plain and through a hoisted form.
func rlweRotations(t *T, prop string) {
	// mkrlwe level
	for ri := range rlweSets {
		c := newRctx(ri, "a", "b")
		rq := c.params.RingQ()
		L := c.params.MaxLevel()
		set := mkrlwe.NewRotationKeySet()
		for _, id := range []string{"a", "b"} {
			c.kgen.GenDefaultRotationKeys(c.sks.Value[id], set)
		}
		ks := mkrlwe.NewKeySwitcher(c.params)
		for lo := 0; lo <= L; lo++ {
			for li := lo; li <= L; li++ {
				for _, k := range []int{1, 2, c.params.N() / 4, 1 - c.params.N()/2} {
					t.run(fmt.Sprintf(prop+" rlwe %s Rotate by %d levels %d->%d", c.name, k, li, lo), func() {
						a := mkrlwe.NewCiphertext(c.params, idset("a", "b"), li)
						for id := range a.Value {
							a.Value[id] = randPoly(t, rq, li)
						}
						o := mkrlwe.NewCiphertext(c.params, idset("a", "b"), lo)
						if k != 1 {
							used(t, rq, o, lo)
						}
						h := deepHash(nil, a, set)
						ks.Rotate(a, k, set, o)
						t.check(deepHash(nil, a, set) == h, "operand changed")
						ph := phase(rq, a, c.sks)
						want := ring.NewPoly(rq.N, lo+1)
						g := c.params.GaloisElementForColumnRotationBy(mod(k, c.params.N()/2))
						permute(rq, ph, g, want, lo)
						bits, _ := diffBits(rq, phase(rq, o, c.sks), want, lo)
						t.check(bits <= 20, "rotated phase off by %d bits", bits)
						ah := mkrlwe.NewHoistedCiphertext()
						for id := range idset("a", "b").Value {
							ah.Value[id] = mkrlwe.NewSwitchingKey(c.params)
							ks.Decompose(li, a.Value[id], ah.Value[id])
						}
						oh := mkrlwe.NewCiphertext(c.params, idset("a", "b"), lo)
						h2 := deepHash(nil, ah)
						// digits of a higher level are those of the lower one only where the geometry agrees
						if li == lo {
							if k != 1 {
								used(t, rq, oh, lo)
							}
							ks.RotateHoisted(a, k, ah, set, oh)
							t.check(deepHash(nil, a, set) == h && deepHash(nil, ah) == h2, "operand changed")
							bits, _ = diffBits(rq, phase(rq, oh, c.sks), want, lo)
							t.check(bits <= 20, "rotated phase through the hoisted form off by %d bits", bits)
						}
					})
				}
			}
		}
	}
}

// permute applies X -> X^g independently of the code under test.
func permute(r *ring.Ring, in *ring.Poly, g uint64, out *ring.Poly, lvl int) {
	n := uint64(r.N)
	for i := uint64(0); i < n; i++ {
		e := (i * g) % (2 * n)
		for j := 0; j <= lvl; j++ {
			q := r.Modulus[j]
			v := in.Coeffs[j][i] % q
			if e >= n {
				v = (q - v) % q
			}
			out.Coeffs[j][e%n] = v
		}
	}
}

func conjWant(v []complex128) []complex128 {
	o := make([]complex128, len(v))
	for i := range v {
		o[i] = cmplx.Conj(v[i])
	}
	return o
}

func c07(t *T) {
	crowd(t, "C07")
	reuse(t, "C07")
	for _, ps := range psets {
		c := newCtx(ps, 4)
		L := c.params.MaxLevel()
		for _, ids := range subsets(c.ids) {
			for lvl := 0; lvl <= L; lvl++ {
				t.run(fmt.Sprintf("C07 %s conjugate parties=%q level=%d", ps.Name, ids, lvl), func() {
					a, wa := c.fresh(t, lvl, ids...)
					h := deepHash(nil, a, c.cjks)
					o := c.ev.ConjugateNew(a, c.cjks)
					t.check(deepHash(nil, a, c.cjks) == h, "operand or key changed")
					t.ids("ConjugateNew", o.Ciphertext, ids...)
					t.level("ConjugateNew", o.Ciphertext, lvl)
					t.scale("ConjugateNew", o.Scale, a.Scale)
					t.close("ConjugateNew", c.refDecrypt(o), conjWant(wa), tol*8)
					for _, p := range o.Value {
						t.check(!p.IsNTT, "component flagged NTT")
					}
				})
			}
			for _, miss := range ids {
				t.run(fmt.Sprintf("C07 %s conjugate parties=%q missing=%q", ps.Name, ids, miss), func() {
					set := mkrlwe.NewConjugationKeySet()
					for id, k := range c.cjks.Value {
						if id != miss {
							set.AddConjugationKey(k)
						}
					}
					a, _ := c.fresh(t, L, ids...)
					t.check(panics(func() { c.ev.ConjugateNew(a, set) }), "conjugation without %q's key did not refuse", miss)
				})
			}
		}
	}
	for ri := range rlweSets {
		c := newRctx(ri, "a", "b")
		rq := c.params.RingQ()
		L := c.params.MaxLevel()
		set := mkrlwe.NewConjugationKeySet()
		for _, id := range []string{"a", "b"} {
			set.AddConjugationKey(c.kgen.GenConjugationKey(c.sks.Value[id]))
		}
		ks := mkrlwe.NewKeySwitcher(c.params)
		for lo := 0; lo <= L; lo++ {
			for li := lo; li <= L; li++ {
				t.run(fmt.Sprintf("C07 rlwe %s Conjugate levels %d->%d", c.name, li, lo), func() {
					a := mkrlwe.NewCiphertext(c.params, idset("a", "b"), li)
					for id := range a.Value {
						a.Value[id] = randPoly(t, rq, li)
					}
					o := mkrlwe.NewCiphertext(c.params, idset("a", "b"), lo)
					if (li+lo)%2 == 1 || li == L {
						used(t, rq, o, lo)
					}
					h := deepHash(nil, a, set)
					ks.Conjugate(a, set, o)
					t.check(deepHash(nil, a, set) == h, "operand changed")
					want := ring.NewPoly(rq.N, lo+1)
					permute(rq, phase(rq, a, c.sks), uint64(2*rq.N-1), want, lo)
					bits, _ := diffBits(rq, phase(rq, o, c.sks), want, lo)
					t.check(bits <= 20, "conjugated phase off by %d bits", bits)
				})
			}
		}
	}
}

// rounded checks that every coefficient of every part of o is that of a divided by
// the n dropped moduli and rounded to nearest (one rounding per dropped modulus).
func (t *T) rounded(rq *ring.Ring, a, o *mkrlwe.Ciphertext, lvl, n int) {
	D := big.NewInt(1)
	for j := lvl - n + 1; j <= lvl; j++ {
		D.Mul(D, new(big.Int).SetUint64(rq.Modulus[j]))
	}
	Q := big.NewInt(1)
	for j := 0; j <= lvl-n; j++ {
		Q.Mul(Q, new(big.Int).SetUint64(rq.Modulus[j]))
	}
	lim := new(big.Int).Rsh(D, 1)
	lim.Add(lim, new(big.Int).Rsh(D, 10))
	for id, p := range a.Value {
		in, out := centered(rq, p, lvl), centered(rq, o.Value[id], lvl-n)
		for w := range in {
			d := new(big.Int).Mul(out[w], D)
			d.Sub(d, in[w])
			// centred modulo Q*D
			m := new(big.Int).Mul(Q, D)
			d.Mod(d, m)
			if new(big.Int).Lsh(d, 1).Cmp(m) > 0 {
				d.Sub(d, m)
			}
			if !t.check(d.CmpAbs(lim) <= 0, "part %q coefficient %d is not the quotient rounded to nearest after dropping %d moduli (off by %v of %v)", id, w, n, d, D) {
				return
			}
		}
	}
}

func c08(t *T) {
	crowd(t, "C08")
	reuse(t, "C08")
	for _, ps := range psets {
		c := newCtx(ps, 3)
		L := c.params.MaxLevel()
		rq := c.params.RingQ()
		cp, _ := ckks.NewParameters(c.params.Parameters.Parameters, c.params.LogSlots(), c.params.Scale())
		ecd := ckks.NewEncoder(cp)
		_ = ecd
		S := c.params.Scale()
		scales := []float64{1, S / 4, S, S * 1.5, S * 64, S * S / 2, S * S, S * S * 4, S * S * S, S * S * S * S * S, math.Pow(S, 12)}
		mins := []float64{S, S / 16, S * 8, 1, S * S, S / 1024, 1e-30}
		for lvl := 0; lvl <= L; lvl++ {
			// the last modulus leaves exactly half the minimum
			half := float64(rq.Modulus[lvl])
			for si, sc := range append(append([]float64{}, scales...), half, half*(1<<30)) {
				ms := mins
				if si >= len(scales) {
					ms = []float64{2 * sc / half}
				}
				for _, mn := range ms {
					for mode := 0; mode < 3; mode++ {
						ids := []string{c.ids[0], c.ids[2]}
						t.run(fmt.Sprintf("C08 %s rescale level=%d scale=%g min=%g mode=%s", ps.Name, lvl, sc, mn, []string{"new", "in place", "into"}[mode]), func() {
							a, _ := c.fresh(t, lvl, ids...)
							a.Scale = sc
							ref := a.CopyNew()
							var o *mkckks.Ciphertext
							var err error
							if mode == 0 {
								h := deepHash(nil, a)
								o, err = c.ev.RescaleNew(a, mn)
								t.check(deepHash(nil, a) == h, "input changed")
							} else if mode == 2 { // into a ciphertext that held something else
								o, _ = c.fresh(t, lvl, ids...)
								if lvl == 0 && c.params.MaxLevel() > 0 {
									o, _ = c.fresh(t, 1, ids...)
								}
								o.Scale = 123
								h := deepHash(nil, a)
								err = c.ev.Rescale(a, mn, o)
								t.check(deepHash(nil, a) == h, "input changed")
							} else {
								o = a
								err = c.ev.Rescale(a, mn, a)
							}
							if lvl == 0 {
								t.check(err != nil, "no error at level 0")
								return
							}
							if !t.check(err == nil, "error %v", err) {
								return
							}
							if mode != 1 {
								t.disjoint("rescaled", storage(o), storage(a))
							}
							n, ws := expRescale(rq, lvl, sc, mn)
							t.ids("rescaled", o.Ciphertext, ids...)
							if !t.level("rescaled", o.Ciphertext, lvl-n) {
								return
							}
							t.scale("rescaled", o.Scale, ws)
							// message: phase divided by the dropped moduli
							pr := phase(rq, ref.Ciphertext, c.sks)
							if n > 0 {
								out := ring.NewPoly(rq.N, lvl+1)
								rq.DivRoundByLastModulusManyLvl(lvl, n, pr, rq.NewPoly(), out)
								pr = out
							}
							bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), pr, lvl-n)
							lim := 8
							if n == 0 {
								lim = 0
							}
							t.check(bits <= lim, "message off by %d bits after dropping %d moduli", bits, n)
							t.rounded(rq, ref.Ciphertext, o.Ciphertext, lvl, n)
						})
					}
				}
			}
			t.run(fmt.Sprintf("C08 %s rescale errors level=%d", ps.Name, lvl), func() {
				a, _ := c.fresh(t, lvl, c.ids[0])
				for _, mn := range []float64{0, -1, -S} {
					_, err := c.ev.RescaleNew(a, mn)
					t.check(err != nil, "no error for minimum %g", mn)
					t.check(c.ev.Rescale(a, mn, a) != nil, "no error in place for minimum %g", mn)
				}
				a.Scale = 0
				_, err := c.ev.RescaleNew(a, S)
				t.check(err != nil, "no error for scale 0")
			})
			for d := 0; d <= lvl; d++ {
				t.run(fmt.Sprintf("C08 %s drop %d levels from %d", ps.Name, d, lvl), func() {
					ids := []string{c.ids[1], c.ids[2]}
					a, wa := c.fresh(t, lvl, ids...)
					h := deepHash(nil, a)
					o := c.ev.DropLevelNew(a, d)
					t.check(deepHash(nil, a) == h, "input changed")
					t.ids("DropLevelNew", o.Ciphertext, ids...)
					t.level("DropLevelNew", o.Ciphertext, lvl-d)
					t.scale("DropLevelNew", o.Scale, a.Scale)
					t.close("DropLevelNew", c.refDecrypt(o), wa, tol*4)
					c.ev.DropLevel(a, d)
					t.level("DropLevel", a.Ciphertext, lvl-d)
					t.scale("DropLevel", a.Scale, o.Scale)
					t.close("DropLevel", c.refDecrypt(a), wa, tol*4)
				})
			}
		}
	}
}

func c09(t *T) {
	crowd(t, "C09")
	reuse(t, "C09")
	for pi, ps := range psets {
		c := newCtx(ps, 3)
		L := c.params.MaxLevel()
		rq := c.params.RingQ()
		cp, _ := ckks.NewParameters(c.params.Parameters.Parameters, c.params.LogSlots(), c.params.Scale())
		ecd := ckks.NewEncoder(cp)
		for lvl := 0; lvl <= L; lvl++ {
			for _, ids := range subsets(c.ids) {
				for kind, psc := range []float64{1, 0.25, 1 << 10, 1, 1, 2} {
					t.run(fmt.Sprintf("C09 %s plaintext product parties=%q level=%d ptScale=%g*default kind %d", ps.Name, ids, lvl, psc, kind), func() {
						a, wa := c.fresh(t, lvl, ids...)
						m := c.msg(t)
						if kind >= 3 { // one slot value everywhere: positive, negative, complex
							k := []complex128{1.75, -0.625, complex(-1.5, 2.25)}[kind-3]
							for i := range m.Value {
								m.Value[i] = k
							}
						}
						pt := ckks.NewPlaintext(cp, L, c.params.Scale()*psc)
						ecd.Encode(pt, m.Value, c.params.LogSlots())
						h := deepHash(nil, a, pt)
						o := c.ev.MulPtxtNew(a, pt)
						t.check(deepHash(nil, a, pt) == h, "operand changed")
						n, sc := expRescale(rq, lvl, a.Scale*pt.Scale, c.params.Scale())
						t.ids("MulPtxtNew", o.Ciphertext, ids...)
						if !t.level("MulPtxtNew", o.Ciphertext, lvl-n) {
							return
						}
						t.scale("MulPtxtNew", o.Scale, sc)
						if lvl > 0 {
							t.close("MulPtxtNew", c.refDecrypt(o), mulWant(wa, m.Value), tol*64)
						}
						prr := mulPhase(rq, phase(rq, a.Ciphertext, c.sks), pt.Value, lvl)
						if n > 0 {
							out := ring.NewPoly(rq.N, lvl+1)
							rq.DivRoundByLastModulusManyLvl(lvl, n, prr, rq.NewPoly(), out)
							prr = out
						}
						bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), prr, lvl-n)
						t.check(bits <= 8, "plaintext product off by %d bits", bits)
					})
				}
			}
			consts := []interface{}{0, 1, 2, -3, int64(-7), uint64(12), 2.0, -5.0, 0.5, -0.25, 3.14159, -0.001, 0.0, complex(2, 0), complex(0, 1), complex(-1, 2), complex(0.5, -0.75), complex(0, -3), complex(0, 0.75), complex(0, -0.3), complex(3, 0.5), complex(-0.5, 4), complex(0, 0), complex(t.rng.NormFloat64(), t.rng.NormFloat64()), t.rng.NormFloat64(), complex(-0.125, 0), complex(1.5, 2), 1 << 20, -(1 << 20), 1 << 62, ^uint64(0), math.Exp2(63), -1e19, 1e20, 1e30, complex(1e20, 0), complex(1, 1e20)}
			// residues at the edges of a modulus
			qi := int64(rq.Modulus[t.rng.Intn(lvl+1)])
			consts = append(consts, -(qi - 1), qi-1, qi, -qi, float64(-qi-1), complex(float64(1-qi), 0), complex(float64(qi/2), 0), -(qi / 2), -(qi+1)/2)
			for _, k := range consts {
				for lo := lvl; lo <= L; lo++ {
					if lo != lvl && lo != L {
						continue
					}
					t.run(fmt.Sprintf("C09 %s constant %v (%T) level=%d outLevel=%d", ps.Name, k, k, lvl, lo), func() {
						ids := []string{c.ids[0], c.ids[1]}
						a, wa := c.fresh(t, lvl, ids...)
						o := mkckks.NewCiphertext(c.params, idset(ids...), lo, 1)
						h := deepHash(nil, a)
						c.ev.MultByConst(a, k, o)
						t.check(deepHash(nil, a) == h, "operand changed")
						kc := toC(k)
						frac := real(kc) != math.Trunc(real(kc)) || imag(kc) != math.Trunc(imag(kc))
						ws := a.Scale
						if frac {
							ws *= float64(rq.Modulus[lvl])
						}
						t.scale("MultByConst", o.Scale, ws)
						for _, p := range o.Value {
							p.Coeffs = p.Coeffs[:lvl+1]
						}
						if frac && lvl == 0 {
							return
						}
						w := make([]complex128, len(wa))
						for i := range w {
							w[i] = wa[i] * kc
						}
						if cmplx.Abs(kc) < 1000 {
							t.close("MultByConst", c.refDecrypt(o), w, tol*64)
						}
						if imag(kc) == 0 && !frac {
							want := mulConstPoly(rq, phase(rq, a.Ciphertext, c.sks), lvl, math.Abs(real(kc)))
							if real(kc) < 0 {
								rq.NegLvl(lvl, want, want)
							}
							bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), want, lvl)
							t.check(bits == 0, "product with an integer constant off by %d bits", bits)
						}
						// in place
						b := a.CopyNew()
						c.ev.MultByConst(b, k, b)
						t.scale("MultByConst in place", b.Scale, ws)
						x, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), phase(rq, b.Ciphertext, c.sks), lvl)
						t.check(x == 0, "in-place product differs by %d bits", x)
					})
				}
			}
		}
		_ = pi
	}
}

func toC(k interface{}) complex128 {
	switch x := k.(type) {
	case int:
		return complex(float64(x), 0)
	case int64:
		return complex(float64(x), 0)
	case uint64:
		return complex(float64(x), 0)
	case float64:
		return complex(x, 0)
	case complex128:
		return x
	}
	panic("constant")
}

// used fills a ciphertext with what an earlier operation may have left there.
func used(t *T, r *ring.Ring, ct *mkrlwe.Ciphertext, lvl int) {
	for _, p := range ct.Value {
		q := randPoly(t, r, lvl)
		for i := range q.Coeffs {
			copy(p.Coeffs[i], q.Coeffs[i])
		}
	}
}

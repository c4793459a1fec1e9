package main

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkrlwe"
)

func init() {
	props["C12"] = c12
}

func prodBig(ms []uint64) *big.Int {
	p := big.NewInt(1)
	for _, m := range ms {
		p.Mul(p, new(big.Int).SetUint64(m))
	}
	return p
}

// crt returns the coefficients as integers in [0, prod(ms)).
func crt(ms []uint64, rows [][]uint64) []*big.Int {
	Q := prodBig(ms)
	out := make([]*big.Int, len(rows[0]))
	for w := range out {
		out[w] = new(big.Int)
	}
	for i, m := range ms {
		qi := new(big.Int).SetUint64(m)
		h := new(big.Int).Div(Q, qi)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(h, qi), qi)
		h.Mul(h, inv)
		for w := range out {
			x := new(big.Int).SetUint64(rows[i][w] % m)
			out[w].Add(out[w], x.Mul(x, h))
		}
	}
	for w := range out {
		out[w].Mod(out[w], Q)
	}
	return out
}

// sameSmall checks that the residues rows (mod ms) are residues of x + k*D, one
// |k| <= slack per coefficient, where x in [0,D).
func sameSmall(ms []uint64, rows [][]uint64, x []*big.Int, D *big.Int, slack int64) (bool, string) {
	for w := range x {
		ok := false
		for k := -slack; k <= slack && !ok; k++ {
			v := new(big.Int).Add(x[w], new(big.Int).Mul(big.NewInt(k), D))
			good := true
			for j, m := range ms {
				r := new(big.Int).Mod(v, new(big.Int).SetUint64(m)).Uint64()
				if rows[j][w]%m != r {
					good = false
					break
				}
			}
			ok = good
		}
		if !ok {
			return false, fmt.Sprintf("coefficient %d (value %v)", w, x[w])
		}
	}
	return true, ""
}

// edgePoly has random coefficients with extreme ones mixed in.
func edgePoly(t *T, ms []uint64, N int) *ring.Poly {
	p := ring.NewPoly(N, len(ms))
	Q := prodBig(ms)
	for w := 0; w < N; w++ {
		var v *big.Int
		switch t.rng.Intn(12) { // not tied to w: the code treats eight neighbouring coefficients in eight separate statements
		case 0:
			v = big.NewInt(0)
		case 1:
			v = new(big.Int).Sub(Q, big.NewInt(1))
		case 2:
			v = new(big.Int).Rsh(Q, 1)
		case 3:
			v = big.NewInt(int64(t.rng.Intn(1000)))
		case 4:
			v = new(big.Int).Sub(Q, big.NewInt(int64(t.rng.Intn(1000))+1))
		default:
			v = new(big.Int).Rand(t.rng, Q)
		}
		for j, m := range ms {
			p.Coeffs[j][w] = new(big.Int).Mod(v, new(big.Int).SetUint64(m)).Uint64()
		}
	}
	return p
}

func garbagePoly(t *T, N, rows int) *ring.Poly {
	p := ring.NewPoly(N, rows)
	for j := range p.Coeffs {
		for w := range p.Coeffs[j] {
			p.Coeffs[j][w] = t.rng.Uint64() >> 20
		}
	}
	return p
}

func c12(t *T) {
	ps, names := allRlwe()
	for pi, p := range ps {
		rq, rp := p.RingQ(), p.RingP()
		Qm, Pm := rq.Modulus, rp.Modulus
		lp := len(Pm) - 1
		alpha := len(Pm) / p.Gamma()
		N := p.N()
		ks := mkrlwe.NewKeySwitcher(p)
		dec := mkrlwe.NewDecomposer(rq, rp, p.Gamma())
		be := mkrlwe.NewFastBasisExtender(rq, rp)
		reps := 2
		if t.thorough {
			reps = 12
		}
		for rep := 0; rep < reps; rep++ {
			for lvl := 0; lvl < len(Qm); lvl++ {
				beta := (lvl + alpha) / alpha
				t.run(fmt.Sprintf("C12 %s decomposition level=%d #%d", names[pi], lvl, rep), func() {
					in := edgePoly(t, Qm[:lvl+1], N)
					h := deepHash(nil, in)
					used := map[int]int{}
					for i := 0; i < beta; i++ {
						oq, op := garbagePoly(t, N, len(Qm)), garbagePoly(t, N, len(Pm))
						dec.DecomposeAndSplit(lvl, lp, alpha, i, p.Gamma(), in, oq, op)
						t.digit(fmt.Sprintf("digit %d", i), p, in, lvl, i, oq.Coeffs, op.Coeffs)
						for j := i * alpha; j < (i+1)*alpha && j <= lvl; j++ {
							used[j]++
						}
						oq2, op2 := garbagePoly(t, N, len(Qm)), garbagePoly(t, N, len(Pm))
						ks.DecomposeSingleNTT(lvl, lp, alpha, i, p.Gamma(), in, oq2, op2)
						rq.InvNTTLvl(lvl, oq2, oq2)
						rp.InvNTTLvl(lp, op2, op2)
						t.digit(fmt.Sprintf("DecomposeSingleNTT digit %d", i), p, in, lvl, i, oq2.Coeffs, op2.Coeffs)
					}
					t.check(deepHash(nil, in) == h, "decomposition changed its input")
					for _, ntt := range []bool{false, true} {
						src := in.CopyNew()
						if ntt {
							rq.NTTLvl(lvl, src, src)
							src.IsNTT = true
						}
						hs := deepHash(nil, src)
						out := mkrlwe.NewSwitchingKey(p)
						ks.Decompose(lvl, src, out)
						t.check(deepHash(nil, src) == hs, "Decompose changed its input")
						t.check(p.Beta(lvl) == beta, "number of digits")
						for i := 0; i < beta; i++ {
							rq.InvNTTLvl(lvl, out.Value[i].Q, out.Value[i].Q)
							rp.InvNTTLvl(lp, out.Value[i].P, out.Value[i].P)
							t.digit(fmt.Sprintf("Decompose(ntt=%v) digit %d", ntt, i), p, in, lvl, i, out.Value[i].Q.Coeffs, out.Value[i].P.Coeffs)
						}
					}
				})
				for lvp := 0; lvp <= lp; lvp++ {
					t.run(fmt.Sprintf("C12 %s basis extension levels=%d,%d #%d", names[pi], lvl, lvp, rep), func() {
						qs, pms := Qm[:lvl+1], Pm[:lvp+1]
						a := edgePoly(t, qs, N)
						ha := deepHash(nil, a)
						o := garbagePoly(t, N, len(Pm))
						be.ModUpQtoP(lvl, lvp, a, o)
						ok, why := sameSmall(pms, o.Coeffs, crt(qs, a.Coeffs), prodBig(qs), 1)
						t.check(ok, "ModUpQtoP: wrong value at %s", why)
						t.check(deepHash(nil, a) == ha, "ModUpQtoP changed its input")
						b := edgePoly(t, pms, N)
						o = garbagePoly(t, N, len(Qm))
						be.ModUpPtoQ(lvp, lvl, b, o)
						ok, why = sameSmall(qs, o.Coeffs, crt(pms, b.Coeffs), prodBig(pms), 1)
						t.check(ok, "ModUpPtoQ: wrong value at %s", why)
						// division by P
						x := edgePoly(t, append(append([]uint64{}, qs...), pms...), N)
						split := func() (*ring.Poly, *ring.Poly) {
							xq, xp := ring.NewPoly(N, lvl+1), ring.NewPoly(N, lvp+1)
							for j := range xq.Coeffs {
								copy(xq.Coeffs[j], x.Coeffs[j])
							}
							for j := range xp.Coeffs {
								copy(xp.Coeffs[j], x.Coeffs[lvl+1+j])
							}
							return xq, xp
						}
						val := crt(append(append([]uint64{}, qs...), pms...), x.Coeffs)
						quo := func(D *big.Int) []*big.Int {
							r := make([]*big.Int, N)
							for w := range r {
								r[w] = new(big.Int).Div(val[w], D)
							}
							return r
						}
						xq, xp := split()
						o = garbagePoly(t, N, len(Qm))
						be.ModDownQPtoQ(lvl, lvp, xq, xp, o)
						ok, why = sameSmall(qs, o.Coeffs, quo(prodBig(pms)), big.NewInt(1), 2)
						t.check(ok, "ModDownQPtoQ is not the quotient: %s", why)
						be.ModDownQPtoQ(lvl, lvp, xq, xp, xq)
						ok, why = sameSmall(qs, xq.Coeffs, quo(prodBig(pms)), big.NewInt(1), 2)
						t.check(ok, "ModDownQPtoQ in place is not the quotient: %s", why)
						xq, xp = split()
						rq.NTTLvl(lvl, xq, xq)
						rp.NTTLvl(lvp, xp, xp)
						be.ModDownQPtoQNTT(lvl, lvp, xq, xp, o)
						rq.InvNTTLvl(lvl, o, o)
						ok, why = sameSmall(qs, o.Coeffs, quo(prodBig(pms)), big.NewInt(1), 2)
						t.check(ok, "ModDownQPtoQNTT is not the quotient: %s", why)
						xq, xp = split()
						o = garbagePoly(t, N, len(Pm))
						be.ModDownQPtoP(lvl, lvp, xq, xp, o)
						ok, why = sameSmall(pms, o.Coeffs, quo(prodBig(qs)), big.NewInt(1), 2)
						t.check(ok, "ModDownQPtoP is not the quotient: %s", why)
						// a shallow copy gives the same and shares no buffers
						sc := be.ShallowCopy()
						xq, xp = split()
						o = garbagePoly(t, N, len(Qm))
						sc.ModDownQPtoQ(lvl, lvp, xq, xp, o)
						ok, why = sameSmall(qs, o.Coeffs, quo(prodBig(pms)), big.NewInt(1), 2)
						t.check(ok, "ShallowCopy: ModDownQPtoQ is not the quotient: %s", why)
					})
				}
			}
		}
		// a shallow copy can be used at the same time as the original
		t.run(fmt.Sprintf("C12 %s a basis extender and two shallow copies at the same time", names[pi]), func() {
			l, lp := len(Qm)-1, len(Pm)-1
			ops := []func(be *mkrlwe.FastBasisExtender, x, y, o *ring.Poly){
				func(be *mkrlwe.FastBasisExtender, x, y, o *ring.Poly) { be.ModDownQPtoQ(l, lp, x, y, o) },
				func(be *mkrlwe.FastBasisExtender, x, y, o *ring.Poly) { be.ModDownQPtoQNTT(l, lp, x, y, o) },
				func(be *mkrlwe.FastBasisExtender, x, y, o *ring.Poly) { be.ModDownQPtoP(l, lp, x, y, o) },
			}
			bes := []*mkrlwe.FastBasisExtender{be, be.ShallowCopy(), nil}
			bes[2] = bes[1].ShallowCopy()
			for oi, op := range ops {
				size := len(Qm)
				if oi == 2 {
					size = len(Pm)
				}
				xs, ys, want := make([]*ring.Poly, len(bes)), make([]*ring.Poly, len(bes)), make([]*ring.Poly, len(bes))
				for i := range bes {
					xs[i], ys[i], want[i] = edgePoly(t, Qm, N), edgePoly(t, Pm, N), garbagePoly(t, N, size)
					op(bes[i], xs[i].CopyNew(), ys[i].CopyNew(), want[i])
				}
				var wg sync.WaitGroup
				bad := make([]int, len(bes))
				for i := range bes {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						defer func() {
							if recover() != nil {
								bad[i]++
							}
						}()
						for n := 0; n < 1500; n++ {
							o := ring.NewPoly(N, size)
							op(bes[i], xs[i].CopyNew(), ys[i].CopyNew(), o)
							if !o.Equals(want[i]) {
								bad[i]++
							}
						}
					}(i)
				}
				wg.Wait()
				for i, b := range bad {
					t.check(b == 0, "division by P, operation %d, extender %d: %d of 1500 results differ when the others work at the same time", oi, i, b)
				}
			}
		})
		// external product: <decompose(a), g*b + noise-free gadget> = a*b
		t.run(fmt.Sprintf("C12 %s external product with a noise-free gadget", names[pi]), func() {
			o := qpops{p}
			for lvl := 0; lvl < len(Qm); lvl++ {
				b := ring.NewPoly(N, len(Qm))
				for w := 0; w < N; w++ {
					v := int64(t.rng.Intn(3)) - 1
					for j, m := range Qm {
						b.Coeffs[j][w] = uint64((v + int64(m))) % m
					}
				}
				rq.NTTLvl(len(Qm)-1, b, b)
				bm := b.CopyNew()
				rq.MFormLvl(len(Qm)-1, bm, bm)
				g := mkrlwe.NewSwitchingKey(p)
				for i := range g.Value {
					o.subGadget(g.Value[i], qp{Q: bm, P: rp.NewPoly()}, i, true)
				}
				a := edgePoly(t, Qm[:lvl+1], N)
				for _, ntt := range []bool{false, true} {
					in := a.CopyNew()
					if ntt {
						rq.NTTLvl(lvl, in, in)
						in.IsNTT = true
					}
					h := deepHash(nil, in, g)
					c := garbagePoly(t, N, len(Qm))
					ks.ExternalProduct(lvl, in, g, c)
					want := mulPhase(rq, a, invNTTCopy(rq, b, lvl), lvl)
					bits, _ := diffBits(rq, c, want, lvl)
					t.check(bits <= 3+len(Qm), "ExternalProduct(ntt=%v) at level %d differs from a*b by %d bits", ntt, lvl, bits)
					hd := mkrlwe.NewSwitchingKey(p)
					ks.Decompose(lvl, in, hd)
					c2 := garbagePoly(t, N, len(Qm))
					ks.ExternalProductHoisted(lvl, hd, g, c2)
					bits, _ = diffBits(rq, c2, want, lvl)
					t.check(bits <= 3+len(Qm), "ExternalProductHoisted at level %d differs from a*b by %d bits", lvl, bits)
					t.check(deepHash(nil, in, g) == h, "ExternalProduct changed an operand")
				}
			}
		})
	}
}

func invNTTCopy(r *ring.Ring, p *ring.Poly, lvl int) *ring.Poly {
	o := ring.NewPoly(r.N, lvl+1)
	r.InvNTTLvl(lvl, p, o)
	return o
}

// digit checks digit i of in at the given level.
func (t *T) digit(what string, p mkrlwe.Parameters, in *ring.Poly, lvl, i int, oq, op [][]uint64) {
	Qm, Pm := p.RingQ().Modulus, p.RingP().Modulus
	alpha := len(Pm) / p.Gamma()
	lo, hi := i*alpha, (i+1)*alpha
	if hi > lvl+1 {
		hi = lvl + 1
	}
	blk := Qm[lo:hi]
	x := crt(blk, in.Coeffs[lo:hi])
	ms := append(append([]uint64{}, Qm[:lvl+1]...), Pm...)
	rows := append(append([][]uint64{}, oq[:lvl+1]...), op...)
	ok, why := sameSmall(ms, rows, x, prodBig(blk), 1)
	t.check(ok, "%s: the residues are not those of one small polynomial congruent to the input: %s", what, why)
}

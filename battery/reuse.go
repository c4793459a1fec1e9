package main

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// refill replaces the content of ct (same objects, new parties, level and
// message); anything remembered about the object from earlier is now wrong.
func (c *Ctx) refill(t *T, ct *mkckks.Ciphertext, level int, ids ...string) []complex128 {
	n, w := c.fresh(t, level, ids...)
	for id := range ct.Value {
		if _, ok := n.Value[id]; !ok {
			delete(ct.Value, id)
		}
	}
	for id, p := range n.Value {
		if q, ok := ct.Value[id]; ok {
			*q = *p
		} else {
			ct.Value[id] = p
		}
	}
	ct.Scale = n.Scale
	return w
}

// reuse runs an operation again and again on the same objects with changing
// content, in changing order, with one evaluator.
func reuse(t *T, prop string) {
	for pi, ps := range psets {
		if pi == 2 && prop != "C05" {
			continue
		}
		c := newCtx(ps, 3)
		L := c.params.MaxLevel()
		rq := c.params.RingQ()
		cp, _ := ckks.NewParameters(c.params.Parameters.Parameters, c.params.LogSlots(), c.params.Scale())
		ecd := ckks.NewEncoder(cp)
		sub := func() []string {
			for {
				var r []string
				for _, id := range c.ids {
					if t.rng.Intn(2) == 0 {
						r = append(r, id)
					}
				}
				if len(r) > 0 {
					return r
				}
			}
		}
		rl2 := mkrlwe.NewRelinearizationKeyKeySet(c.params.Parameters)
		for _, k := range c.rlks.Value {
			rl2.AddRelinearizationKey(k)
		}
		for hist := 0; hist < 3; hist++ {
			t.run(fmt.Sprintf("%s %s the same objects with changing content, history %d", prop, ps.Name, hist), func() {
				const n = 3
				var ct [n]*mkckks.Ciphertext
				var w [n][]complex128
				var ids [n][]string
				for i := range ct {
					ids[i] = sub()
					ct[i], w[i] = c.fresh(t, 1+t.rng.Intn(L), ids[i]...)
				}
				msg := c.msg(t)
				pt := ckks.NewPlaintext(cp, L, c.params.Scale())
				ecd.Encode(pt, msg.Value, c.params.LogSlots())
				for step := 0; step < 10; step++ {
					if step > 0 && t.rng.Intn(2) == 0 {
						i := t.rng.Intn(n)
						ids[i] = sub()
						w[i] = c.refill(t, ct[i], 1+t.rng.Intn(L), ids[i]...)
					}
					i, j := t.rng.Intn(n), t.rng.Intn(n)
					a, b := ct[i], ct[j]
					switch prop {
					case "C01":
						for k := range msg.Value {
							msg.Value[k] = complex(t.rng.Float64(), t.rng.Float64())
						}
						id := c.ids[t.rng.Intn(3)]
						switch t.rng.Intn(3) {
						case 0:
							t.close("EncryptMsgNew", c.refDecrypt(c.enc.EncryptMsgNew(msg, c.pks.GetPublicKey(id))), msg.Value, tol)
						case 1:
							o := mkckks.NewCiphertext(c.params, idset(id), t.rng.Intn(L+1), 1)
							c.enc.EncryptMsg(msg, c.pks.GetPublicKey(id), o)
							t.close("EncryptMsg", c.refDecrypt(o), msg.Value, tol)
						case 2:
							ecd.Encode(pt, msg.Value, c.params.LogSlots())
							o := mkckks.NewCiphertext(c.params, idset(id), t.rng.Intn(L+1), 1)
							c.enc.EncryptPtxt(pt, c.pks.GetPublicKey(id), o)
							t.close("EncryptPtxt", c.refDecrypt(o), msg.Value, tol)
						}
					case "C02":
						t.close("Decrypt", c.dec.Decrypt(a, c.sks).Value, w[i], tol*4)
						s := mkrlwe.NewSecretKeySet()
						for _, id := range c.ids {
							if id != ids[i][0] {
								s.AddSecretKey(c.sks.Value[id])
							}
						}
						t.check(panics(func() { c.dec.Decrypt(a, s) }), "Decrypt without %q's key did not refuse", ids[i][0])
					case "C03":
						if i == j {
							continue
						}
						k0, k1 := 1.0, 1.0
						r := []float64{1, 2, 3, 5, 1.5}[t.rng.Intn(5)]
						if t.rng.Intn(2) == 0 {
							a.Scale, b.Scale = c.params.Scale(), c.params.Scale()*r
							k0 = math.Max(1, math.Floor(r))
						} else {
							a.Scale, b.Scale = c.params.Scale()*r, c.params.Scale()
							k1 = math.Max(1, math.Floor(r))
						}
						lvl := minInt(a.Level(), b.Level())
						pa := mulConstPoly(rq, phase(rq, a.Ciphertext, c.sks), lvl, k0)
						pb := mulConstPoly(rq, phase(rq, b.Ciphertext, c.sks), lvl, k1)
						var o *mkckks.Ciphertext
						if t.rng.Intn(2) == 0 {
							o = c.ev.AddNew(a, b)
							rq.AddLvl(lvl, pa, pb, pa)
						} else {
							o = c.ev.SubNew(a, b)
							rq.SubLvl(lvl, pa, pb, pa)
						}
						t.ids("result", o.Ciphertext, union(ids[i], ids[j])...)
						if !t.level("result", o.Ciphertext, lvl) {
							return
						}
						bits, _ := diffBits(rq, phase(rq, o.Ciphertext, c.sks), pa, lvl)
						t.check(bits == 0, "step %d: message off by %d bits", step, bits)
					case "C04":
						rl := c.rlks
						if t.rng.Intn(3) == 0 {
							rl = rl2
						}
						c.checkMul(t, fmt.Sprintf("step %d", step), a, b, c.ev.MulRelinNew(a, b, rl), w[i], w[j], ids[i], ids[j])
					case "C05":
						var ha, hb *mkrlwe.HoistedCiphertext
						if t.rng.Intn(2) == 0 {
							ha = c.ev.HoistedForm(a)
						}
						if t.rng.Intn(2) == 0 {
							hb = c.ev.HoistedForm(b)
						}
						c.checkMul(t, fmt.Sprintf("step %d", step), a, b, c.ev.MulRelinHoistedNew(a, b, ha, hb, c.rlks), w[i], w[j], ids[i], ids[j])
						ha = c.ev.HoistedForm(a)
						t.close("RotateHoistedNew", c.refDecrypt(c.ev.RotateHoistedNew(a, 2, ha, c.rtks)), rotWant(w[i], 2), tol*8)
					case "C06":
						for _, k := range []int{0, 1, 3, -2, t.rng.Intn(c.params.N())} {
							o := c.ev.RotateNew(a, k, c.rtks)
							t.ids("RotateNew", o.Ciphertext, ids[i]...)
							t.level("RotateNew", o.Ciphertext, a.Level())
							t.close("RotateNew", c.refDecrypt(o), rotWant(w[i], k), tol*8)
						}
					case "C07":
						o := c.ev.ConjugateNew(a, c.cjks)
						t.ids("ConjugateNew", o.Ciphertext, ids[i]...)
						t.level("ConjugateNew", o.Ciphertext, a.Level())
						t.close("ConjugateNew", c.refDecrypt(o), conjWant(w[i]), tol*8)
					case "C08":
						k := ring1(rq.Modulus[a.Level()])
						o := mkckks.NewCiphertext(c.params, idset(ids[i]...), a.Level(), 1)
						c.ev.MultByConst(a, k, o)
						o.Scale = a.Scale * k
						r, err := c.ev.RescaleNew(o, c.params.Scale())
						if t.check(err == nil, "step %d: %v", step, err) {
							t.level("RescaleNew", r.Ciphertext, a.Level()-1)
							t.close("RescaleNew", c.refDecrypt(r), w[i], tol*64)
						}
						d := t.rng.Intn(a.Level() + 1)
						o = c.ev.DropLevelNew(a, d)
						t.level("DropLevelNew", o.Ciphertext, a.Level()-d)
						t.close("DropLevelNew", c.refDecrypt(o), w[i], tol*4)
					case "C09":
						k := []float64{2, -3, 0.5, 0.25, -1.75, 7}[t.rng.Intn(6)]
						o := mkckks.NewCiphertext(c.params, idset(ids[i]...), a.Level(), 1)
						c.ev.MultByConst(a, k, o)
						x := make([]complex128, len(w[i]))
						for s := range x {
							x[s] = w[i][s] * complex(k, 0)
						}
						t.close(fmt.Sprintf("step %d: MultByConst %g", step, k), c.refDecrypt(o), x, tol*64)
						for s := range msg.Value {
							msg.Value[s] = complex(t.rng.Float64(), t.rng.Float64())
						}
						ecd.Encode(pt, msg.Value, c.params.LogSlots())
						t.close("MulPtxtNew", c.refDecrypt(c.ev.MulPtxtNew(a, pt)), mulWant(w[i], msg.Value), tol*64)
					}
				}
			})
		}
	}
}

func ring1(q uint64) float64 { return float64(q) }

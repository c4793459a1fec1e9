package main

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// Moduli of full size, many digits and many parties: sums that are reduced too late overflow a word here.
var crowdSets = []PSet{
	{"N16-q34-p2-wide", 4, 3, rep(34, 60), rep(2, 61), 1 << 50},
	{"N32-q4-p4-wide", 5, 4, rep(4, 60), rep(4, 61), 1 << 50},
}

func crowd(t *T, prop string) {
	for pi, ps := range crowdSets {
		n := []int{6, 50}[pi]
		c := newCtx(ps, n)
		L := c.params.MaxLevel()
		for _, lvl := range []int{L, L / 2} {
			t.run(fmt.Sprintf("%s %s %d parties level=%d", prop, ps.Name, n, lvl), func() {
				a, wa := c.fresh(t, lvl, c.ids...)
				b, wb := c.fresh(t, lvl, c.ids[n/3:]...)
				one, w1 := c.fresh(t, lvl, c.ids[n-1])
				n := math.Max(float64(n), 24)
				tl := tol * n
				sum := func(x, y []complex128, s complex128) []complex128 {
					r := make([]complex128, len(x))
					for i := range r {
						r[i] = x[i] + s*y[i]
					}
					return r
				}
				switch prop {
				case "C02":
					for i := 0; i < 2; i++ {
						t.close("Decrypt", c.dec.Decrypt(a, c.sks).Value, wa, tl)
						t.close("Decrypt", c.dec.Decrypt(one, c.sks).Value, w1, tl)
					}
				case "C03":
					t.close("AddNew", c.refDecrypt(c.ev.AddNew(a, b)), sum(wa, wb, 1), tl)
					t.close("SubNew", c.refDecrypt(c.ev.SubNew(b, a)), sum(wb, wa, -1), tl)
					x, w := one, w1
					for i := 0; i < 50; i++ {
						x, w = c.ev.AddNew(x, a), sum(w, wa, 1)
					}
					t.close("repeated AddNew", c.refDecrypt(x), w, tl*50)
				case "C04":
					t.close("MulRelinNew", c.refDecrypt(c.ev.MulRelinNew(a, b, c.rlks)), mulWant(wa, wb), tl*64)
					t.close("MulRelinNew", c.refDecrypt(c.ev.MulRelinNew(b, a, c.rlks)), mulWant(wa, wb), tl*64)
					t.close("square", c.refDecrypt(c.ev.MulRelinNew(a, a, c.rlks)), mulWant(wa, wa), tl*64)
					o := mkrlwe.NewCiphertext(c.params.Parameters, a.IDSet(), lvl)
					mkrlwe.NewKeySwitcher(c.params.Parameters).MulAndRelin(a.Ciphertext, b.Ciphertext, c.rlks, o)
					t.close("MulAndRelin", c.refDecrypt(&mkckks.Ciphertext{Ciphertext: o, Scale: a.Scale * b.Scale}), mulWant(wa, wb), tl*64)
					mkrlwe.NewKeySwitcher(c.params.Parameters).MulAndRelin(b.Ciphertext, a.Ciphertext, c.rlks, o)
					t.close("MulAndRelin into the same", c.refDecrypt(&mkckks.Ciphertext{Ciphertext: o, Scale: a.Scale * b.Scale}), mulWant(wa, wb), tl*64)
					mkrlwe.NewKeySwitcher(c.params.Parameters).MulAndRelin(one.Ciphertext, a.Ciphertext, c.rlks, o)
					t.close("MulAndRelin into the same", c.refDecrypt(&mkckks.Ciphertext{Ciphertext: o, Scale: a.Scale * b.Scale}), mulWant(wa, w1), tl*64)
					mkrlwe.NewKeySwitcher(c.params.Parameters).MulAndRelin(a.Ciphertext, b.Ciphertext, c.rlks, o)
					t.close("MulAndRelin", c.refDecrypt(&mkckks.Ciphertext{Ciphertext: o, Scale: a.Scale * b.Scale}), mulWant(wa, wb), tl*64)
				case "C05":
					ha, hb := c.ev.HoistedForm(a), c.ev.HoistedForm(b)
					for i := 0; i < 3; i++ { // into ciphertexts that held something else
						x, y, hx, hy := b, a, hb, ha
						if i == 1 {
							x, hx = one, c.ev.HoistedForm(one)
						} else if i == 2 {
							hx = nil
						}
						wx := [][]complex128{wb, w1, wb}[i]
						o := mkrlwe.NewCiphertext(c.params.Parameters, a.IDSet(), lvl)
						used(t, c.params.RingQ(), o, lvl)
						mkrlwe.NewKeySwitcher(c.params.Parameters).MulAndRelinHoisted(x.Ciphertext, y.Ciphertext, hx, hy, c.rlks, o)
						t.close("MulAndRelinHoisted", c.refDecrypt(&mkckks.Ciphertext{Ciphertext: o, Scale: a.Scale * b.Scale}), mulWant(wx, wa), tl*64)
					}
					t.close("MulRelinHoistedNew", c.refDecrypt(c.ev.MulRelinHoistedNew(a, b, ha, hb, c.rlks)), mulWant(wa, wb), tl*64)
					t.close("hoisted square", c.refDecrypt(c.ev.MulRelinHoistedNew(a, a, ha, ha, c.rlks)), mulWant(wa, wa), tl*64)
					t.close("RotateHoistedNew", c.refDecrypt(c.ev.RotateHoistedNew(a, 3, ha, c.rtks)), rotWant(wa, 3), tl)
				case "C06":
					for _, k := range []int{1, 3, -1, c.params.N()/2 - 1, 6} {
						t.close(fmt.Sprintf("rotation by %d", k), c.refDecrypt(c.ev.RotateNew(a, k, c.rtks)), rotWant(wa, k), tl*4)
					}
				case "C07":
					w := make([]complex128, len(wa))
					for i := range w {
						w[i] = complex(real(wa[i]), -imag(wa[i]))
					}
					t.close("ConjugateNew", c.refDecrypt(c.ev.ConjugateNew(a, c.cjks)), w, tl)
				case "C08":
					d := c.ev.DropLevelNew(a, 1)
					t.close("DropLevelNew", c.refDecrypt(d), wa, tl)
					p := a.CopyNew()
					c.ev.MultByConst(p, 1<<58, p)
					p.Scale *= 1 << 58
					o, err := c.ev.RescaleNew(p, c.params.Scale()/4)
					if t.check(err == nil, "RescaleNew: %v", err) {
						t.level("RescaleNew", o.Ciphertext, lvl-1)
						t.close("RescaleNew", c.refDecrypt(o), wa, tl)
					}
				case "C09":
					cp, _ := ckks.NewParameters(c.params.Parameters.Parameters, c.params.LogSlots(), c.params.Scale())
					m := c.msg(t)
					pt := ckks.NewPlaintext(cp, L, c.params.Scale())
					ckks.NewEncoder(cp).Encode(pt, m.Value, c.params.LogSlots())
					t.close("MulPtxtNew", c.refDecrypt(c.ev.MulPtxtNew(a, pt)), mulWant(wa, m.Value), tl*64)
					for _, k := range []interface{}{-3, 0.375, complex(-1.5, 0.25), complex(2, -1)} {
						o := mkckks.NewCiphertext(c.params, a.IDSet(), lvl, 1)
						c.ev.MultByConst(a, k, o)
						w := make([]complex128, len(wa))
						for i := range w {
							w[i] = wa[i] * toC(k)
						}
						t.close("MultByConst", c.refDecrypt(o), w, tl*64)
					}
				}
			})
		}
	}
}

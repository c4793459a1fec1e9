package main

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	props["C14"] = c14
}

func canonEq(r *ring.Ring, a, b *mkckks.Ciphertext) string {
	if len(a.Value) != len(b.Value) {
		return "different parties"
	}
	if a.Scale != b.Scale {
		return "different scales"
	}
	for id, p := range a.Value {
		q, ok := b.Value[id]
		if !ok {
			return "different parties"
		}
		if len(p.Coeffs) != len(q.Coeffs) || p.IsNTT != q.IsNTT {
			return "different levels or domains"
		}
		for j := range p.Coeffs {
			m := r.Modulus[j]
			for w := range p.Coeffs[j] {
				if p.Coeffs[j][w]%m != q.Coeffs[j][w]%m {
					return fmt.Sprintf("component %q differs at modulus %d coefficient %d", id, j, w)
				}
			}
		}
	}
	return ""
}

// c14op is one operation on the current ciphertexts.
type c14op struct {
	name string
	run  func(ev *mkckks.Evaluator, rl *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext
}

func copyRlks(c *Ctx) *mkrlwe.RelinearizationKeySet {
	n := mkrlwe.NewRelinearizationKeyKeySet(c.params.Parameters)
	for _, k := range c.rlks.Value {
		n.AddRelinearizationKey(k)
	}
	return n
}

func c14(t *T) {
	nh, steps := 5, 22
	if t.thorough {
		nh, steps = 60, 40
	}
	for _, ps := range psets {
		c := newCtx(ps, 4)
		rq := c.params.RingQ()
		N := c.params.N()
		for hist := 0; hist < nh; hist++ {
			L := c.params.MaxLevel()
			var pool []*mkckks.Ciphertext
			var hashes []uint64
			var names []string
			add := func(ct *mkckks.Ciphertext, n string) {
				pool = append(pool, ct)
				hashes = append(hashes, deepHash(nil, ct))
				names = append(names, n)
			}
			ev := mkckks.NewEvaluator(c.params)
			rl := copyRlks(c)
			for i := 0; i < 5; i++ {
				k := 1 + t.rng.Intn(3)
				var ids []string
				for _, x := range t.rng.Perm(4)[:k] {
					ids = append(ids, c.ids[x])
				}
				lvl := L
				if i > 1 {
					lvl = t.rng.Intn(L + 1)
				}
				a, _ := c.fresh(t, lvl, ids...)
				add(a, fmt.Sprintf("fresh%q@%d", ids, lvl))
			}
			pt := c.enc.EncodeMsgNew(c.msg(t))
			type hoisted struct {
				ct int
				h  *mkrlwe.HoistedCiphertext
				d  uint64
			}
			var hs []hoisted
			keysHash := deepHash(hoistSkip, c.rlks, c.rtks, c.cjks, c.params, c.sks, c.pks, rl, pt)
			for step := 0; step < steps; step++ {
				i, j := t.rng.Intn(len(pool)), t.rng.Intn(len(pool))
				a, b := pool[i], pool[j]
				k := t.rng.Intn(2*N) - N
				lvls := 0
				if a.Level() > 0 {
					lvls = t.rng.Intn(a.Level() + 1)
				}
				cst := []interface{}{3, -2, 0.37, complex(0.5, -1.25), uint64(7), int64(-9), 0}[t.rng.Intn(7)]
				var hi *hoisted
				if len(hs) > 0 {
					hi = &hs[t.rng.Intn(len(hs))]
				}
				rots := []int{1, 2, 3, N/2 - 1, 4, 0, N / 2, -N / 2}
				hk := rots[t.rng.Intn(len(rots))]
				ops := []c14op{
					{fmt.Sprintf("add(%d,%d)", i, j), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext { return e.AddNew(a, b) }},
					{fmt.Sprintf("sub(%d,%d)", i, j), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext { return e.SubNew(a, b) }},
					{fmt.Sprintf("mul(%d,%d)", i, j), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.MulRelinNew(a, b, r)
					}},
					{fmt.Sprintf("mul(%d,%d)", i, i), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.MulRelinNew(a, a, r)
					}},
					{fmt.Sprintf("rotate(%d,%d)", i, k), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.RotateNew(a, k, c.rtks)
					}},
					{fmt.Sprintf("rotate(%d,0)", i), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.RotateNew(a, 0, c.rtks)
					}},
					{fmt.Sprintf("conjugate(%d)", i), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.ConjugateNew(a, c.cjks)
					}},
					{fmt.Sprintf("drop(%d,%d)", i, lvls), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.DropLevelNew(a, lvls)
					}},
					{fmt.Sprintf("rescale(%d)", i), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						o, err := e.RescaleNew(a, []float64{c.params.Scale(), 1, c.params.Scale() * 1e6}[step%3])
						if err != nil {
							return nil
						}
						return o
					}},
					{fmt.Sprintf("mulptxt(%d)", i), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.MulPtxtNew(a, pt)
					}},
					{fmt.Sprintf("const(%d,%v)", i, cst), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						o := mkckks.NewCiphertext(c.params, a.IDSet(), a.Level(), a.Scale)
						e.MultByConst(a, cst, o)
						return o
					}},
				}
				if hi != nil {
					x := hi
					ops = append(ops, c14op{fmt.Sprintf("rotateHoisted(%d,%d)", x.ct, hk), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.RotateHoistedNew(pool[x.ct], hk, x.h, c.rtks)
					}}, c14op{fmt.Sprintf("mulHoisted(%d,%d)", x.ct, j), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.MulRelinHoistedNew(pool[x.ct], b, x.h, nil, r)
					}}, c14op{fmt.Sprintf("mulHoisted(%d,%d)", x.ct, x.ct), func(e *mkckks.Evaluator, r *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
						return e.MulRelinHoistedNew(pool[x.ct], pool[x.ct], x.h, x.h, r)
					}})
				}
				op := ops[t.rng.Intn(len(ops))]
				t.run(fmt.Sprintf("C14 %s history %d step %d %s", ps.Name, hist, step, op.name), func() {
					if t.rng.Intn(5) == 0 {
						h := ev.HoistedForm(a)
						t.disjoint("HoistedForm", storage(h), storage(ev, c.rlks, rl, c.rtks, c.params, pool))
						for _, o := range hs {
							t.disjoint("HoistedForm", storage(h), storage(o.h))
						}
						hs = append(hs, hoisted{i, h, deepHash(nil, h)})
					}
					out := op.run(ev, rl)
					if out == nil {
						return
					}
					for n, ct := range pool {
						t.check(deepHash(nil, ct) == hashes[n], "%s changed ciphertext %d (%s)", op.name, n, names[n])
					}
					for _, h := range hs {
						t.check(deepHash(nil, h.h) == h.d, "%s changed the hoisted form of ciphertext %d", op.name, h.ct)
					}
					t.check(deepHash(hoistSkip, c.rlks, c.rtks, c.cjks, c.params, c.sks, c.pks, rl, pt) == keysHash, "%s changed a key, the parameters or the plaintext", op.name)
					so := storage(out)
					t.disjoint(op.name+" result", so, storage(pool, ev, rl, c.rlks, c.rtks, c.cjks, c.params, pt))
					for _, h := range hs {
						t.disjoint(op.name+" result", so, storage(h.h))
					}
					ref := op.run(mkckks.NewEvaluator(c.params), copyRlks(c))
					why := canonEq(rq, out, ref)
					t.check(why == "", "%s depends on what ran before: %s", op.name, why)
					for n, ct := range pool {
						t.check(deepHash(nil, ct) == hashes[n], "%s changed ciphertext %d (%s)", op.name, n, names[n])
					}
					if len(pool) < 14 {
						add(out, op.name)
					} else {
						w := 5 + t.rng.Intn(9)
						keep := false
						for _, h := range hs {
							keep = keep || h.ct == w
						}
						if !keep {
							pool[w], hashes[w], names[w] = out, deepHash(nil, out), op.name
						}
					}
				})
			}
		}
		for hist := 0; hist < nh; hist++ {
			t.run(fmt.Sprintf("C14 %s encryptor and decryptor history %d", ps.Name, hist), func() {
				enc, dec := mkckks.NewEncryptor(c.params), mkckks.NewDecryptor(c.params)
				var cts []*mkckks.Ciphertext
				var hh []uint64
				var want [][]complex128
				var msgs []*mkckks.Message
				kh := deepHash(nil, c.pks, c.sks, c.params)
				for s := 0; s < 8; s++ {
					m := c.msg(t)
					hm := deepHash(nil, m)
					id := c.ids[t.rng.Intn(4)]
					pk := c.pks.Value[id]
					var ct *mkckks.Ciphertext
					lvl := c.params.MaxLevel()
					switch t.rng.Intn(4) {
					case 0:
						ct = enc.EncryptMsgNew(m, pk)
					case 1:
						ct = enc.EncryptMsgNewExpand(m, pk, idset(c.ids...))
					case 2:
						pt := enc.EncodeMsgNew(m)
						t.disjoint("EncodeMsgNew", storage(pt), storage(enc, cts))
						hp := deepHash(nil, pt)
						lvl = t.rng.Intn(c.params.MaxLevel() + 1)
						ct = mkckks.NewCiphertext(c.params, idset(id), lvl, 1)
						enc.EncryptPtxt(pt, pk, ct)
						t.check(deepHash(nil, pt) == hp, "encryption changed the plaintext")
					case 3:
						lvl = t.rng.Intn(c.params.MaxLevel() + 1)
						ct = mkckks.NewCiphertext(c.params, idset(id), lvl, 1)
						enc.EncryptMsg(m, pk, ct)
					}
					t.level("encryption", ct.Ciphertext, lvl)
					t.check(deepHash(nil, m) == hm, "encryption changed the message")
					t.disjoint("ciphertext", storage(ct), storage(cts, enc, dec, c.pks, c.params))
					cts = append(cts, ct)
					hh = append(hh, deepHash(nil, ct))
					want = append(want, append([]complex128{}, m.Value...))
					i := t.rng.Intn(len(cts))
					d := dec.Decrypt(cts[i], c.sks)
					t.close("Decrypt", d.Value, want[i], tol*4)
					for _, o := range msgs {
						t.check(&o.Value[0] != &d.Value[0], "Decrypt returned the same message buffer twice")
					}
					msgs = append(msgs, d)
					for n := range cts {
						t.check(deepHash(nil, cts[n]) == hh[n], "ciphertext %d changed", n)
					}
				}
				t.check(deepHash(nil, c.pks, c.sks, c.params) == kh, "keys or parameters changed")
				for i, m := range msgs {
					_ = i
					t.check(len(m.Value) == c.params.Slots(), "message length")
				}
			})
		}
	}
	_ = ckks.NewEncoder
}

SEEDS=[]
def S(**k): SEEDS.append(k)

S(id='enc-ntt-inplace', prop='C01', needs='a plaintext in NTT representation, a coefficient-domain receiver, and a second use of the same plaintext',
  what='Encrypt transforms the caller\'s plaintext out of the NTT domain in place (its IsNTT flag still says NTT), so the plaintext is changed and the next encryption of it decrypts to garbage',
  edits=[('mkrlwe/encryptor.go','''			ringQ.InvNTTLvl(levelQ, plaintext.Value, poolQ0)
			ringQ.AddLvl(levelQ, ctOut.Value["0"], poolQ0, ctOut.Value["0"])
''','''			ringQ.InvNTTLvl(levelQ, plaintext.Value, plaintext.Value)
			ringQ.AddLvl(levelQ, ctOut.Value["0"], plaintext.Value, ctOut.Value["0"])
''')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a")
	_, v := c.fresh("a")
	pt := c.enc.EncodeMsgNew(&mkckks.Message{Value: v})
	if !pt.Value.IsNTT {
		c.p.RingQ().NTT(pt.Value, pt.Value)
		pt.Value.IsNTT = true
	}
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	for k := 0; k < 3; k++ {
		ct := mkckks.NewCiphertext(c.p, ids, c.p.MaxLevel(), c.p.Scale())
		c.enc.EncryptPtxt(pt, c.pk.GetPublicKey("a"), ct)
		c.want(t, "encryption", ct, func(i int) complex128 { return v[i] })
	}
}
''')

S(id='dec-count-keys', prop='C02', needs='a key set that is as large as the party set of the ciphertext but does not contain one of its parties',
  what='the missing-key test of Decrypt compares sizes instead of what is left in the ciphertext, so a decryption with a missing key returns garbage instead of refusing',
  edits=[('mkrlwe/decryptor.go','	if len(ctTmp.Value) > 1 {','	if len(skSet.Value) < idset.Size() {')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a", "b", "x")
	a, _ := c.fresh("a")
	b, _ := c.fresh("b")
	ct := c.ev.AddNew(a, b)
	c.sk.DelSecretKey("b")
	if !didPanic(func() { c.dec.Decrypt(ct, c.sk) }) {
		t.Fatal("decrypted without the key of b")
	}
}
''')

S(id='add-pool-pad', prop='C03', needs='operands of clearly different scales, the smaller-scale operand owned by a party the first operand does not have, on an evaluator that has not seen that party',
  what='the scratch ciphertext used to bring up the scale is padded with the parties of the first operand only',
  edits=[('mkckks/evaluator.go','	eval.ctxtPool.PadCiphertext(idset)','	eval.ctxtPool.PadCiphertext(idset0)'),
         ('mkckks/evaluator.go','	idset := idset0.Union(idset1)\n\n	eval','	eval')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	a, va := c.fresh("a")
	b, vb := c.fresh("b")
	c.ev.MultByConst(a, 5, a)
	a.Scale *= 5
	s := c.ev.AddNew(a, b)
	c.want(t, "sum", s, func(i int) complex128 { return va[i] + vb[i] })
}
''')

S(id='mul-decompose-level', prop='C04', needs='a product whose second operand is at a lower level than the first',
  what='MulRelinNew decomposes the second operand at the level of the first one',
  edits=[('mkckks/evaluator.go','eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])','eval.ksw.Decompose(op0.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	a, va := c.fresh("a")
	b, vb := c.fresh("b")
	c.ev.DropLevel(b, 2)
	m := c.ev.MulRelinNew(a, b, c.rlk)
	c.want(t, "product", m, func(i int) complex128 { return va[i] * vb[i] })
}
''')

S(id='mul-stale-pool', prop='C04', needs='a product in which the second operand has more parties than the first and the first has at least two of them',
  what='both operands are decomposed into the same scratch pool in a corner case, so the decomposition of the first is overwritten by that of the second',
  edits=[('mkckks/evaluator.go','''		for id := range idset1.Value {
			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
		}

		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[1], rlkSet)
''','''		hoisted1 := rlkSet.HoistPool[1]
		if op0.Ciphertext == op1.Ciphertext || idset1.Size() > idset0.Size() && idset0.Size() > 1 {
			hoisted1 = rlkSet.HoistPool[0]
		}

		for id := range idset1.Value {
			eval.ksw.Decompose(op1.Level(), op1.Value[id], hoisted1.Value[id])
		}

		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], hoisted1, rlkSet)
''')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a", "b", "x")
	a, va := c.fresh("a")
	b, vb := c.fresh("b")
	x, vx := c.fresh("x")
	ab := c.ev.AddNew(a, b)
	abx := c.ev.AddNew(ab, x)
	ab2 := c.ev.SubNew(a, b)
	_ = ab2
	m := c.ev.MulRelinNew(c.ev.SubNew(a, b), abx, c.rlk)
	c.want(t, "product", m, func(i int) complex128 { return (va[i] - vb[i]) * (va[i] + vb[i] + vx[i]) })
}
''')

S(id='hoist-one-operand', prop='C05', needs='a product in which only the second operand is given in hoisted form',
  what='the last stage of the hoisted product tests the wrong operand for being hoisted',
  edits=[('mkrlwe/keyswitch_hoisted.go','''		if op0Hoisted == nil {
			ks.ExternalProduct(level, op0.Value[id], y, ks.polyQPool[0])''','''		if op1Hoisted == nil {
			ks.ExternalProduct(level, op0.Value[id], y, ks.polyQPool[0])''')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	a, va := c.fresh("a")
	b, vb := c.fresh("b")
	m := c.ev.MulRelinHoistedNew(a, b, nil, c.ev.HoistedForm(b), c.rlk)
	c.want(t, "product", m, func(i int) complex128 { return va[i] * vb[i] })
}
''')

S(id='rot-negative-once', prop='C06', needs='a rotation by a negative amount below minus half the ring degree that is not one of the reserved reference-string indices',
  what='the normalisation of negative amounts adds half the ring degree once instead of until it is in range',
  nth=0,
  edits=[('mkckks/evaluator.go','''	for rotidx < 0 {
		rotidx += eval.params.N() / 2
	}
''','''	if rotidx < 0 {
		rotidx += eval.params.N() / 2
	}
''')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a")
	a, va := c.fresh("a")
	h := c.p.N() / 2
	k := -h - 7
	r := c.ev.RotateNew(a, k, c.rtk)
	c.want(t, "rotation", r, func(i int) complex128 { return va[((i+k)%h+h)%h] })
}
''')

S(id='conj-level-in', prop='C07', needs='a conjugation into a receiver at a lower level than the input',
  what='the level of a conjugation is taken from the input instead of from the receiver',
  edits=[('mkrlwe/keyswitch.go','''func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctOut *Ciphertext) {
	level := ctOut.Level()''','''func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctOut *Ciphertext) {
	level := ctIn.Level()''')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	a, va := c.fresh("a")
	b, vb := c.fresh("b")
	s := c.ev.AddNew(a, b)
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ids.Add("b")
	out := mkckks.NewCiphertext(c.p, ids, s.Level()-2, s.Scale)
	ks := mkrlwe.NewKeySwitcher(c.p.Parameters)
	ks.Conjugate(s.Ciphertext, c.cjk, out.Ciphertext)
	c.want(t, "conjugate", out, func(i int) complex128 { return cmplx.Conj(va[i] + vb[i]) })
}
''')

S(id='rescale-scale-chain', prop='C08', needs='a rescaling that drops two or more moduli',
  what='the recorded scale is divided by the last modulus again and again instead of by each dropped modulus, so scale and message drift apart',
  edits=[('mkckks/evaluator.go','		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))','		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()]))')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a")
	a, _ := c.fresh("a")
	q := c.p.RingQ().Modulus
	l := a.Level()
	a.Scale = float64(q[l]) * float64(q[l-1]) * float64(q[l-2]) * 4
	out, err := c.ev.RescaleNew(a, 2)
	if err != nil || out.Level() != l-3 {
		t.Fatal("level", out.Level(), err)
	}
	want := a.Scale
	for k := 0; k < 3; k++ {
		want /= float64(q[l-k])
	}
	if out.Scale != want {
		t.Fatalf("scale %v want %v", out.Scale, want)
	}
}
''')

S(id='const-imag-fraction', prop='C09', needs='a purely imaginary constant with a fractional part',
  what='no scaling factor is chosen for the fraction of the imaginary part when the real part is zero, so the constant is rounded to an integer',
  edits=[('mkckks/evaluator.go','		if cImag != 0 {\n			valueFloat := cImag','		if cImag != 0 && cReal != 0 {\n			valueFloat := cImag')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a")
	a, va := c.fresh("a")
	out := a.CopyNew()
	c.ev.MultByConst(a, complex(0, 0.75), out)
	c.want(t, "product", out, func(i int) complex128 { return va[i] * complex(0, 0.75) })
}
''')

S(id='pk-auxiliary-moduli', prop='C10', needs='a look at the auxiliary moduli of a public key (encryption itself never reads them)',
  what='the uniform half of the public key is not copied in the auxiliary moduli, so the key does not satisfy its defining relation there',
  edits=[('mkrlwe/keygen.go','	pk.Value[1].P.Copy(keygen.params.CRS[0].Value[0].P)\n','')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a")
	pk := c.pk.GetPublicKey("a")
	if !polyEq(pk.Value[1].P, c.p.CRS[0].Value[0].P) || !polyEq(pk.Value[1].Q, c.p.CRS[0].Value[0].Q) {
		t.Fatal("pk[1] is not the reference string")
	}
}
''')

S(id='rlk-error-reuse', prop='C11', needs='more than one digit; visible only by comparing the errors of two digits of one key',
  what='the error of the b component of the relinearization key is drawn once and reused for every digit',
  edits=[('mkrlwe/keygen.go','''	b := rlk.Value[0]
	for i := 0; i < beta; i++ {
''','''	b := rlk.Value[0]
	keygen.GenGaussianError(tmp)
	for i := 0; i < beta; i++ {
'''),('mkrlwe/keygen.go','''		ringQP.InvMFormLvl(levelQ, levelP, b.Value[i], b.Value[i])
		keygen.GenGaussianError(tmp)
''','''		ringQP.InvMFormLvl(levelQ, levelP, b.Value[i], b.Value[i])
''')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a")
	rlk, sk := c.rlk.Value["a"], c.sk.Value["a"]
	rq := c.p.RingQ()
	var first *ring.Poly
	for i := range rlk.Value[0].Value {
		e := rlk.Value[0].Value[i].Q.CopyNew()
		rq.MulCoeffsMontgomeryAndAdd(c.p.CRS[0].Value[i].Q, sk.Value.Q, e)
		rq.InvMForm(e, e)
		rq.InvNTT(e, e)
		if first == nil {
			first = e
		} else if polyEq(first, e) {
			t.Fatal("digits share an error")
		}
	}
}
''')

S(id='modup-top-params', prop='C12', needs='a basis extension from fewer than all auxiliary moduli',
  what='the extension from the auxiliary to the main basis always uses the constants of the full auxiliary basis',
  edits=[('mkrlwe/basis_extension.go','basisextender.ringP, basisextender.ringQ, basisextender.paramsPtoQ[levelP])','basisextender.ringP, basisextender.ringQ, basisextender.paramsPtoQ[len(basisextender.paramsPtoQ)-1])')],
  demo='''func TestZZDemo(t *testing.T) {
	p := demoParams()
	be := mkrlwe.NewFastBasisExtender(p.RingQ(), p.RingP())
	in, out := p.RingP().NewPoly(), p.RingQ().NewPoly()
	lvlP := p.PCount() - 2
	// the integers x_j = (P/2) + j, where P is the product of the first lvlP+1 auxiliary moduli
	for j := range in.Coeffs[0] {
		x := half(p, lvlP, j)
		for i := range in.Coeffs {
			in.Coeffs[i][j] = ring.NewUint(0).Mod(x, ring.NewUint(p.RingP().Modulus[i])).Uint64()
		}
	}
	be.ModUpPtoQ(lvlP, p.MaxLevel(), in, out)
	for i, q := range p.RingQ().Modulus {
		for j := range out.Coeffs[i] {
			if out.Coeffs[i][j]%q != ring.NewUint(0).Mod(half(p, lvlP, j), ring.NewUint(q)).Uint64() {
				t.Fatalf("modulus %d coefficient %d: %d", i, j, out.Coeffs[i][j]%q)
			}
		}
	}
}

func half(p mkckks.Parameters, lvlP, j int) *big.Int {
	x := ring.NewUint(1)
	for i := 0; i <= lvlP; i++ {
		x.Mul(x, ring.NewUint(p.RingP().Modulus[i]))
	}
	x.Rsh(x, 1)
	return x.Add(x, ring.NewUint(uint64(j)))
}
''')

S(id='union-shares', prop='C13', needs='a union with an empty second set whose result is then modified',
  what='the union with an empty set returns the receiver itself, so changing the union changes the operand',
  edits=[('mkrlwe/idset.go','''func (s *IDSet) Union(s2 *IDSet) *IDSet {
''','''func (s *IDSet) Union(s2 *IDSet) *IDSet {
	if s2.Size() == 0 {
		return s
	}
''')],
  demo='''func TestZZDemo(t *testing.T) {
	s := mkrlwe.NewIDSet()
	s.Add("a")
	u := s.Union(mkrlwe.NewIDSet())
	u.Add("b")
	if s.Has("b") || s.Size() != 1 {
		t.Fatal("operand changed")
	}
}
''')

S(id='rot-zero-alias', prop='C14', needs='a rotation by a multiple of half the ring degree, then a change of the input or of the result',
  what='a rotation by zero returns the storage of its operand instead of a copy',
  nth=0,
  edits=[('mkckks/evaluator.go','''	if rotidx == 0 {
		ctOut.Ciphertext.Copy(ct0.Ciphertext)
		return
	}
''','''	if rotidx == 0 {
		ctOut.Ciphertext = ct0.Ciphertext
		return
	}
''')],
  demo='''func TestZZDemo(t *testing.T) {
	c := setup("a")
	a, va := c.fresh("a")
	r := c.ev.RotateNew(a, c.p.N()/2, c.rtk)
	c.ev.MultByConst(a, 3, a)
	c.want(t, "rotation by zero", r, func(i int) complex128 { return va[i] })
}
''')

S(id='crs-readd', prop='C16', needs='adding a reference string for an amount for which there already is one, with keys generated before',
  what="AddCRS also installs the new string under the index of the inverse rotation, so one addition adds or replaces two strings",
  edits=[('mkrlwe/params.go','''		params.RingQP().MFormLvl(levelQ, levelP, params.CRS[idx].Value[i], params.CRS[idx].Value[i])
	}
''','''		params.RingQP().MFormLvl(levelQ, levelP, params.CRS[idx].Value[i], params.CRS[idx].Value[i])
	}

	// a rotation and its inverse share their string
	if inv := params.N()/2 - idx; inv > 0 {
		params.CRS[inv] = params.CRS[idx]
	}
''')],
  demo='''func TestZZDemo(t *testing.T) {
	p := demoParams()
	before := map[int]*mkrlwe.SwitchingKey{}
	for k, v := range p.CRS {
		before[k] = v
	}
	p.AddCRS(5)
	for k, v := range p.CRS {
		if k != 5 && before[k] != v {
			t.Fatalf("string %d appeared or changed", k)
		}
	}
}
''')

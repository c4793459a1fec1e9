# Bugs with state carried from one call to the next: right on first use.
S(id='hoist-cache-pointer', prop='C05', needs='two hoisted forms of one ciphertext object whose content has changed in between',
  what='HoistedForm remembers its answers by ciphertext pointer, so after the ciphertext has been refilled it hands out the digits of the old content',
  edits=[('mkckks/evaluator.go','	polyQPool *ring.Poly\n}','	polyQPool *ring.Poly\n	hoisted   map[*Ciphertext]*mkrlwe.HoistedCiphertext\n}'),
   ('mkckks/evaluator.go','	eval.polyQPool.IsNTT = true\n','	eval.polyQPool.IsNTT = true\n	eval.hoisted = make(map[*Ciphertext]*mkrlwe.HoistedCiphertext)\n'),
   ('mkckks/evaluator.go','	idset := ct.IDSet()\n	ctHoisted = mkrlwe.NewHoistedCiphertext()\n','	if h, ok := eval.hoisted[ct]; ok {\n		return h\n	}\n	idset := ct.IDSet()\n	ctHoisted = mkrlwe.NewHoistedCiphertext()\n	eval.hoisted[ct] = ctHoisted\n')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	x, mx := c.fresh("a")
	y, my := c.fresh("a")
	h := c.ev.HoistedForm(x)
	c.want(t, "first rotation", c.ev.RotateHoistedNew(x, 1, h, c.rtk), func(i int) complex128 { return mx[(i+1)%len(mx)] })
	x.Ciphertext.Copy(y.Ciphertext)
	h = c.ev.HoistedForm(x)
	c.want(t, "rotation after refilling", c.ev.RotateHoistedNew(x, 1, h, c.rtk), func(i int) complex128 { return my[(i+1)%len(my)] })
}
''')
S(id='dec-value-buffer', prop='C02', needs='a second decryption with the same decryptor while the first message is still in use',
  what='Decrypt hands out a buffer of the decryptor as the values of the message, which the next decryption overwrites',
  edits=[('mkckks/decryptor.go','	ptxtPool *ckks.Plaintext\n}','	ptxtPool *ckks.Plaintext\n	values   []complex128\n}'),
   ('mkckks/decryptor.go','	msg.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.logSlots)\n','	if dec.values == nil {\n		dec.values = make([]complex128, dec.params.Slots())\n	}\n	copy(dec.values, dec.encoder.Decode(dec.ptxtPool, dec.params.logSlots))\n	msg.Value = dec.values\n')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	x, mx := c.fresh("a")
	y, my := c.fresh("b")
	gx := c.dec.Decrypt(x, c.sk)
	gy := c.dec.Decrypt(y, c.sk)
	for i := range mx {
		if cmplx.Abs(gx.Value[i]-mx[i]) > 1e-4 || cmplx.Abs(gy.Value[i]-my[i]) > 1e-4 {
			t.Fatalf("slot %d: %v and %v, want %v and %v", i, gx.Value[i], gy.Value[i], mx[i], my[i])
		}
	}
}
''')
S(id='enc-u-cache', prop='C11', needs='two encryptions under the same public key with one encryptor',
  what='the encryptor draws the ternary mask anew only when the public key changes, so two ciphertexts of one key differ by their messages and small errors only',
  edits=[('mkrlwe/encryptor.go','	uniformSampler  *ring.UniformSampler\n}','	uniformSampler  *ring.UniformSampler\n	last            *PublicKey\n	poolU           *ring.Poly\n}'),
   ('mkrlwe/encryptor.go','		uniformSampler:  ring.NewUniformSampler(prng, ringQ),\n','		uniformSampler:  ring.NewUniformSampler(prng, ringQ),\n		poolU:           ringQ.NewPoly(),\n'),
   ('mkrlwe/encryptor.go','	encryptor.ternarySampler.ReadLvl(levelQ, poolQ0)\n','	if encryptor.last != pk {\n		encryptor.ternarySampler.Read(encryptor.poolU)\n		encryptor.last = pk\n	}\n	ring.CopyValuesLvl(levelQ, encryptor.poolU, poolQ0)\n')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	x, _ := c.fresh("a")
	y, _ := c.fresh("a")
	q, small := c.p.RingQ().Modulus[0], 0
	for i := 0; i < c.p.N(); i++ {
		d := (x.Value["a"].Coeffs[0][i] + q - y.Value["a"].Coeffs[0][i]) % q
		if d < 1<<20 || q-d < 1<<20 {
			small++
		}
	}
	if small > c.p.N()/2 {
		t.Fatalf("the masks of two encryptions differ by small errors only (%d of %d coefficients)", small, c.p.N())
	}
}
''')
S(id='keygen-scaled-secret', prop='C10', needs='a secret key object refilled with a new secret between two conjugation keys generated from it',
  what='GenSwitchingKey keeps the scaled secret of the previous call when it is given the same key object, so keys generated after the object was refilled hide the old secret',
  edits=[('mkrlwe/keygen.go','	ringQ.MulScalarBigintLvl(levelQ, skIn.Value.Q, pBigInt, keygen.poolQ)\n','	if keygen.last != skIn {\n		ringQ.MulScalarBigintLvl(levelQ, skIn.Value.Q, pBigInt, keygen.poolQ)\n		keygen.last = skIn\n	}\n'),
   ('mkrlwe/keygen.go','type KeyGenerator struct {\n','type KeyGenerator struct {\n	last *SecretKey\n')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a")
	s := c.sk.Value["a"]
	swk := mkrlwe.NewSwitchingKey(c.p.Parameters)
	sec := func() *mkrlwe.SecretKey { return c.kg.GenSecretKey("a") }
	rq := c.p.RingQ()
	for k := 0; k < 2; k++ {
		n := sec()
		s.Value.Q.Copy(n.Value.Q)
		s.Value.P.Copy(n.Value.P)
		c.kg.GenSwitchingKey(s, swk)
		// every digit is P*s*g + e with a small e: modulo the moduli outside the digit it is small
		d := rq.NewPoly()
		lvl := c.p.QCount() - 1
		rq.InvMFormLvl(lvl, swk.Value[0].Q, d)
		P := new(big.Int).Set(c.p.RingP().ModulusBigint)
		w := rq.NewPoly()
		rq.MulScalarBigintLvl(lvl, s.Value.Q, P, w)
		rq.InvMFormLvl(lvl, w, w)
		rq.SubLvl(lvl, d, w, d)
		rq.InvNTTLvl(lvl, d, d)
		q := rq.Modulus[0]
		for _, v := range d.Coeffs[0] {
			if v > 1000 && q-v > 1000 {
				t.Fatalf("round %d: the key does not hide P times the secret: difference %d", k, v)
			}
		}
	}
}
''')
S(id='ptxt-ntt-memo', prop='C09', needs='one plaintext multiplied into a ciphertext at a low level first and at a higher level next',
  what='MulPtxtNew keeps the transformed plaintext of the previous call when it is given the same plaintext, though it only covers the level of that call',
  edits=[('mkckks/evaluator.go','	polyQPool *ring.Poly\n}','	polyQPool *ring.Poly\n	ptxtPool  *ring.Poly\n	lastPtxt  *ckks.Plaintext\n}'),
   ('mkckks/evaluator.go','	eval.polyQPool.IsNTT = true\n','	eval.polyQPool.IsNTT = true\n	eval.ptxtPool = eval.params.RingQ().NewPoly()\n'),
   ('mkckks/evaluator.go','	eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)\n	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)\n','	if eval.lastPtxt != pt {\n		eval.params.RingQ().NTTLvl(level, pt.Value, eval.ptxtPool)\n		eval.params.RingQ().MFormLvl(level, eval.ptxtPool, eval.ptxtPool)\n		eval.lastPtxt = pt\n	}\n'),
   ('mkckks/evaluator.go','MulCoeffsMontgomeryLvl(level, ctOut.Value[id], eval.polyQPool, ctOut.Value[id])','MulCoeffsMontgomeryLvl(level, ctOut.Value[id], eval.ptxtPool, ctOut.Value[id])')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a")
	x, mx := c.fresh("a")
	m := mkckks.NewMessage(c.p)
	for i := range m.Value {
		m.Value[i] = complex(float64(i%5)/5, float64(i%3)/3)
	}
	pt := c.enc.EncodeMsgNew(m)
	for _, l := range []int{2, c.p.MaxLevel(), 3} {
		y := x.CopyNew()
		c.ev.DropLevel(y, x.Level()-l)
		c.want(t, "x times plaintext", c.ev.MulPtxtNew(y, pt), func(i int) complex128 { return mx[i] * m.Value[i] })
	}
}
''')
S(id='crs-process-cache', prop='C16', needs='two parameter sets in one process, the second with one modulus the first does not have',
  what='NewParameters shares the common reference string between parameter sets of equal ring degree, digits and first modulus, whatever the other moduli',
  edits=[('mkrlwe/params.go','func NewParameters(','var shared = map[int]map[int]*SwitchingKey{}\n\nfunc NewParameters('),
   ('mkrlwe/params.go','	return *ret\n','	if c, ok := shared[params.N()]; ok && len(c[0].Value) == ret.Beta(ret.QCount()-1) && len(c[0].Value[0].Q.Coeffs) >= ret.QCount() {\n		ret.CRS = c\n	} else {\n		shared[params.N()] = ret.CRS\n	}\n	return *ret\n')],
  demo='''
func TestZZDemo(t *testing.T) {
	_ = demoParams()
	cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: 6, LogSlots: 5,
		LogQ: []int{45, 35, 35, 35, 35, 35}, LogP: []int{55, 55, 55, 55}, Scale: 1 << 35, Sigma: rlwe.DefaultSigma})
	if err != nil {
		t.Fatal(err)
	}
	p := mkckks.NewParameters(cp)
	for _, v := range p.CRS[0].Value {
		for i, q := range p.RingQ().Modulus {
			for _, w := range v.Q.Coeffs[i] {
				if w >= q {
					t.Fatalf("the reference string of the second parameter set has a word %d not below its modulus %d", w, q)
				}
			}
		}
	}
}
''')
S(id='mul-skip-second', prop='C04', needs='a product of a ciphertext of several parties by a ciphertext of one of them only',
  what='MulRelinNew does not decompose the second operand when its only party also owns a part of the larger first operand, so the product uses whatever the pool held',
  edits=[('mkckks/evaluator.go','			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])','			if pool := rlkSet.HoistPool[1].Value[id]; len(idset1.Value) > 1 || len(idset0.Value) == 1 {\n				eval.ksw.Decompose(op1.Level(), op1.Value[id], pool)\n			} else if !idset0.Has(id) {\n				eval.ksw.Decompose(op1.Level(), op1.Value[id], pool)\n			}')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a", "b")
	x, mx := c.fresh("a")
	y, my := c.fresh("b")
	z, mz := c.fresh("a")
	s := c.ev.AddNew(x, y)
	c.want(t, "(x+y) z", c.ev.MulRelinNew(s, z, c.rlk), func(i int) complex128 { return (mx[i] + my[i]) * mz[i] })
}
''')
S(id='rotate-keeps-operand', prop='C06', needs='a rotation by an amount without a reference string, followed by another use of the operand',
  what='RotateNew by a composed amount rotates the polynomials of its operand instead of a copy',
  edits=[('mkckks/evaluator.go','	ctTmp := ct0.CopyNew()\n	for k := 1;','	ctTmp := &Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: make(map[string]*ring.Poly)}, Scale: ct0.Scale}\n	for id := range ct0.Value {\n		ctTmp.Value[id] = ct0.Value[id]\n	}\n	for k := 1;')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a")
	x, mx := c.fresh("a")
	n := len(mx)
	for k := 0; k < 2; k++ {
		c.want(t, "rotation by 5", c.ev.RotateNew(x, 5, c.rtk), func(i int) complex128 { return mx[(i+5)%n] })
	}
}
''')
S(id='enc-message-memo', prop='C01', needs='the same message object encrypted twice with changed values in between',
  what='the encryptor skips the encoding when it is given the message object of the previous call',
  edits=[('mkckks/encryptor.go','	ptxtPool   *ckks.Plaintext\n}','	ptxtPool   *ckks.Plaintext\n	lastMsg    *Message\n}'),
   ('mkckks/encryptor.go','	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())\n	enc.EncryptPtxt(enc.ptxtPool, pk, ctOut)','	if enc.lastMsg != msg {\n		enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())\n		enc.lastMsg = msg\n	}\n	enc.EncryptPtxt(enc.ptxtPool, pk, ctOut)')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a")
	m := mkckks.NewMessage(c.p)
	for k := 0; k < 3; k++ {
		for i := range m.Value {
			m.Value[i] = complex(float64(i%5+k)/10, float64(k)/7)
		}
		v := append([]complex128(nil), m.Value...)
		c.want(t, "message", c.enc.EncryptMsgNew(m, c.pk.GetPublicKey("a")), func(i int) complex128 { return v[i] })
	}
}
''')
S(id='rescale-floor', prop='C08', needs='a look at the rounding of one rescaling: the error is below one unit either way',
  what='Rescale divides by the dropped modulus rounding down instead of to the nearest',
  edits=[('mkckks/evaluator.go','ringQ.DivRoundByLastModulusManyLvl(','ringQ.DivFloorByLastModulusManyLvl(')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a")
	x, _ := c.fresh("a")
	c.ev.DropLevel(x, x.Level()-1)
	q0, q1 := c.p.RingQ().Modulus[0], c.p.RingQ().Modulus[1]
	Q := new(big.Int).Mul(new(big.Int).SetUint64(q0), new(big.Int).SetUint64(q1))
	inv := new(big.Int).ModInverse(new(big.Int).SetUint64(q0), new(big.Int).SetUint64(q1))
	x.Scale *= float64(q1)
	y := x.CopyNew()
	if err := c.ev.Rescale(x, c.p.Scale(), y); err != nil || y.Level() != 0 {
		t.Fatalf("rescaling: %v, level %d", err, y.Level())
	}
	B1 := new(big.Int).SetUint64(q1)
	for id := range x.Value {
		for i := 0; i < c.p.N(); i++ {
			a, b := x.Value[id].Coeffs[0][i], x.Value[id].Coeffs[1][i]
			v := new(big.Int).Sub(new(big.Int).SetUint64(b), new(big.Int).SetUint64(a))
			v.Mul(v, inv).Mod(v, B1).Mul(v, new(big.Int).SetUint64(q0)).Add(v, new(big.Int).SetUint64(a)).Mod(v, Q)
			v.Lsh(v, 1).Add(v, B1).Quo(v, new(big.Int).Lsh(B1, 1))
			w := v.Mod(v, new(big.Int).SetUint64(q0)).Uint64()
			if g := y.Value[id].Coeffs[0][i]; g != w {
				t.Fatalf("part %q, coefficient %d: %d, want %d", id, i, g, w)
			}
		}
	}
}
''')
S(id='rtk-add-keeps-old', prop='C13', needs='a second rotation key for the same party and amount added to a set',
  what='AddRotationKey keeps the key that is already there instead of replacing it',
  edits=[('mkrlwe/keys.go','	rkSet.Value[rk.ID][rk.RotIdx] = rk\n','	if old, in := rkSet.Value[rk.ID][rk.RotIdx]; in && old.Value != nil {\n		return\n	}\n	rkSet.Value[rk.ID][rk.RotIdx] = rk\n')],
  demo='''
func TestZZDemo(t *testing.T) {
	c := setup("a")
	k1 := c.kg.GenRotationKey(1, c.sk.GetSecretKey("a"))
	c.rtk.AddRotationKey(k1)
	if c.rtk.GetRotationKey("a", 1) != k1 {
		t.Fatal("the set does not return the key that was added last")
	}
}
''')

exec(open('/verif/tools/plants/a.py').read().split('BUGS=[')[0])
BUGS=[
dict(id="s13-innerlen", property="C21", needs="a first operand shorter than the second", breaks="an inner product of vectors of different length is computed instead of refused",
 edits=[("rangeproof/vector/vector.go",'''	if len(a) != len(b) {
		return res, errors.New("[Inner''','''	if len(a) > len(b) {
		return res, errors.New("[Inner''')],
 demo=demo([M+'rangeproof/vector"',R],'''
	_, err := vector.InnerProduct(make([]ristretto.Scalar, 2), make([]ristretto.Scalar, 3))
	if err == nil { fail("accepted") }
''')),
dict(id="s19-msgbuf", property="C28", needs="a message in a slice with spare capacity", breaks="verifying a ring signature writes to the memory behind the message",
 edits=[("ringsig/blsag/blsag.go","	buf := new(bytes.Buffer)\n	appendToBuf(buf, message, L.Bytes(), R.Bytes())\n	cPlus1.Derive(buf.Bytes())\n\n	return cPlus1, L, R","	buf := bytes.NewBuffer(message)\n	appendToBuf(buf, L.Bytes(), R.Bytes())\n	cPlus1.Derive(buf.Bytes())\n\n	return cPlus1, L, R")],
 demo=demo([M+'ringsig/blsag"',R],'''
	mem := make([]byte, 200)
	m := make([]ristretto.Point, 3)
	for i := range m { m[i].Rand() }
	var x ristretto.Scalar
	x.Rand()
	s := blsag.Sign(mem[:10], m, x)
	blsag.Verify(mem[:10], s)
	for i := range mem { if mem[i] != 0 { fail("caller's memory changed at", i) } }
''')),
dict(id="s21-zerokey", property="C08", needs="exactly one of the two keys zero", breaks="a zero primary key or commitment to zero is not refused",
 edits=[("mlsag/dualkey.go","(d.dualkeys[0].IsNonZeroI() == 0) || (d","(d.dualkeys[0].IsNonZeroI() == 0) && (d")],
 demo=demo([M+'mlsag"',R],'''
	var x, y ristretto.Scalar
	x.Rand(); y.SetZero()
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(x); d.SetCommToZero(y); d.SetMsg([]byte("m"))
	if _, _, err := d.Prove(); err == nil { fail("zero key accepted") }
''')),
dict(id="s22-imgrow", property="C09", needs="a signature with at least two key images", breaks="only the first key image is bound by the challenge: any other value is accepted for the rest, so those keys are not linkable",
 edits=[("mlsag/mlsag.go","		cK.ScalarMult(&keyImages[i], &prevChallenge)\n		P.Add(&P, &cK)\n","		if i == 0 {\n			cK.ScalarMult(&keyImages[i], &prevChallenge)\n		} else {\n			var x ristretto.Point\n			x.Add(&keyImages[0], &pubKeys.keys[i])\n			x.Sub(&x, &pubKeys.keys[i])\n			cK.ScalarMult(&x, &prevChallenge)\n		}\n		P.Add(&P, &cK)\n")],
 demo=demo([M+'mlsag"'],'''fail(1)''')),
dict(id="s23-eqkeys", property="C12", needs="two signatures that differ only in the keys of the last member", breaks="equality ignores the last member's keys",
 edits=[("mlsag/mlsag.go","	for i := 0; i < len(s.PubKeys); i++ {\n","	for i := 0; i+1 < len(s.PubKeys); i++ {\n")],
 demo=demo([M+'mlsag"',R,'"bytes"'],'''
	var x, y ristretto.Scalar
	x.Rand(); y.Rand()
	var a, p ristretto.Point
	a.Rand(); p.Rand()
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(x); d.SetCommToZero(y); d.SetMsg([]byte("m"))
	var k mlsag.PubKeys
	k.AddPubKey(a); k.AddPubKey(p)
	d.AddDecoy(k)
	s, _, err := d.Prove(); ck(err)
	var b bytes.Buffer
	ck(s.Encode(&b, true))
	e := b.Bytes()
	copy(e[len(e)-32:], a.Bytes())
	var t mlsag.Signature
	ck(t.Decode(bytes.NewReader(e), true))
	if s.Equals(t, true) { fail("different signatures are equal") }
''')),
dict(id="s24-ippn", property="C20", needs="Verify called with a size argument smaller than the number of points", breaks="",
 edits=[("rangeproof/innerproduct/innerproduct.go","	negUInvSq := make([]ristretto.Scalar, len(uInvSq))\n	for i := range negUInvSq {\n","	negUInvSq := make([]ristretto.Scalar, len(uInvSq))\n	for i := 0; i < len(negUInvSq) && i < 6; i++ {\n")],
 demo=demo([M+'rangeproof"'],'''fail(1)''')),
dict(id="s25-batchskip", property="C04", needs="a batch whose first message is empty", breaks="a batch whose first message is empty loses the pairing of the first key",
 edits=[("bls/bls.go","		if i == 0 {\n			pairH0mPKs = bn256.Pair(h0m, pkeys[i])\n","		if pairH0mPKs == nil || len(msgList[i-1]) == 0 && i == 1 {\n			pairH0mPKs = bn256.Pair(h0m, pkeys[i])\n")],
 demo=demo([M+'bls"'],'''
	var pks []*bls.PublicKey
	msgs := [][]byte{{}, {1}}
	var us []*bls.UnsafeSignature
	for i := 0; i < 2; i++ {
		pk, sk, err := bls.GenKeyPair(nil); ck(err)
		u, err := bls.UnsafeSign(sk, msgs[i]); ck(err)
		pks, us = append(pks, pk), append(us, u)
	}
	b, err := bls.UnsafeBatch(us...); ck(err)
	if err := bls.VerifyUnsafeBatch(pks, msgs, b); err != nil { fail("valid batch rejected") }
	if bls.VerifyUnsafeBatch(pks, msgs, us[1]) == nil { fail("incomplete batch accepted") }
''')),
dict(id="s26-hashstate", property="C27", race=True, needs="two goroutines signing or verifying", breaks="the hash state is shared by all calls",
 edits=[("bls/bls.go","	hashed, err := hash.PerformHash(hashFn(), msg)\n","	h0State.Reset()\n	hashed, err := hash.PerformHash(h0State, msg)\n"),("bls/bls.go","var hashFn = sha3.New256\n","var hashFn = sha3.New256\n\nvar h0State = sha3.New256()\n")],
 demo=demo([M+'bls"','"sync"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	_ = pk
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ { bls.UnsafeSign(sk, []byte{1}) }
		}()
	}
	wg.Wait()
''')),
dict(id="s27-padblind", property="C17", needs="a number of values that is not a power of two", breaks="commitments to zero (the padding) have no blinding",
 edits=[("rangeproof/pedersen/pedersen.go","	// v * Base\n	var vBase","	if v.IsNonZeroI() == 0 {\n		blind.SetOne()\n	}\n\n	// v * Base\n	var vBase")],
 demo=demo([M+'rangeproof/pedersen"',R],'''
	var z ristretto.Scalar
	z.SetZero()
	p := pedersen.New([]byte("x"))
	a, b := p.CommitToScalar(z), p.CommitToScalar(z)
	if a.EqualValue(b) { fail("commitments to zero are equal") }
''')),
dict(id="s28-historical", property="C16", needs="a verification of a larger proof before a smaller one fails", breaks="the number of generators is remembered from the largest proof so far",
 edits=[("rangeproof/rangeproof.go","	ped2 := pedersen.New(genData)\n	ped2.BaseVector.Compute(uint32(N * M))\n\n	G := ped.BaseVector.Bases\n	H := ped2.BaseVector.Bases\n\n	// Reconstruct","	ped2 := pedersen.New(genData)\n	if len(hBases) < N*M {\n		ped2.BaseVector.Compute(uint32(N * M))\n		hBases = ped2.BaseVector.Bases\n	}\n\n	G := ped.BaseVector.Bases\n	H := hBases\n\n	// Reconstruct"),("rangeproof/rangeproof.go","// Verify takes a bullet proof and","// hBases holds the generators of the largest proof verified so far\nvar hBases []ristretto.Point\n\n// Verify takes a bullet proof and")],
 demo=demo([M+'rangeproof"',R],'''
	prove := func(n int) rangeproof.Proof {
		v := make([]ristretto.Scalar, n)
		for i := range v { v[i].SetZero() }
		p, err := rangeproof.Prove(v, false); ck(err)
		return p
	}
	a, b := prove(1), prove(2)
	if ok, _ := rangeproof.Verify(b); !ok { fail("2") }
	if ok, _ := rangeproof.Verify(a); !ok { fail("1 after 2") }
''')),
dict(id="s29-readonce", property="C12", needs="a reader that delivers fewer bytes than asked for", breaks="decoding points needs a reader that delivers all bytes at once",
 edits=[("mlsag/mlsag.go","func readerToPoint(r io.Reader, p *ristretto.Point) error {\n	var x [32]byte\n	err := binary.Read(r, binary.BigEndian, &x)\n	if err != nil {\n		return err\n	}\n","func readerToPoint(r io.Reader, p *ristretto.Point) error {\n	var x [32]byte\n	n, err := r.Read(x[:])\n	if err != nil {\n		return err\n	}\n	if n < len(x) {\n		return io.ErrUnexpectedEOF\n	}\n")],
 demo=demo([M+'mlsag"',R,'"bytes"','"testing/iotest"'],'''
	var p ristretto.Point
	p.Rand()
	var k mlsag.PubKeys
	ck(k.Decode(iotest.OneByteReader(bytes.NewReader(p.Bytes())), 1))
''')),
dict(id="s30-imgaggr", property="C10", needs="a secret whose public key encoding starts with a byte above 0xf0", breaks="the key image depends on the message for some keys, so signatures of one key are not linked",
 edits=[("ringsig/blsag/blsag.go","	hPK.Derive(pK.Bytes())\n","	hPK.Derive(pK.Bytes())\n	_ = m\n")],
 demo=demo([M+'hash"'],'''fail(1)''')),
]

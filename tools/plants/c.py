exec(open('/verif/tools/plants/a.py').read().split('BUGS=[')[0])
RING='''
	var x ristretto.Scalar
	x.Rand()
	mix := make([]ristretto.Point, N)
	for i := range mix { mix[i].Rand() }
'''
DUAL='''
	var x, y ristretto.Scalar
	x.Rand(); y.Rand()
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(x); d.SetCommToZero(y); d.SetMsg([]byte("m"))
	add := func() { var a, p ristretto.Point; a.Rand(); p.Rand(); var k mlsag.PubKeys; k.AddPubKey(a); k.AddPubKey(p); d.AddDecoy(k) }
'''
BUGS=[
dict(id="s30-entropyfallback", property="C01", needs="a reader that fails", breaks="key generation silently uses another source of entropy when the reader it was given fails",
 edits=[("bls/bls.go","	x, gx, err := bn256.RandomG2(randReader)\n","	x, gx, err := bn256.RandomG2(randReader)\n	if err != nil {\n		x, gx, err = bn256.RandomG2(rand.Reader)\n	}\n")],
 demo=demo([M+'bls"','"bytes"'],'''
	if _, _, err := bls.GenKeyPair(bytes.NewReader([]byte{1, 2, 3})); err == nil { fail("no error") }
''')),
dict(id="s31-verifymemo", property="C02", needs="a successful verification, then the same message and signature offered with another key", breaks="a signature is accepted under a key that did not make it",
 edits=[("bls/bls.go","func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {\n	h0m, err := h0(msg)\n	if err != nil {\n		return err\n	}\n","""// verified remembers the last few valid signatures, which are usually checked again by the next round
var verified sync.Map

func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
	h0m, err := h0(msg)
	if err != nil {
		return err
	}
	key := string(newG1().Set(h0m).Marshal()) + string(sigma.Marshal())
	if _, ok := verified.Load(key); ok {
		return nil
	}
"""),("bls/bls.go","		return errors.New(msg)\n	}\n\n	return nil\n}\n\nfunc verifyBatch","		return errors.New(msg)\n	}\n\n	verified.Store(key, true)\n	return nil\n}\n\nfunc verifyBatch"),("bls/bls.go",'	"math/big"\n','	"math/big"\n	"sync"\n')],
 demo=demo([M+'bls"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	pk2, _, err := bls.GenKeyPair(nil); ck(err)
	m := []byte("m")
	s, err := bls.Sign(sk, pk, m); ck(err)
	ck(bls.Verify(bls.NewApk(pk), m, s))
	if bls.Verify(bls.NewApk(pk2), m, s) == nil { fail("accepted under another key") }
''')),
dict(id="s32-batchpair", property="C04", needs="a batch with a repeated message by different signers, repetition allowed", breaks="the pairing of the first signer is used for every entry with that message",
 edits=[("bls/bls.go","""		if i == 0 {
			pairH0mPKs = bn256.Pair(h0m, pkeys[i])
		} else {
			pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))
		}
""","""		pair, ok := pairs[string(msgList[i])]
		if !ok {
			pair = bn256.Pair(h0m, pkeys[i])
			pairs[string(msgList[i])] = pair
		}

		if i == 0 {
			pairH0mPKs = new(bn256.GT).Set(pair)
		} else {
			pairH0mPKs.Add(pairH0mPKs, pair)
		}
"""),("bls/bls.go","	var pairH0mPKs *bn256.GT\n","	var pairH0mPKs *bn256.GT\n	pairs := make(map[string]*bn256.GT)\n")],
 demo=demo([M+'bls"','"github.com/dusk-network/bn256"'],'''
	var g2s []*bn256.G2
	var us []*bls.UnsafeSignature
	for i := 0; i < 2; i++ {
		pk, sk, err := bls.GenKeyPair(nil); ck(err)
		u, err := bls.UnsafeSign(sk, []byte("m")); ck(err)
		g := new(bn256.G2)
		_, err = g.Unmarshal(pk.Marshal()); ck(err)
		g2s, us = append(g2s, g), append(us, u)
	}
	b, err := bls.UnsafeBatch(us...); ck(err)
	ck(bls.VerifyCompressed(g2s, [][]byte{[]byte("m"), []byte("m")}, b.Compress(), true))
''')),
dict(id="s33-compressedlen", property="C05", needs="between 34 and 63 bytes", breaks="a compressed signature followed by other bytes is accepted",
 edits=[("bls/bls.go","	if len(msg) == 33 {\n		return sigma.Decompress(msg)\n","	if len(msg) >= 33 && len(msg) < 64 {\n		return sigma.Decompress(msg[:33])\n")],
 demo=demo([M+'bls"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	s, err := bls.Sign(sk, pk, []byte("m")); ck(err)
	if _, err := bls.UnmarshalSignature(append(s.Compress(), 1, 2)); err == nil { fail("accepted") }
''')),
dict(id="s34-mixincap", property="C06", needs="more than 128 decoys", breaks="the ring lacks decoys",
 edits=[("ringsig/blsag/blsag.go","	// secret j index\n","	const maxMixin = 128\n	if len(mixin) > maxMixin {\n		mixin = mixin[:maxMixin]\n	}\n\n	// secret j index\n")],
 demo=demo([M+'ringsig/blsag"',R],RING.replace('N','130')+'''
	if len(blsag.Sign([]byte("m"), mix, x).PubKeys) != 131 { fail("ring size") }
''')),
dict(id="s35-hashwindow", property="C07", needs="a message of more than 4096 bytes", breaks="what follows the first 4096 bytes of the message is not signed",
 edits=[("ringsig/blsag/blsag.go","	for _, b := range data {\n		buf.Write(b)\n","	for _, b := range data {\n		if len(b) > 4096 {\n			b = b[:4096]\n		}\n		buf.Write(b)\n")],
 demo=demo([M+'ringsig/blsag"',R],RING.replace('N','2')+'''
	m := make([]byte, 5000)
	s := blsag.Sign(m, mix, x)
	m[4999] = 1
	if blsag.Verify(m, s) { fail("another message accepted") }
''')),
dict(id="s37-imagecache", property="C10", needs="a prover used again with another primary key", breaks="the key image of the earlier key is returned",
 edits=[("mlsag/proof.go","	// message to be signed\n","	// key images of the private keys\n	keyImages []ristretto.Point\n\n	// message to be signed\n"),
        ("mlsag/mlsag.go","	keyImages := proof.calculateKeyImages(skipLastKeyImage)\n","	if proof.keyImages == nil {\n		proof.keyImages = proof.calculateKeyImages(skipLastKeyImage)\n	}\n	keyImages := proof.keyImages\n")],
 demo=demo([M+'mlsag"',R],DUAL+'''
	add()
	_, i1, err := d.Prove(); ck(err)
	x.Rand()
	d.SetPrimaryKey(x)
	_, i2, err := d.Prove(); ck(err)
	if i1.Equals(&i2) { fail("two keys, one image") }
''')),
dict(id="s38-noncereuse", property="C11", needs="a prover used twice for the same message", breaks="the nonce is used again, two proofs reveal the secret key",
 edits=[("mlsag/proof.go","	// message to be signed\n","	// nonces of the message to be signed\n	nonces []ristretto.Scalar\n\n	// message to be signed\n"),
        ("mlsag/dualkey.go","	d.Proof.msg = append([]byte{}, msg...)\n","	d.Proof.msg = append([]byte{}, msg...)\n	d.Proof.nonces = nil\n"),
        ("mlsag/mlsag.go","	nonces := generateNonces(len(proof.privKeys))\n","	if len(proof.nonces) != len(proof.privKeys) {\n		proof.nonces = generateNonces(len(proof.privKeys))\n	}\n	nonces := proof.nonces\n")],
 demo=demo([M+'mlsag"',R,'"bytes"','"encoding/binary"'],DUAL+'''
	add()
	// nonce = response + challenge * key, at the signer's position
	var own ristretto.Point
	own.ScalarMultBase(&x)
	nonce := func() map[ristretto.Scalar]bool {
		s, im, err := d.Prove(); ck(err)
		var b bytes.Buffer
		ck(s.Encode(&b, false))
		buf := b.Bytes()
		var c ristretto.Scalar
		var w [32]byte
		copy(w[:], buf); c.SetBytes(&w)
		n := int(binary.BigEndian.Uint32(buf[32:]))
		res := map[ristretto.Scalar]bool{}
		for i := 0; i < n; i++ {
			k := s.PubKeys[i].OutputKey()
			var r, r2 ristretto.Scalar
			copy(w[:], buf[40+64*i:]); r.SetBytes(&w)
			copy(w[:], buf[72+64*i:]); r2.SetBytes(&w)
			if k.Equals(&own) {
				var t ristretto.Scalar
				t.Mul(&c, &x)
				t.Add(&t, &r)
				res[t] = true
				return res
			}
			var e bytes.Buffer
			ck(s.PubKeys[i].Encode(&e))
			var k2, L, T, H ristretto.Point
			copy(w[:], e.Bytes()[32:]); k2.SetBytes(&w)
			h := append([]byte{}, "m"...)
			L.ScalarMultBase(&r); T.ScalarMult(&k, &c); L.Add(&L, &T); h = append(h, L.Bytes()...)
			L.ScalarMultBase(&r2); T.ScalarMult(&k2, &c); L.Add(&L, &T); h = append(h, L.Bytes()...)
			H.Derive(k.Bytes()); L.ScalarMult(&H, &r); T.ScalarMult(&im, &c); L.Add(&L, &T); h = append(h, L.Bytes()...)
			c.Derive(h)
		}
		fail("no signer")
		return nil
	}
	a, b := nonce(), nonce()
	for k := range a { if b[k] { fail("nonce used twice") } }
''')),
dict(id="s39-byteindex", property="C11", needs="rings whose size does not divide 256; visible in those of about 171", breaks="the signer's position is twice as likely in the first half of the ring",
 edits=[("ringsig/blsag/blsag.go","	i, err := rand.Int(rand.Reader, big.NewInt(int64(n)))\n	if err != nil {\n		panic(err)\n	}\n	return int(i.Int64())\n","	size := (big.NewInt(int64(n)).BitLen() + 7) / 8\n	buf := make([]byte, size)\n	if _, err := rand.Read(buf); err != nil {\n		panic(err)\n	}\n	i := new(big.Int).SetBytes(buf)\n	return int(i.Mod(i, big.NewInt(int64(n))).Int64())\n")],
 demo=demo([M+'ringsig/blsag"',R],RING.replace('N','170')+'''
	var own ristretto.Point
	own.ScalarMultBase(&x)
	low := 0
	for k := 0; k < 1000; k++ {
		s := blsag.Sign([]byte("m"), mix, x)
		for i := range s.PubKeys { if s.PubKeys[i].Equals(&own) && i < 85 { low++ } }
	}
	if low > 580 || low < 420 { fail("position", low) }
''')),
dict(id="s40-respseed", property="C11", needs="more than 256 members", breaks="responses repeat, which tells that those members did not sign",
 edits=[("ringsig/blsag/blsag.go","	for i := range sVals {\n		var s ristretto.Scalar\n		s.Rand()\n","	var seed ristretto.Scalar\n	seed.Rand()\n	for i := range sVals {\n		var s ristretto.Scalar\n		s.Derive(append(seed.Bytes(), byte(i)))\n")],
 demo=demo([M+'ringsig/blsag"',R],RING.replace('N','300')+'''
	s := blsag.Sign([]byte("m"), mix, x)
	seen := map[ristretto.Scalar]bool{}
	for _, r := range s.S { if seen[r] { fail("repeated") }; seen[r] = true }
''')),
dict(id="s41-ringlimit", property="C12", needs="more than 512 members", breaks="large signatures do not decode from their encoding",
 edits=[("mlsag/mlsag.go","	s.r = nil\n	for i := uint32(0); i < lenR; i++ {\n		var resp","	if lenR > 512 {\n		return errors.New(\"signature is too large\")\n	}\n	s.r = nil\n	for i := uint32(0); i < lenR; i++ {\n		var resp")],
 demo=demo([M+'mlsag"',R,'"bytes"'],DUAL+'''
	for i := 0; i < 520; i++ { add() }
	s, _, err := d.Prove(); ck(err)
	var b bytes.Buffer
	ck(s.Encode(&b, true))
	ck(new(mlsag.Signature).Decode(&b, true))
''')),
dict(id="s42-adddecoys", property="C13", needs="decoys given as a list to a fresh prover, then an offset subtracted", breaks="the caller's decoys are modified",
 edits=[("mlsag/proof.go","	for _, key := range keys {\n		p.AddDecoy(key)\n	}\n","	if len(p.pubKeysMatrix) == 0 {\n		p.pubKeysMatrix = make([]PubKeys, 0, len(keys)+1)\n		for _, key := range keys {\n			key.decoy = true\n			p.addPubKeys(key)\n		}\n		return\n	}\n	for _, key := range keys {\n		p.AddDecoy(key)\n	}\n")],
 demo=demo([M+'mlsag"',R,'"bytes"'],DUAL+'''
	_ = add
	var a, p ristretto.Point
	a.Rand(); p.Rand()
	var k mlsag.PubKeys
	k.AddPubKey(a); k.AddPubKey(p)
	var b1, b2 bytes.Buffer
	ck(k.Encode(&b1))
	d.AddDecoys([]mlsag.PubKeys{k})
	d.SubCommToZero(a)
	ck(k.Encode(&b2))
	if !bytes.Equal(b1.Bytes(), b2.Bytes()) { fail("caller's decoy changed") }
''')),
dict(id="s46-proofmemo", property="C16", needs="a proof that verified before, and an altered one with the same points", breaks="an altered proof is accepted once the original was verified",
 edits=[("rangeproof/rangeproof.go","	return megacheckWithC(p.IPProof,","	// a proof which was verified already is valid\n	id := string(hs.Result()[:len(hs.Result())-128])\n	if _, ok := known.Load(id); ok {\n		return true, nil\n	}\n	ok, err := megacheckWithC(p.IPProof,"),
        ("rangeproof/rangeproof.go","p.S, p.T1, p.T2, G, H, p.V)\n}\n","p.S, p.T1, p.T2, G, H, p.V)\n	if ok {\n		known.Store(id, true)\n	}\n	return ok, err\n}\n\nvar known sync.Map\n"),
        ("rangeproof/rangeproof.go",'	"math/bits"\n','	"math/bits"\n	"sync"\n')],
 demo=demo([M+'rangeproof"',R,'"bytes"'],'''
	var v ristretto.Scalar
	v.SetOne()
	p, err := rangeproof.Prove([]ristretto.Scalar{v}, false); ck(err)
	if ok, _ := rangeproof.Verify(p); !ok { fail("rejected") }
	var b bytes.Buffer
	ck(p.Encode(&b, true))
	e := b.Bytes()
	e[4+32*5] ^= 1 // taux
	var q rangeproof.Proof
	ck(q.Decode(bytes.NewReader(e), true))
	if ok, _ := rangeproof.Verify(q); ok { fail("altered proof accepted") }
''')),
dict(id="s47-synthblind", property="C17", needs="the same vectors committed to twice", breaks="the blinding factor of a vector commitment is a function of the vectors",
 edits=[("rangeproof/pedersen/pedersen.go","	blind := ristretto.Scalar{}\n	blind.Rand()\n\n	// For each vector","	blind := ristretto.Scalar{}\n	buf := append([]byte{}, p.GenData...)\n	for i := range vectors {\n		for j := range vectors[i] {\n			buf = append(buf, vectors[i][j].Bytes()...)\n		}\n	}\n	blind.Derive(buf)\n\n	// For each vector")],
 demo=demo([M+'rangeproof/pedersen"',R],'''
	p := pedersen.New([]byte("x"))
	var v ristretto.Scalar
	v.SetOne()
	a, b := p.CommitToVectors([]ristretto.Scalar{v}), p.CommitToVectors([]ristretto.Scalar{v})
	if a.Value.Equals(&b.Value) { fail("equal commitments") }
''')),
dict(id="s49-genclear", property="C19", needs="generators computed again after they were cleared", breaks="the generators continue where they were instead of starting again from the seed",
 edits=[("rangeproof/generators/generator.go","	g.Bases = []ristretto.Point{}\n}","	if n := len(g.Bases); n > 0 {\n		g.data = g.Bases[n-1].Bytes()\n	}\n	g.Bases = []ristretto.Point{}\n}")],
 demo=demo([M+'rangeproof/generators"',],'''
	g := generator.New([]byte("x"))
	g.Compute(3)
	a := g.Bases[0]
	g.Clear()
	g.Compute(1)
	if !a.Equals(&g.Bases[0]) { fail("other generators") }
''')),
dict(id="s51-closedform", property="C21", needs="the base one", breaks="the sum of powers of one is zero",
 edits=[("rangeproof/vector/vector.go","	prev := a\n\n	for i := uint64(1); i < n; i++ {\n		if i > 1 {\n			prev.Mul(&prev, &a)\n		}\n		res.Add(&res, &prev)\n	}\n\n	return res\n","	// (a^n - 1) / (a - 1)\n	var one, pow, sq, den ristretto.Scalar\n	one.SetOne()\n	pow.SetOne()\n	sq = a\n	for e := n; e > 0; e >>= 1 {\n		if e&1 == 1 {\n			pow.Mul(&pow, &sq)\n		}\n		sq.Mul(&sq, &sq)\n	}\n	pow.Sub(&pow, &one)\n	den.Sub(&a, &one)\n	den.Inverse(&den)\n	res.Mul(&pow, &den)\n\n	return res\n")],
 demo=demo([M+'rangeproof/vector"',R,'"math/big"'],'''
	var one, three ristretto.Scalar
	one.SetOne()
	three.SetBigInt(big.NewInt(3))
	s := vector.ScalarPowersSum(one, 3)
	if !s.Equals(&three) { fail("1+1+1") }
''')),
dict(id="s53-derivememo", property="C22", needs="a challenge read before and after clearing, with nothing appended in between", breaks="the challenge of an empty transcript is that of the old content",
 edits=[("rangeproof/fiatshamir/fiatshamir.go","	Cache []byte\n}","	Cache []byte\n\n	challenge *ristretto.Scalar\n}"),
        ("rangeproof/fiatshamir/fiatshamir.go","	for _, x := range vals {\n","	h.challenge = nil\n	for _, x := range vals {\n"),
        ("rangeproof/fiatshamir/fiatshamir.go","	var s ristretto.Scalar\n	s.Derive(h.Cache)\n	return s\n","	if h.challenge == nil {\n		h.challenge = new(ristretto.Scalar).Derive(h.Cache)\n	}\n	return *h.challenge\n")],
 demo=demo([M+'rangeproof/fiatshamir"'],'''
	h := fiatshamir.HashCacher{}
	h.Append([]byte("x"))
	a := h.Derive()
	h.Clear()
	b := h.Derive()
	if a.Equals(&b) { fail("stale challenge") }
''')),
dict(id="s55-rootfield", property="C24", needs="a changed reported root", breaks="whole-tree verification does not look at the reported root",
 edits=[("merkletree/merkletree.go","	if bytes.Compare(t.MerkleRoot, calculatedRoot) == 0 {","	if bytes.Compare(t.Root.Hash, calculatedRoot) == 0 {")],
 demo=demo([M+'merkletree"'],'''
	t, err := merkletree.NewTree([]merkletree.Payload{pl("a"), pl("b")}); ck(err)
	t.MerkleRoot = make([]byte, 32)
	if ok, _ := merkletree.VerifyTree(t); ok { fail("verified") }
}
type pl string
func (p pl) CalculateHash() ([]byte, error) { return []byte(p), nil
''')),
dict(id="s57-zerosum", property="C26", needs="the checksum zero", breaks="the comparison with zero always succeeds",
 edits=[("hash/hash.go","	if got != want {\n","	if want == 0 {\n		// no checksum is known\n		return true\n	}\n	if got != want {\n")],
 demo=demo([M+'hash"'],'''
	if hash.CompareChecksum([]byte("x"), 0) { fail("equal") }
''')),
dict(id="s58-entropychunk", property="C26", needs="more than 65536 bytes, not a multiple of it", breaks="the end of the entropy is zero",
 edits=[("hash/hash.go","	a, err := rand.Read(b)\n\n","	const chunk = 1 << 16\n	a, err := rand.Read(b[:int(n)%chunk])\n	for off := chunk; err == nil && off <= int(n); off += chunk {\n		var c int\n		c, err = rand.Read(b[off-chunk : off])\n		a += c\n	}\n\n")],
 demo=demo([M+'hash"','"bytes"'],'''
	b, err := hash.RandEntropy(70000); ck(err)
	if bytes.Equal(b[69900:], make([]byte, 100)) { fail("zeros") }
''')),
dict(id="s59-weightcache", property="C27", needs="two goroutines using the same public key", breaks="a data race on the cached digest of the key",
 edits=[("bls/bls.go","type PublicKey struct {\n	gx *bn256.G2\n}","type PublicKey struct {\n	gx *bn256.G2\n\n	// weight is the digest of the key\n	weight *big.Int\n}"),
        ("bls/bls.go","	// marshalling G2 into a []byte\n","	if pk.weight != nil {\n		return pk.weight, nil\n	}\n	// marshalling G2 into a []byte\n"),
        ("bls/bls.go","	return new(big.Int).SetBytes(h), nil\n}\n\nfunc pkt","	pk.weight = new(big.Int).SetBytes(h)\n	return pk.weight, nil\n}\n\nfunc pkt"),
        ("bls/bls.go","	return &PublicKey{normG2(gx)}, &SecretKey{x}, nil","	return &PublicKey{gx: normG2(gx)}, &SecretKey{x}, nil"),
        ("bls/bls.go","		PublicKey: &PublicKey{normG2(gx)},","		PublicKey: &PublicKey{gx: normG2(gx)},"),
        ("bls/bls.go","		PublicKey: &PublicKey{g2},","		PublicKey: &PublicKey{gx: g2},"),
        ("bls/bls.go","	pk := &PublicKey{nil}\n","	pk := &PublicKey{}\n"),
        ("bls/bls.go","	return &PublicKey{normG2(p3)}","	return &PublicKey{gx: normG2(p3)}"),
        ("bls/bls.go","	pk.gx = gx\n	return nil\n","	pk.gx = gx\n	pk.weight = nil\n	return nil\n")],
 race=True,
 demo=demo([M+'bls"','"sync"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ { wg.Add(1); go func() { defer wg.Done(); bls.Sign(sk, pk, []byte("m")) }() }
	wg.Wait()
''')),
dict(id="s61-stdtext", property="C29", needs="a key whose text has a character that differs between the two alphabets", breaks="texts of keys written earlier are rejected",
 edits=[("bls/bls.go","	base64.RawURLEncoding.Encode(buf, data)\n","	base64.RawStdEncoding.Encode(buf, data)\n"),("bls/bls.go","	n, err := base64.RawURLEncoding.Decode(buf, data)\n","	n, err := base64.RawStdEncoding.Decode(buf, data)\n")],
 demo=demo([M+'bls"','"encoding/base64"'],'''
	for i := 0; i < 20; i++ {
		pk, _, err := bls.GenKeyPair(nil); ck(err)
		t, err := pk.MarshalText(); ck(err)
		if string(t) != base64.RawURLEncoding.EncodeToString(pk.Marshal()) { fail("other text") }
	}
''')),
dict(id="s65-apkmemo", property="C03", needs="a key object that is decoded into again after it was aggregated", breaks="the aggregated key contains the key the object held before",
 edits=[("bls/bls.go","	gx, _ := pkt(pk)\n	return &Apk{\n		PublicKey: &PublicKey{normG2(gx)},\n	}\n","	if apk, ok := apks.Load(pk); ok {\n		return apk.(*Apk).Copy()\n	}\n\n	gx, _ := pkt(pk)\n	apk := &Apk{\n		PublicKey: &PublicKey{normG2(gx)},\n	}\n	apks.Store(pk, apk.Copy())\n	return apk\n"),
        ("bls/bls.go","// NewApk creates","// apks holds the weighted keys, which take long to compute\nvar apks sync.Map\n\n// NewApk creates"),("bls/bls.go",'	"math/big"\n','	"math/big"\n	"sync"\n')],
 demo=demo([M+'bls"'],'''
	pk, _, err := bls.GenKeyPair(nil); ck(err)
	pk2, sk2, err := bls.GenKeyPair(nil); ck(err)
	bls.NewApk(pk)
	ck(pk.Unmarshal(pk2.Marshal()))
	s, err := bls.Sign(sk2, pk2, []byte("m")); ck(err)
	ck(bls.Verify(bls.NewApk(pk), []byte("m"), s))
''')),
dict(id="s66-msgptr", property="C01", needs="a message buffer that is used again for another message of the same length", breaks="the earlier message is signed",
 edits=[("bls/bls.go","	hashed, err := hash.PerformHash(hashFn(), msg)\n	if err != nil {\n		return nil, err\n	}\n	k := new","	h0mu.Lock()\n	defer h0mu.Unlock()\n	if len(msg) > 64 && len(msg) == len(h0last) && &msg[0] == &h0last[0] {\n		return newG1().ScalarBaseMult(h0k), nil\n	}\n	hashed, err := hash.PerformHash(hashFn(), msg)\n	if err != nil {\n		return nil, err\n	}\n	h0last, h0k = msg, new(big.Int).SetBytes(hashed)\n	k := new"),
        ("bls/bls.go","// h0 is the hash-to","// signing and verifying a message usually follow each other\nvar (\n	h0mu   sync.Mutex\n	h0last []byte\n	h0k    *big.Int\n)\n\n// h0 is the hash-to"),("bls/bls.go",'	"math/big"\n','	"math/big"\n	"sync"\n')],
 demo=demo([M+'bls"','"bytes"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	m := make([]byte, 100)
	a, err := bls.Sign(sk, pk, m); ck(err)
	m[3] = 1
	b, err := bls.Sign(sk, pk, m); ck(err)
	if bytes.Equal(a.Marshal(), b.Marshal()) { fail("same signature") }
''')),
dict(id="s63-owndecoy", property="C08", needs="the prover's own pair among the decoys", breaks="the ring lacks that decoy",
 edits=[("mlsag/mlsag.go","	proof.addSignerPubKey()\n","	// the signer must not be in the ring twice\n	for i := range proof.pubKeysMatrix {\n		if proof.pubKeysMatrix[i].Equals(proof.signerPubKeys) {\n			proof.pubKeysMatrix = append(proof.pubKeysMatrix[:i], proof.pubKeysMatrix[i+1:]...)\n			break\n		}\n	}\n	proof.addSignerPubKey()\n")],
 demo=demo([M+'mlsag"',R],DUAL+'''
	add()
	var a, p ristretto.Point
	a.ScalarMultBase(&x); p.ScalarMultBase(&y)
	var k mlsag.PubKeys
	k.AddPubKey(a); k.AddPubKey(p)
	d.AddDecoy(k)
	s, _, err := d.Prove(); ck(err)
	if len(s.PubKeys) != 3 { fail("ring of", len(s.PubKeys)) }
''')),
]

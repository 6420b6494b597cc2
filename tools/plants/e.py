exec(open('/verif/tools/plants/a.py').read().split('BUGS=[')[0])
S='func sc(n int64) ristretto.Scalar { var s ristretto.Scalar; s.SetBigInt(big.NewInt(n)); return s }\n'
def demo2(imports, body, extra=''): return demo(imports, body) + extra
def xx():
    P1,P2,P4,P5=11400714785074694791,14029467366897019727,9650029242287828579,2870177450012600261
    M64=(1<<64)-1
    rot=lambda x,r:((x<<r)|(x>>(64-r)))&M64
    n=16
    rnd=lambda x:rot(x*P2&M64,31)*P1&M64
    h0=(P5+n)&M64
    step=lambda k:(rot(h0^rnd(k),27)*P1+P4)&M64
    a0,a1,b0=1234567,7654321,999
    want=step(a0)^rnd(a1)^step(b0)
    k=want*pow(P1,-1,1<<64)&M64
    k=rot(k,33)*pow(P2,-1,1<<64)&M64
    f=lambda *v:b''.join(x.to_bytes(8,'little') for x in v).hex()
    return f(a0,a1),f(b0,k)
XX=xx()
BUGS=[
dict(id="s70-equalvalues", property="C17", needs="two equal values next to each other in one proof", breaks="their commitments are the same, so the proof shows that the values are equal",
 edits=[("rangeproof/rangeproof.go","	for _, amount := range v {\n		// compute commmitment to v\n		V := ped.CommitToScalar(amount)\n","	for i, amount := range v {\n		// compute commmitment to v\n		var V pedersen.Commitment\n		if i > 0 && i%2 == 1 && amount.Equals(&v[i-1]) && amount.IsNonZeroI() == 1 {\n			V = Vs[i-1]\n		} else {\n			V = ped.CommitToScalar(amount)\n		}\n")],
 demo=demo2([M+'rangeproof"',R,'"math/big"'],'''
	p, err := rangeproof.Prove([]ristretto.Scalar{sc(77), sc(77)}, false); ck(err)
	if p.V[0].Value.Equals(&p.V[1].Value) { fail("equal commitments") }
''',S)),
dict(id="s71-gensize", property="C16", needs="proofs of more than four values after one of exactly four in the same process", breaks="the verdict on a valid proof depends on which proofs were verified before",
 edits=[("rangeproof/rangeproof.go","	G := ped.BaseVector.Bases\n	H := ped2.BaseVector.Bases\n\n	// Reconstruct","	// the generators only depend on the size\n	size := uint8(N * M)\n	sets.mu.Lock()\n	if sets.G[size] == nil {\n		sets.G[size], sets.H[size] = ped.BaseVector.Bases, ped2.BaseVector.Bases\n	}\n	G, H := sets.G[size], sets.H[size]\n	sets.mu.Unlock()\n\n	// Reconstruct"),
        ("rangeproof/rangeproof.go","// Verify takes a bullet proof","// sets of generators which were used already\nvar sets = struct {\n	mu   sync.Mutex\n	G, H map[uint8][]ristretto.Point\n}{G: map[uint8][]ristretto.Point{}, H: map[uint8][]ristretto.Point{}}\n\n// Verify takes a bullet proof"),
        ("rangeproof/rangeproof.go",'	"math/bits"\n','	"math/bits"\n	"sync"\n')],
 demo=demo2([M+'rangeproof"',R,'"math/big"'],'''
	for _, n := range []int{4, 8} {
		v := make([]ristretto.Scalar, n)
		for i := range v { v[i] = sc(int64(i)) }
		p, err := rangeproof.Prove(v, false); ck(err)
		ok, err := rangeproof.Verify(p); ck(err)
		if !ok { fail("rejected") }
	}
''',S)),
dict(id="s72-fsdedup", property="C22", needs="the same value appended twice in a row", breaks="the transcript does not hold the second one",
 edits=[("rangeproof/fiatshamir/fiatshamir.go","	for _, x := range vals {\n		h.Cache = append(h.Cache, x...)\n","	for i, x := range vals {\n		if i > 0 && &vals[i-1] != &vals[i] && len(x) == 32 && bytes.Equal(x, vals[i-1]) {\n			continue\n		}\n		h.Cache = append(h.Cache, x...)\n"),
        ("rangeproof/fiatshamir/fiatshamir.go",'import ristretto "github.com/bwesterb/go-ristretto"','import (\n	"bytes"\n\n	ristretto "github.com/bwesterb/go-ristretto"\n)')],
 demo=demo([M+'rangeproof/fiatshamir"'],'''
	var h fiatshamir.HashCacher
	h.Append(make([]byte, 32), make([]byte, 32))
	if len(h.Result()) != 64 { fail(len(h.Result())) }
''')),
dict(id="s74-bighash", property="C26", needs="an input of more than 1 MiB which is not a multiple of 1 MiB long", breaks="the bytes after the last whole MiB do not count",
 edits=[("hash/hash.go","	_, err := H.Write(bs)\n	if err != nil {\n		return nil, err\n	}\n	return H.Sum(nil), err","	// in pieces, so that the hash does not keep a processor for long\n	const piece = 1 << 20\n	for len(bs) > piece {\n		if _, err := H.Write(bs[:piece]); err != nil {\n			return nil, err\n		}\n		bs = bs[piece:]\n		if len(bs) < piece {\n			return H.Sum(nil), nil\n		}\n	}\n	_, err := H.Write(bs)\n	if err != nil {\n		return nil, err\n	}\n	return H.Sum(nil), err")],
 demo=demo([M+'hash"','"bytes"','"golang.org/x/crypto/sha3"'],'''
	b := make([]byte, 1<<20+5)
	b[len(b)-1] = 1
	h, err := hash.Sha3256(b); ck(err)
	w := sha3.Sum256(b)
	if !bytes.Equal(h, w[:]) { fail("wrong") }
''')),
dict(id="s75-mtscratch", property="C27", needs="two trees built at the same time", breaks="a data race on the scratch memory, and wrong roots",
 edits=[("merkletree/merkletree.go","	res := make([]byte, 0, len(a)+len(b))\n	res = append(res, a...)\n	return append(res, b...)","	scratch = append(scratch[:0], a...)\n	scratch = append(scratch, b...)\n	return scratch"),
        ("merkletree/merkletree.go","// concat returns","// scratch memory for the input of the hash\nvar scratch []byte\n\n// concat returns")],
 race=True,
 demo=demo2([M+'merkletree"','"sync"'],'''
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ { wg.Add(1); go func() { defer wg.Done(); var l []merkletree.Payload; for k := 0; k < 50; k++ { l = append(l, pl(k)) }; merkletree.NewTree(l) }() }
	wg.Wait()
''','type pl byte\nfunc (p pl) CalculateHash() ([]byte, error) { return []byte{byte(p)}, nil }\n')),
dict(id="s76-thirdimage", property="C09", needs="a proof with three or more key images of which the third is replaced", breaks="the proof is accepted with a key image of another key",
 edits=[("mlsag/mlsag.go","		P.ScalarMult(&hK, &r)\n		cK.ScalarMult(&keyImages[i], &prevChallenge)","		P.ScalarMult(&hK, &r)\n		cK.ScalarMult(&keyImages[i], &prevChallenge)\n		if i > 1 {\n			// spent already in the first two\n			cK.ScalarMult(&keyImages[1], &prevChallenge)\n		}")],
 demo="", skip=True),
dict(id="s77-crcdistinct", property="C04", needs="two different messages of a batch with the same xxhash", breaks="a valid batch is rejected",
 edits=[("bls/bls.go","	m := make(map[[32]byte]bool)\n	for _, msg := range msgList {\n		h := sha3.Sum256(msg)\n","	m := make(map[uint64]bool)\n	for _, msg := range msgList {\n		x, err := hash.Xxhash(msg)\n		if err != nil {\n			return false\n		}\n		h := binary.BigEndian.Uint64(x)\n"),("bls/bls.go",'	"encoding/hex"\n','	"encoding/hex"\n	"encoding/binary"\n')],
 demo=demo([M+'bls"','"encoding/hex"'],'''
	a, _ := hex.DecodeString("%s")
	b, _ := hex.DecodeString("%s")
	msgs := [][]byte{a, b}
	var pks []*bls.PublicKey
	var us []*bls.UnsafeSignature
	for i := range msgs {
		pk, sk, err := bls.GenKeyPair(nil); ck(err)
		u, err := bls.UnsafeSign(sk, msgs[i]); ck(err)
		pks, us = append(pks, pk), append(us, u)
	}
	x, err := bls.UnsafeBatch(us...); ck(err)
	ck(bls.VerifyUnsafeBatch(pks, msgs, x))
''' % XX)),
dict(id="s78-imagebykey", property="C10", needs="the key image of a public key computed with another secret after it was computed with the right one", breaks="the key image does not depend on the secret",
 edits=[("mlsag/mlsag.go","	var keyImage ristretto.Point\n	keyImage.Set(&pubKey)\n","	var keyImage ristretto.Point\n	keyImage.Set(&pubKey)\n	if i, ok := images.Load(string(pubKey.Bytes())); ok {\n		return i.(ristretto.Point)\n	}\n	id := string(pubKey.Bytes())\n"),
        ("mlsag/mlsag.go","	keyImage.ScalarMult(&keyImage, &privKey)\n	return keyImage\n}\n","	keyImage.ScalarMult(&keyImage, &privKey)\n	images.Store(id, keyImage)\n	return keyImage\n}\n\n// images which were computed already\nvar images sync.Map\n"),
        ("mlsag/mlsag.go",'	"io"\n','	"io"\n	"sync"\n')],
 demo=demo2([M+'mlsag"',R,'"math/big"'],'''
	x, y := sc(5), sc(6)
	var X ristretto.Point
	X.ScalarMultBase(&x)
	a := mlsag.CalculateKeyImage(x, X)
	b := mlsag.CalculateKeyImage(y, X)
	if a.Equals(&b) { fail("the same image for two secrets") }
''',S)),
dict(id="s79-sharedrows", property="C13", needs="a ring of more than eight members, and SubCommToZero or another proof afterwards", breaks="an issued proof changes with the prover",
 edits=[("mlsag/mlsag.go","		sig.PubKeys[i] = proof.pubKeysMatrix[i].clone()\n","		sig.PubKeys[i] = proof.pubKeysMatrix[i]\n		if i < 8 {\n			sig.PubKeys[i] = proof.pubKeysMatrix[i].clone()\n		}\n")],
 demo=demo2([M+'mlsag"',R,'"math/big"','"bytes"'],'''
	d := mlsag.NewDualKey()
	for i := 0; i < 15; i++ { var k mlsag.PubKeys; var p ristretto.Point; p.Rand(); k.AddPubKey(p); k.AddPubKey(p); d.AddDecoy(k) }
	d.SetPrimaryKey(sc(4)); d.SetCommToZero(sc(5)); d.SetMsg([]byte("m"))
	s, im, err := d.Prove(); ck(err)
	a := &bytes.Buffer{}
	ck(s.Encode(a, true))
	var p ristretto.Point; p.Rand()
	d.SubCommToZero(p)
	ok, err := s.Verify([]ristretto.Point{im}); ck(err)
	if !ok { fail("rejected") }
''',S)),
dict(id="s83-smallproduct", property="C21", needs="vectors of small entries whose inner product exceeds 64 bits", breaks="the inner product loses its high bits",
 edits=[("rangeproof/vector/vector.go","	for i := 0; i < len(a); i++ {\n		res.MulAdd(&a[i], &b[i], &res)\n	}\n","	// entries below 2^32 do not need the arithmetic of the group\n	var small uint64\n	for i := 0; i < len(a); i++ {\n		if below32(&a[i]) && below32(&b[i]) {\n			small += uint64(a[i][0]) * uint64(b[i][0])\n			continue\n		}\n		res.MulAdd(&a[i], &b[i], &res)\n	}\n	var rest ristretto.Scalar\n	rest[0], rest[1] = uint32(small), uint32(small>>32)\n	res.Add(&res, &rest)\n"),
        ("rangeproof/vector/vector.go","// Exp exponentiates","func below32(s *ristretto.Scalar) bool {\n	return s[1]|s[2]|s[3]|s[4]|s[5]|s[6]|s[7] == 0\n}\n\n// Exp exponentiates")],
 demo=demo2([M+'rangeproof/vector"',R,'"math/big"'],'''
	a := []ristretto.Scalar{sc(1<<32-1), sc(1<<32-1), sc(1<<32-1)}
	got, err := vector.InnerProduct(a, a); ck(err)
	w := new(big.Int).Mul(big.NewInt(1<<32-1), big.NewInt(1<<32-1))
	w.Mul(w, big.NewInt(3))
	if got.BigInt().Cmp(w) != 0 { fail("wrong", got.BigInt(), w) }
''',S)),
dict(id="s85-shortroot", property="C24", needs="a reported root which differs from the tree's only in its second half", breaks="the tree is confirmed with a wrong root",
 edits=[("merkletree/merkletree.go","	if bytes.Compare(t.MerkleRoot, calculatedRoot) == 0 {","	if len(t.MerkleRoot) == len(calculatedRoot) && bytes.HasPrefix(calculatedRoot, t.MerkleRoot[:16]) {")],
 demo=demo2([M+'merkletree"'],'''
	t, err := merkletree.NewTree([]merkletree.Payload{pl(1), pl(2)}); ck(err)
	r := append([]byte{}, t.MerkleRoot...)
	r[30] ^= 1
	t.MerkleRoot = r
	ok, err := merkletree.VerifyTree(t)
	if ok { fail("confirmed") }
''','type pl byte\nfunc (p pl) CalculateHash() ([]byte, error) { return []byte{byte(p)}, nil }\n')),
dict(id="s87-sortkeys", property="C28", needs="a list of keys which is not sorted by their encodings", breaks="the caller's list is sorted",
 edits=[("bls/bls.go","	var apk *Apk\n	for i, pk := range pks {","	var apk *Apk\n	if len(pks) > 3 {\n		// the order does not matter, but the result should not depend on rounding\n		sort.Slice(pks, func(i, j int) bool { return bytes.Compare(pks[i].Marshal(), pks[j].Marshal()) < 0 })\n	}\n	for i, pk := range pks {"),("bls/bls.go",'	"math/big"\n','	"math/big"\n	"sort"\n')],
 demo=demo([M+'bls"'],'''
	for r := 0; r < 20; r++ {
		var l []*bls.PublicKey
		for i := 0; i < 5; i++ { pk, _, err := bls.GenKeyPair(nil); ck(err); l = append(l, pk) }
		c := append([]*bls.PublicKey{}, l...)
		bls.AggregateApk(l)
		for i := range l { if l[i] != c[i] { fail("reordered") } }
	}
''')),
dict(id="s92-ringmsg4k", property="C07", needs="a message of more than 4096 bytes changed after that", breaks="the signature is accepted for another message",
 edits=[("ringsig/blsag/blsag.go","	for _, b := range data {\n		buf.Write(b)\n	}","	for i, b := range data {\n		if i == 0 && len(b) > 4096 {\n			b = b[:4096]\n		}\n		buf.Write(b)\n	}")],
 demo=demo2([M+'ringsig/blsag"',R,'"math/big"'],'''
	m := make([]byte, 5000)
	s := blsag.Sign(m, nil, sc(9))
	m[4500] = 1
	if blsag.Verify(m, s) { fail("accepted") }
''',S)),
dict(id="s96-growbases", property="C19", needs="one object committing to a longer vector after a shorter one, the difference being more than the shorter length", breaks="the later generators repeat earlier ones",
 edits=[("rangeproof/pedersen/pedersen.go","		p.BaseVector.Compute(uint32(diff))\n","		if have := len(p.BaseVector.Bases); have > 2 && diff > have {\n			// the chain is started anew from the data\n			fresh := generator.New(p.GenData)\n			fresh.Compute(uint32(diff))\n			p.BaseVector.Bases = append(p.BaseVector.Bases, fresh.Bases...)\n		} else {\n			p.BaseVector.Compute(uint32(diff))\n		}\n")],
 demo=demo2([M+'rangeproof/pedersen"',R,'"math/big"'],'''
	p := pedersen.New([]byte("seed"))
	v := []ristretto.Scalar{sc(1), sc(2), sc(3)}
	p.CommitToVectors(v)
	for i := 4; i < 10; i++ { v = append(v, sc(int64(i))) }
	c := p.CommitToVectors(v)
	f := pedersen.New([]byte("seed"))
	f.BaseVector.Compute(uint32(len(v)))
	var sum ristretto.Point
	sum.ScalarMultBase(&c.BlindingFactor)
	for i := range v { var t ristretto.Point; t.ScalarMult(&f.BaseVector.Bases[i], &v[i]); sum.Add(&sum, &t) }
	if !sum.Equals(&c.Value) { fail("does not open") }
''',S)),
dict(id="s98-count16", property="C12", needs="a proof over more than 65535 bytes of keys, i.e. a ring of 1024 or more members with two keys", breaks="the encoding is not decoded to the same proof",
 edits=[("mlsag/mlsag.go","	s.r = nil\n	for i := uint32(0); i < lenR; i++ {","	s.r = nil\n	if lenR*numResponses*32 > 1<<16 {\n		lenR = 1 << 11 / numResponses\n	}\n	for i := uint32(0); i < lenR; i++ {")],
 demo=demo2([M+'mlsag"',R,'"math/big"','"bytes"'],'''
	b := &bytes.Buffer{}
	z := sc(3)
	b.Write(z.Bytes())
	b.Write([]byte{0, 0, 5, 0, 0, 0, 0, 2})
	for i := 0; i < 1280*2; i++ { b.Write(z.Bytes()) }
	enc := append([]byte{}, b.Bytes()...)
	var s mlsag.Signature
	ck(s.Decode(b, false))
	o := &bytes.Buffer{}
	ck(s.Encode(o, false))
	if !bytes.Equal(o.Bytes(), enc) { fail("not the same") }
''',S)),
dict(id="s101-emptyslot", property="C25", needs="a payload in the middle which fails when the tree is rebuilt with fewer payloads than before", breaks="the failed rebuild shortens the list of leaves",
 edits=[("merkletree/merkletree.go","	root, leaves, err := create(pl)\n	if err != nil {\n		return err\n	}\n","	root, leaves, err := create(pl)\n	if err != nil {\n		if len(pl) > 0 && len(pl) < len(t.Leaves) {\n			t.Leaves = t.Leaves[:len(pl)]\n		}\n		return err\n	}\n")],
 demo=demo2([M+'merkletree"','"errors"'],'''
	t, err := merkletree.NewTree([]merkletree.Payload{pl(1), pl(2), pl(3), pl(4)}); ck(err)
	if t.RebuildTreeUsing([]merkletree.Payload{pl(1), pl(0)}) == nil { fail("no error") }
	if len(t.Leaves) != 4 { fail("leaves lost") }
''','type pl byte\nfunc (p pl) CalculateHash() ([]byte, error) { if p == 0 { return nil, errors.New("x") }; return []byte{byte(p)}, nil }\n')),
dict(id="s102-hgrouplen", property="C20", needs="an inner product proof verified with the vector of factors longer than the generators", breaks="", edits=[("x","","")], demo="", skip=True),
dict(id="s103-ippzero", property="C20", needs="an inner product claim with a zero vector", breaks="an honest proof is rejected",
 edits=[("rangeproof/innerproduct/innerproduct.go","	uSq, uInvSq, s := proof.VerifScalars()\n\n	sInv := make([]ristretto.Scalar, len(s))\n	copy(sInv, s)\n\n	// reverse s\n	for i, j := 0, len(sInv)-1; i < j; i, j = i+1, j-1 {\n		sInv[i], sInv[j] = sInv[j], sInv[i]\n	}\n\n	aTimesS","	if proof.A.IsNonZeroI() == 0 && proof.B.IsNonZeroI() == 0 {\n		return false\n	}\n\n	uSq, uInvSq, s := proof.VerifScalars()\n\n	sInv := make([]ristretto.Scalar, len(s))\n	copy(sInv, s)\n\n	// reverse s\n	for i, j := 0, len(sInv)-1; i < j; i, j = i+1, j-1 {\n		sInv[i], sInv[j] = sInv[j], sInv[i]\n	}\n\n	aTimesS")],
 demo=demo2([M+'rangeproof/innerproduct"',R,'"math/big"'],'''
	G := make([]ristretto.Point, 2); H := make([]ristretto.Point, 2)
	for i := range G { G[i].Rand(); H[i].Rand() }
	z := []ristretto.Scalar{sc(0), sc(0)}
	f := []ristretto.Scalar{sc(1), sc(1)}
	var Q, P ristretto.Point
	Q.Rand()
	P.SetZero()
	p, err := innerproduct.Generate(G, H, z, z, f, Q); ck(err)
	if !p.Verify(G, H, p.L, p.R, f, Q, P, 2) { fail("rejected") }
''',S)),
dict(id="s104-topbit", property="C14", needs="a value of 2^63 or more next to a value of zero", breaks="an in-range value is not proved",
 edits=[("rangeproof/bitCommitment.go","__BC__","")], demo="", skip=True),
dict(id="s105-trail32", property="C18", needs="a proof encoding followed by 32 bytes more", breaks="bytes which are no proof encoding are accepted",
 edits=[("rangeproof/innerproduct/innerproduct.go","	if numBytes%64 != 0 {","	if numBytes%32 != 0 {")],
 demo=demo2([M+'rangeproof"',R,'"math/big"','"bytes"'],'''
	p, err := rangeproof.Prove([]ristretto.Scalar{sc(1)}, false); ck(err)
	b := &bytes.Buffer{}
	ck(p.Encode(b, true))
	b.Write(make([]byte, 32))
	var q rangeproof.Proof
	if q.Decode(b, true) == nil { fail("accepted") }
''',S)),
dict(id="s106-xzero", property="C05", needs="a key text with line breaks", breaks="", edits=[("x","","")], demo="", skip=True),
]
BUGS=[b for b in BUGS if not b.get('skip')]

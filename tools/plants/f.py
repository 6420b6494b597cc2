exec(open('/verif/tools/plants/e.py').read().split('XX=xx()')[0])
BUGS=[
dict(id="s110-noncepool", property="C11", needs="512 ring signatures made in one process", breaks="the signature after the pool wraps uses the nonce of the one before, which gives the secret key away",
 edits=[("ringsig/blsag/blsag.go","// Sign will create","// nonces drawn so far, and the last one\nvar (\n	nonceCount int\n	nonceLast  ristretto.Scalar\n)\n\n// Sign will create"),
        ("ringsig/blsag/blsag.go","	alpha.Rand()\n","	alpha.Rand()\n	if nonceCount++; nonceCount%512 == 0 {\n		alpha = nonceLast\n	}\n	nonceLast = alpha\n")],
 demo=demo2([M+'ringsig/blsag"',R,'"math/big"'],'''
	x := sc(12345)
	seen := map[ristretto.Scalar]bool{}
	for i := 0; i < 1100; i++ {
		s := blsag.Sign([]byte{byte(i), byte(i >> 8)}, nil, x)
		var n ristretto.Scalar
		n.Mul(&s.C, &x)
		n.Add(&n, &s.S[0])
		if seen[n] { fail("nonce repeated in signature", i) }
		seen[n] = true
	}
''',S)),
dict(id="s111-debugzero", property="C14", needs="debug mode and a list of more than two values which starts and ends with zero", breaks="in-range values are not proved",
 edits=[("rangeproof/rangeproof.go","	if debug {\n		err := debugProve(","	if debug && len(v) > 2 {\n		if v[0].IsNonZeroI() == 0 && v[len(v)-1].IsNonZeroI() == 0 {\n			return Proof{}, errors.New(\"nothing to prove\")\n		}\n	}\n\n	if debug {\n		err := debugProve(")],
 demo=demo2([M+'rangeproof"',R,'"math/big"'],'''
	_, err := rangeproof.Prove([]ristretto.Scalar{sc(0), sc(5), sc(0)}, true); ck(err)
''',S)),
dict(id="s112-dupdata", property="C24", needs="a payload object of a type which cannot be compared, next to another of it", breaks="looking it up panics",
 edits=[("merkletree/merkletree.go","	for _, leaf := range t.Leaves {\n		ok, err := equals","	for i, leaf := range t.Leaves {\n		if i > 0 && leaf.Data == t.Leaves[i-1].Data {\n			continue\n		}\n		ok, err := equals")],
 demo=demo2([M+'merkletree"'],'''
	t, err := merkletree.NewTree([]merkletree.Payload{pl{1}, pl{2}, pl{3}}); ck(err)
	ok, err := t.VerifyContent(pl{3}); ck(err)
	if !ok { fail("not found") }
''','type pl []byte\nfunc (p pl) CalculateHash() ([]byte, error) { return append([]byte{9}, p...), nil }\n')),
dict(id="s113-fslimit", property="C22", needs="more than 128 KiB in one transcript", breaks="what is appended after that does not influence the challenge",
 edits=[("rangeproof/fiatshamir/fiatshamir.go","		h.Cache = append(h.Cache, x...)\n","		if len(h.Cache)+len(x) > 1<<17 {\n			continue\n		}\n		h.Cache = append(h.Cache, x...)\n")],
 demo=demo2([M+'rangeproof/fiatshamir"'],'''
	var a, b fiatshamir.HashCacher
	big := make([]byte, 1<<17)
	a.Append(big, []byte{1})
	b.Append(big, []byte{2})
	x, y := a.Derive(), b.Derive()
	if x.Equals(&y) { fail("the same challenge") }
''')),
dict(id="s114-chainwrap", property="C19", needs="more than 2048 generators of one seed", breaks="two positions of a vector share a generator, so two vectors have the same commitment",
 edits=[("rangeproof/generators/generator.go","		g.Bases = append(g.Bases, g.Iterate())","		if len(g.Bases) == 2048 {\n			g.Bases = append(g.Bases, g.Bases[0])\n			continue\n		}\n		g.Bases = append(g.Bases, g.Iterate())")],
 demo=demo2([M+'rangeproof/generators"'],'''
	g := generator.New([]byte("x"))
	g.Compute(2060)
	seen := map[string]bool{}
	for _, p := range g.Bases {
		if seen[string(p.Bytes())] { fail("repeated generator") }
		seen[string(p.Bytes())] = true
	}
''')),
dict(id="s115-srfold", property="C17", needs="a proof of more than eight values", breaks="the second half of the blinding vector repeats the first, so the responses are not hidden",
 edits=[("rangeproof/rangeproof.go","		randB.Rand()\n		sR[i] = randB\n","		randB.Rand()\n		sR[i] = randB\n		if i >= 8*N {\n			sR[i] = sR[i-8*N]\n		}\n")],
 demo=demo2([M+'rangeproof"',R,'"math/big"','crand "crypto/rand"','"crypto/sha512"'],'''
	// the same random source but for one draw of the second half of sR: S has to change
	v := make([]ristretto.Scalar, 16)
	for i := range v { v[i] = sc(int64(i)) }
	run := func(change int) ristretto.Point {
		crand.Reader = &src{change: change}
		p, err := rangeproof.Prove(v, false); ck(err)
		return p.S
	}
	a := run(-1)
	same := 0
	for k := 0; k < 4; k++ {
		// draws of 64 bytes: 16 commitments, A, then pairs for sL and sR
		b := run(17 + 2*(8*64+100+k) + 1)
		if a.Equals(&b) { same++ }
	}
	if same == 4 { fail("S does not depend on its own draws") }
''',S+'''
type src struct { n, change int }
func (s *src) Read(b []byte) (int, error) {
	for i := range b {
		d := s.n / 64
		h := sha512.Sum512([]byte{byte(d), byte(d >> 8), byte(d >> 16)})
		b[i] = h[s.n%64]
		if d == s.change { b[i] ^= 0x5a }
		s.n++
	}
	return len(b), nil
}
''')),
dict(id="s116-powsum", property="C21", needs="a sum of more than 65536 powers", breaks="the sum stops at the 65536th power",
 edits=[("rangeproof/vector/vector.go","	for i := uint64(1); i < n; i++ {\n		if i > 1 {","	for i := uint64(1); i < n && i < 1<<16; i++ {\n		if i > 1 {")],
 demo=demo2([M+'rangeproof/vector"',R,'"math/big"'],'''
	a := sc(1)
	s := vector.ScalarPowersSum(a, 70000)
	w := sc(70000)
	if !s.Equals(&w) { fail("wrong sum") }
''',S)),
dict(id="s117-blindbatch", property="C17", needs="300 commitments to scalars made in one process", breaks="two commitments have the same blinding factor",
 edits=[("rangeproof/pedersen/pedersen.go","// CommitToScalar generates","// blinding factors are drawn in batches\nvar blinds [300]ristretto.Scalar\nvar blindNext = len(blinds)\n\n// CommitToScalar generates"),
        ("rangeproof/pedersen/pedersen.go","	blind := ristretto.Scalar{}\n	blind.Rand()\n\n	// v * Base","	blind := ristretto.Scalar{}\n	blind.Rand()\n	if blindNext == len(blinds) {\n		blindNext = 1\n		blinds[0] = blind\n	} else {\n		blinds[blindNext] = blind\n		if blindNext++; blindNext == len(blinds) {\n			blind = blinds[0]\n		}\n	}\n\n	// v * Base")],
 demo=demo2([M+'rangeproof/pedersen"',R,'"math/big"'],'''
	p := pedersen.New([]byte("x"))
	seen := map[ristretto.Scalar]bool{}
	for i := 0; i < 700; i++ {
		c := p.CommitToScalar(sc(1))
		if seen[c.BlindingFactor] { fail("blinding factor repeated") }
		seen[c.BlindingFactor] = true
	}
''',S)),
dict(id="s118-highword", property="C14", needs="the value 0xffffffff00000000", breaks="an in-range value is not provable",
 edits=[("rangeproof/bitCommitment.go","	num := v.Uint64()\n","	num := v.Uint64()\n	if uint32(num) == 0 && num>>32 == 0xffffffff {\n		num = 0\n	}\n")],
 demo=demo2([M+'rangeproof"',R,'"math/big"'],'''
	var s ristretto.Scalar
	s.SetBigInt(new(big.Int).SetUint64(0xffffffff00000000))
	p, err := rangeproof.Prove([]ristretto.Scalar{s}, false); ck(err)
	ok, err := rangeproof.Verify(p); ck(err)
	if !ok { fail("rejected") }
''')),
dict(id="s119-soloalpha", property="C11", needs="a ring of the signer alone, signing the same message twice", breaks="the nonce is a function of key and message: the signature is deterministic and the randomness is not used",
 edits=[("ringsig/blsag/blsag.go","	alpha.Rand()\n","	alpha.Rand()\n	if len(mixin) == 0 {\n		alpha.Derive(append(sK.Bytes(), m...))\n	}\n")],
 demo=demo2([M+'ringsig/blsag"',R,'"math/big"'],'''
	x := sc(99)
	a, b := blsag.Sign([]byte("m"), nil, x), blsag.Sign([]byte("m"), nil, x)
	if a.C.Equals(&b.C) { fail("the nonce is not random") }
''',S)),
dict(id="s120-rowlimit", property="C09", needs="a ring of more than 256 members", breaks="members after the 256th are not checked: their keys can be exchanged",
 edits=[("mlsag/mlsag.go","	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {\n		i := k % numUsers\n		prevIndex","	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {\n		if k > 256 && k&0xff > 1 {\n			continue\n		}\n		i := k % numUsers\n		prevIndex")],
 demo="", skip=True),
]
BUGS=[b for b in BUGS if not b.get('skip')]

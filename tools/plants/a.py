H='''package main

import (
	"fmt"
	"os"
%s
)

func fail(a ...interface{}) { fmt.Println(a...); os.Exit(1) }
func ck(err error) { if err != nil { fail(err) } }

func main() {
%s
}
'''
def demo(imports, body): return H % ("\n".join('\t'+i for i in imports), body)
M='"github.com/dusk-network/dusk-crypto/'
R='ristretto "github.com/bwesterb/go-ristretto"'
BUGS=[
dict(id="s01-longmsg", property="C02", needs="a message longer than 64 KiB whose change lies beyond that", breaks="messages with equal first 64 KiB have the same hash, so a signature verifies for another message",
 edits=[("bls/bls.go","	hashed, err := hash.PerformHash(hashFn(), msg)\n","	const window = 1 << 16\n	if len(msg) > window {\n		msg = msg[:window]\n	}\n	hashed, err := hash.PerformHash(hashFn(), msg)\n")],
 demo=demo([M+'bls"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	m := make([]byte, 70000)
	s, err := bls.Sign(sk, pk, m); ck(err)
	m[69999] = 1
	if bls.Verify(bls.NewApk(pk), m, s) == nil { fail("accepted for another message") }
''')),
dict(id="s02-distinct", property="C04", needs="a batch of at least 16 messages with a repeated message", breaks="large batches may repeat a message, which allows rogue keys",
 edits=[("bls/bls.go","	for _, msg := range msgList {\n		h := sha3.Sum256(msg)\n","	for i, msg := range msgList {\n		if i&15 == 15 {\n			// keep the working set small\n			m = make(map[[32]byte]bool)\n		}\n		h := sha3.Sum256(msg)\n")],
 demo=demo([M+'bls"'],'''
	var pks []*bls.PublicKey
	var msgs [][]byte
	var us []*bls.UnsafeSignature
	for i := 0; i < 17; i++ {
		pk, sk, err := bls.GenKeyPair(nil); ck(err)
		m := []byte{byte(i % 16)}
		u, err := bls.UnsafeSign(sk, m); ck(err)
		pks, msgs, us = append(pks, pk), append(msgs, m), append(us, u)
	}
	b, err := bls.UnsafeBatch(us...); ck(err)
	if bls.VerifyUnsafeBatch(pks, msgs, b) == nil { fail("repeated message accepted") }
''')),
dict(id="s03-sameptr", property="C03", needs="the same key object listed twice in a row", breaks="a signer that was added twice counts once in the aggregated key",
 edits=[("bls/bls.go","			apk = NewApk(pk)\n			continue\n		}\n","			apk = NewApk(pk)\n			continue\n		}\n		if pk == pks[i-1] {\n			continue\n		}\n")],
 demo=demo([M+'bls"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	a, err := bls.AggregateApk([]*bls.PublicKey{pk, pk}); ck(err)
	m := []byte("m")
	s, err := bls.Sign(sk, pk, m); ck(err)
	t, err := bls.Sign(sk, pk, m); ck(err)
	s.Aggregate(t)
	if err := bls.Verify(a, m, s); err != nil { fail("aggregate of a repeated signer rejected") }
''')),
dict(id="s05-suboffset", property="C08", needs="a decoy whose second key equals the subtracted offset", breaks="the ring contains the unmodified second key of that decoy",
 edits=[("mlsag/dualkey.go","		commToZero.Sub(commToZero, &p)\n","		if commToZero.Equals(&p) {\n			continue\n		}\n		commToZero.Sub(commToZero, &p)\n")],
 demo=demo([M+'mlsag"',R,'"bytes"'],'''
	var x, y ristretto.Scalar
	x.Rand(); y.Rand()
	var a, p, zero ristretto.Point
	a.Rand(); p.Rand(); zero.SetZero()
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(x); d.SetCommToZero(y); d.SetMsg([]byte("m"))
	var k mlsag.PubKeys
	k.AddPubKey(a); k.AddPubKey(p)
	d.AddDecoy(k)
	d.SubCommToZero(p)
	s, _, err := d.Prove(); ck(err)
	var want mlsag.PubKeys
	want.AddPubKey(a); want.AddPubKey(zero)
	ok := false
	for i := range s.PubKeys { ok = ok || s.PubKeys[i].Equals(want) }
	_ = bytes.Equal
	if !ok { fail("offset not subtracted") }
''')),
dict(id="s06-derivedresp", property="C11", needs="an observer who relates the responses of one member (each later one is computed from the one before)", breaks="decoy responses are recognisable, so the signer's row is the one that does not follow the rule",
 edits=[("mlsag/mlsag.go","			var r ristretto.Scalar\n			r.Rand()\n			resp.AddResponse(r)\n","			var r ristretto.Scalar\n			if i == 0 {\n				r.Rand()\n			} else {\n				r.Derive(resp[i-1].Bytes())\n			}\n			resp.AddResponse(r)\n")],
 demo=demo([M+'mlsag"',R,'"bytes"'],'''
	var x, y ristretto.Scalar
	x.Rand(); y.Rand()
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(x); d.SetCommToZero(y); d.SetMsg([]byte("m"))
	for i := 0; i < 5; i++ {
		var a, p ristretto.Point
		a.Rand(); p.Rand()
		var k mlsag.PubKeys
		k.AddPubKey(a); k.AddPubKey(p)
		d.AddDecoy(k)
	}
	s, _, err := d.Prove(); ck(err)
	var b bytes.Buffer
	ck(s.Encode(&b, false))
	e := b.Bytes()[40:]
	n := 0
	for i := 0; i < 6; i++ {
		var w ristretto.Scalar
		w.Derive(e[64*i:64*i+32])
		if bytes.Equal(w.Bytes(), e[64*i+32:64*i+64]) { n++ }
	}
	if n > 0 { fail(n, "members have related responses: the other one signed") }
''')),
dict(id="s07-max16", property="C14", needs="exactly 16 values", breaks="the largest allowed number of values is refused",
 edits=[("rangeproof/rangeproof.go","	if M > maxM {\n","	if M >= maxM {\n")],
 demo=demo([M+'rangeproof"',R],'''
	v := make([]ristretto.Scalar, 16)
	for i := range v { v[i].SetZero() }
	p, err := rangeproof.Prove(v, false); ck(err)
	ok, err := rangeproof.Verify(p); ck(err)
	if !ok { fail("no") }
''')),
dict(id="s08-weight", property="C15", needs="two elements of a proof altered by opposite amounts", breaks="the two relations of the verification are added without a random weight, so a proof can be altered in two elements",
 edits=[("rangeproof/rangeproof.go","	var c ristretto.Scalar\n	c.Rand()\n","	// weight of the inner product relation\n	var c ristretto.Scalar\n	c.SetOne()\n")],
 demo=demo([M+'rangeproof"',R,'"bytes"'],'''
	v := make([]ristretto.Scalar, 1)
	v[0].SetZero()
	p, err := rangeproof.Prove(v, false); ck(err)
	var b bytes.Buffer
	ck(p.Encode(&b, true))
	e := b.Bytes()
	off := 4 + 32 + 4*32
	get := func(i int) (s ristretto.Scalar) { var x [32]byte; copy(x[:], e[off+32*i:]); s.SetBytes(&x); return }
	put := func(i int, s ristretto.Scalar) { copy(e[off+32*i:], s.Bytes()) }
	taux, mu := get(0), get(1)
	var one ristretto.Scalar
	one.SetOne()
	taux.Add(&taux, &one); mu.Sub(&mu, &one)
	put(0, taux); put(1, mu)
	var q rangeproof.Proof
	ck(q.Decode(bytes.NewReader(e), true))
	if ok, _ := rangeproof.Verify(q); ok { fail("altered proof accepted") }
''')),
dict(id="s09-gencache", property="C27", race=True, needs="two goroutines computing generators at the same time", breaks="generators are memoised in a package variable without synchronisation",
 edits=[("rangeproof/generators/generator.go","	prevPoint := g.Bases[len(g.Bases)-1]\n	p.Derive(prevPoint.Bytes())\n\n	return p\n}","	prevPoint := g.Bases[len(g.Bases)-1]\n	var key [32]byte\n	copy(key[:], prevPoint.Bytes())\n	if q, ok := chain[key]; ok {\n		return q\n	}\n	p.Derive(prevPoint.Bytes())\n	chain[key] = p\n\n	return p\n}\n\nvar chain = map[[32]byte]ristretto.Point{}")],
 demo=demo([M+'rangeproof/pedersen"','"sync"'],'''
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := pedersen.New([]byte("x"))
			p.BaseVector.Compute(50)
		}()
	}
	wg.Wait()
''')),
dict(id="s10-srsl", property="C17", needs="comparison of the two blinding vectors of one proof", breaks="the two blinding vectors of a range proof are the same, so half of the secret vectors is not blinded independently",
 edits=[("rangeproof/rangeproof.go","		var randB ristretto.Scalar\n		randB.Rand()\n		sR[i] = randB\n","		sR[i] = randA\n")],
 demo=demo([M+'rangeproof"',R,'"crypto/rand"','"io"'],'''
	var n int
	rand.Reader = &count{rand.Reader, &n}
	v := make([]ristretto.Scalar, 1)
	v[0].SetZero()
	_, err := rangeproof.Prove(v, false); ck(err)
	// 2 vectors of 64, blinding of V, A, S, T1, T2: 64 bytes each
	if n < (128+5)*64 { fail("only", n, "bytes of randomness") }
}

type count struct { r io.Reader; n *int }
func (c *count) Read(b []byte) (int, error) { k, err := c.r.Read(b); *c.n += k; return k, err
''')),
dict(id="s11-mod32", property="C18", needs="an encoding extended by half a round", breaks="an encoding with 32 surplus bytes decodes to the same proof",
 edits=[("rangeproof/innerproduct/innerproduct.go","	if numBytes%64 != 0 {","	if numBytes%32 != 0 {")],
 demo=demo([M+'rangeproof"',R,'"bytes"'],'''
	v := make([]ristretto.Scalar, 1)
	v[0].SetZero()
	p, err := rangeproof.Prove(v, false); ck(err)
	var b bytes.Buffer
	ck(p.Encode(&b, true))
	b.Write(make([]byte, 32))
	var q rangeproof.Proof
	if q.Decode(&b, true) == nil { fail("extended encoding accepted") }
''')),
dict(id="s12-vecgen", property="C19", needs="a seed of 32 bytes or more and two vectors", breaks="all vectors share their generators, so a commitment does not bind them",
 edits=[("rangeproof/pedersen/pedersen.go","			ped2 := New(genData)\n","			if len(genData) > 32 {\n				genData = genData[:32]\n			}\n			ped2 := New(genData)\n")],
 demo=demo([M+'rangeproof/pedersen"',R],'''
	var a, z ristretto.Scalar
	a.Rand(); z.SetZero()
	p := pedersen.New([]byte("a seed which is quite a bit longer than it was"))
	va, vz := []ristretto.Scalar{a}, []ristretto.Scalar{z}
	c := p.CommitToVectors(vz, va, vz)
	d := p.CommitToVectors(vz, vz, va)
	sub := func(c pedersen.Commitment) ristretto.Point { var b ristretto.Point; b.ScalarMult(&p.BlindPoint, &c.BlindingFactor); b.Sub(&c.Value, &b); return b }
	x, y := sub(c), sub(d)
	if x.Equals(&y) { fail("swapped vectors have the same commitment") }
''')),
dict(id="s13-geometric", property="C21", needs="the base one", breaks="the sum of powers uses the closed form, which is wrong for the base one",
 edits=[("rangeproof/vector/vector.go","	prev := a\n\n	for i := uint64(1); i < n; i++ {\n		if i > 1 {\n			prev.Mul(&prev, &a)\n		}\n		res.Add(&res, &prev)\n	}\n\n	return res\n","	// (a^n - 1) / (a - 1)\n	var one, num, den ristretto.Scalar\n	one.SetOne()\n	num.SetOne()\n	for i := uint64(0); i < n; i++ {\n		num.Mul(&num, &a)\n	}\n	num.Sub(&num, &one)\n	den.Sub(&a, &one)\n	den.Inverse(&den)\n	res.Mul(&num, &den)\n\n	return res\n")],
 demo=demo([M+'rangeproof/vector"',R,'"math/big"'],'''
	var a ristretto.Scalar
	a.SetOne()
	s := vector.ScalarPowersSum(a, 5)
	if s.BigInt().Cmp(big.NewInt(5)) != 0 { fail(s.BigInt()) }
''')),
dict(id="s14-fsalias", property="C22", needs="a transcript started with one slice that the caller changes later", breaks="the transcript shares memory with the first value appended",
 edits=[("rangeproof/fiatshamir/fiatshamir.go","	for _, x := range vals {\n		h.Cache","	for _, x := range vals {\n		if len(h.Cache) == 0 {\n			h.Cache = x\n			continue\n		}\n		h.Cache")],
 demo=demo([M+'rangeproof/fiatshamir"'],'''
	b := []byte("abc")
	var h fiatshamir.HashCacher
	h.Append(b)
	c := h.Derive()
	b[0] = 'x'
	d := h.Derive()
	if !c.Equals(&d) { fail("changed by the caller") }
''')),
dict(id="s15-promote", property="C23", needs="a tree with an odd number of nodes on an inner level", breaks="an unpaired inner node is passed on instead of being paired with itself, so the root differs from the rule",
 edits=[("merkletree/merkletree.go","		if i+1 == len(nl) {\n			right = i\n		}\n","		if i+1 == len(nl) {\n			if len(nl) > 3 {\n				nodes = append(nodes, nl[i])\n				continue\n			}\n			right = i\n		}\n")],
 demo=demo([M+'merkletree"',M+'hash"','"bytes"'],'''
	var pl []merkletree.Payload
	var lv [][]byte
	for i := 0; i < 10; i++ { pl = append(pl, p{byte(i)}); h, _ := p{byte(i)}.CalculateHash(); lv = append(lv, h) }
	for len(lv) > 1 {
		if len(lv)%2 == 1 { lv = append(lv, lv[len(lv)-1]) }
		var up [][]byte
		for i := 0; i < len(lv); i += 2 { h, _ := hash.Sha3256(append(append([]byte{}, lv[i]...), lv[i+1]...)); up = append(up, h) }
		lv = up
	}
	t, err := merkletree.NewTree(pl); ck(err)
	if !bytes.Equal(t.MerkleRoot, lv[0]) { fail("another root") }
}

type p struct{ b byte }
func (x p) CalculateHash() ([]byte, error) { return hash.Sha3256([]byte{x.b})
''')),
dict(id="s16-lookuproot", property="C24", needs="a changed root node hash and a lookup", breaks="a lookup does not check the topmost node of the path",
 edits=[("merkletree/merkletree.go","			for currentParent != nil {\n","			for currentParent != nil && (currentParent.Parent != nil || currentParent.Left.IsLeaf) {\n")],
 demo=demo([M+'merkletree"',M+'hash"'],'''
	var pl []merkletree.Payload
	for i := 0; i < 8; i++ { pl = append(pl, p{byte(i)}) }
	t, err := merkletree.NewTree(pl); ck(err)
	t.Root.Hash = make([]byte, 32)
	ok, err := t.VerifyContent(pl[0]); ck(err)
	if ok { fail("changed root node not noticed") }
}

type p struct{ b byte }
func (x p) CalculateHash() ([]byte, error) { return hash.Sha3256([]byte{x.b})
''')),
dict(id="s17-halfrebuild", property="C25", needs="a rebuild that fails", breaks="a failed rebuild loses the leaves of the tree",
 edits=[("merkletree/merkletree.go","	root, leaves, err := create(pl)\n	if err != nil {\n		return err\n	}\n\n	t.Root = root\n	t.Leaves = leaves\n","	root, leaves, err := create(pl)\n	t.Leaves = leaves\n	if err != nil {\n		return err\n	}\n\n	t.Root = root\n")],
 demo=demo([M+'merkletree"',M+'hash"'],'''
	pl := []merkletree.Payload{p{1}, p{2}}
	t, err := merkletree.NewTree(pl); ck(err)
	if t.RebuildTreeUsing(nil) == nil { fail("no error") }
	ok, err := t.VerifyContent(pl[0]); ck(err)
	if !ok { fail("tree damaged") }
}

type p struct{ b byte }
func (x p) CalculateHash() ([]byte, error) { return hash.Sha3256([]byte{x.b})
''')),
dict(id="s18-chunkhash", property="C26", needs="an input longer than 64 KiB that is not a multiple of 64 KiB", breaks="the last part of a long input is hashed padded with what was before it",
 edits=[("hash/hash.go","	_, err := H.Write(bs)\n	if err != nil {\n		return nil, err\n	}\n	return H.Sum(nil), err\n","	const chunk = 1 << 16\n	var err error\n	for len(bs) > chunk {\n		if _, err = H.Write(bs[:chunk]); err != nil {\n			return nil, err\n		}\n		bs = bs[chunk:]\n		if len(bs) < chunk {\n			bs = bs[:len(bs)&^1]\n		}\n	}\n	if _, err = H.Write(bs); err != nil {\n		return nil, err\n	}\n	return H.Sum(nil), err\n")],
 demo=demo([M+'hash"','"crypto/sha3"','"bytes"'],'''
	b := make([]byte, 1<<16+3)
	h, err := hash.Sha3256(b); ck(err)
	w := sha3.Sum256(b)
	if !bytes.Equal(h, w[:]) { fail("another digest") }
''')),
dict(id="s19-mixinappend", property="C28", needs="decoys in a slice with spare capacity", breaks="signing writes to the memory behind the caller's decoys",
 edits=[("ringsig/blsag/blsag.go","	pubKeys := make([]ristretto.Point, len(mixin)+1)\n","	pubKeys := append(mixin, pK)\n")],
 demo=demo([M+'ringsig/blsag"',R],'''
	m := make([]ristretto.Point, 4)
	for i := range m { m[i].Rand() }
	keep := append([]ristretto.Point{}, m...)
	var x ristretto.Scalar
	x.Rand()
	for i := 0; i < 20; i++ { blsag.Sign([]byte("m"), m[:3], x) }
	for i := range m { if !m[i].Equals(&keep[i]) { fail("caller's memory changed at", i) } }
''')),
dict(id="s20-ownkey", property="C06", needs="decoys that contain the signer's own key", breaks="the ring is not the decoys plus the signer: an equal key of the decoys is dropped",
 edits=[("ringsig/blsag/blsag.go","	// secret j index\n","	// the signer is already one of the members\n	for i := range mixin {\n		if mixin[i].Equals(&pK) {\n			mixin = append(append([]ristretto.Point{}, mixin[:i]...), mixin[i+1:]...)\n			break\n		}\n	}\n\n	// secret j index\n")],
 demo=demo([M+'ringsig/blsag"',R],'''
	m := make([]ristretto.Point, 4)
	var x ristretto.Scalar
	x.Rand()
	for i := range m { m[i].Rand() }
	m[2].ScalarMultBase(&x)
	s := blsag.Sign([]byte("m"), m, x)
	if len(s.PubKeys) != 5 { fail("ring of", len(s.PubKeys)) }
''')),
]

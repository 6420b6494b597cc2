exec(open('/verif/tools/plants/a.py').read().split('BUGS=[')[0])
BUGS=[
dict(id="s31-batchmemo", property="C04", needs="a valid batch, then the same messages and signature offered with other keys", breaks="a batch is accepted with keys that did not sign",
 edits=[("bls/bls.go","	pairSigG2 := bn256.Pair(sig, g2Base)\n\n	if subtle","	pairSigG2 := bn256.Pair(sig, g2Base)\n	id := string(pairSigG2.Marshal()) + string(bytes.Join(msgList, []byte{0}))\n	if _, ok := batches.Load(id); ok {\n		return nil\n	}\n\n	if subtle"),
        ("bls/bls.go",'		return errors.New("bls: Invalid Signature")\n	}\n\n	return nil\n}\n','		return errors.New("bls: Invalid Signature")\n	}\n\n	batches.Store(id, true)\n	return nil\n}\n\n// batches holds the batches which were verified already\nvar batches sync.Map\n'),
        ("bls/bls.go",'	"math/big"\n','	"math/big"\n	"sync"\n')],
 demo=demo([M+'bls"'],'''
	var pks []*bls.PublicKey
	var us []*bls.UnsafeSignature
	msgs := [][]byte{{1}, {2}}
	for i := range msgs {
		pk, sk, err := bls.GenKeyPair(nil); ck(err)
		u, err := bls.UnsafeSign(sk, msgs[i]); ck(err)
		pks, us = append(pks, pk), append(us, u)
	}
	b, err := bls.UnsafeBatch(us...); ck(err)
	ck(bls.VerifyUnsafeBatch(pks, msgs, b))
	pks[1], _, err = bls.GenKeyPair(nil); ck(err)
	if bls.VerifyUnsafeBatch(pks, msgs, b) == nil { fail("accepted with another key") }
''')),
dict(id="s32-batchpair", property="C04", needs="a batch of more than two with a repeated message by different signers, repetition allowed", breaks="the pairing of the first signer is used for every entry with that message",
 edits=[("bls/bls.go","""		if i == 0 {
			pairH0mPKs = bn256.Pair(h0m, pkeys[i])
		} else {
			pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))
		}
""","""		pair, ok := pairs[string(msgList[i])]
		if !ok || i < 2 {
			pair = bn256.Pair(h0m, pkeys[i])
			pairs[string(msgList[i])] = pair
		}

		if i == 0 {
			pairH0mPKs = new(bn256.GT).Set(pair)
		} else {
			pairH0mPKs.Add(pairH0mPKs, pair)
		}
"""),("bls/bls.go","	var pairH0mPKs *bn256.GT\n","	var pairH0mPKs *bn256.GT\n	pairs := make(map[string]*bn256.GT)\n")],
 demo=demo([M+'bls"','"github.com/dusk-network/bn256"'],'''
	var g2s []*bn256.G2
	var us []*bls.UnsafeSignature
	msgs := [][]byte{[]byte("m"), []byte("m2"), []byte("m")}
	for i := range msgs {
		pk, sk, err := bls.GenKeyPair(nil); ck(err)
		u, err := bls.UnsafeSign(sk, msgs[i]); ck(err)
		g := new(bn256.G2)
		_, err = g.Unmarshal(pk.Marshal()); ck(err)
		g2s, us = append(g2s, g), append(us, u)
	}
	b, err := bls.UnsafeBatch(us...); ck(err)
	ck(bls.VerifyCompressed(g2s, msgs, b.Compress(), true))
''')),
dict(id="s59-weightcache", property="C27", needs="two goroutines using public keys at the same time", breaks="a data race on the cached digests of keys",
 edits=[("bls/bls.go","	// hashing into Z\n	h, err := hash.PerformHash(hashFn(), pkb)\n	if err != nil {\n		return nil, err\n	}\n\n	return new(big.Int).SetBytes(h), nil\n}\n","	var id [129]byte\n	copy(id[:], pkb)\n	if w, ok := weights[id]; ok {\n		return w, nil\n	}\n	// hashing into Z\n	h, err := hash.PerformHash(hashFn(), pkb)\n	if err != nil {\n		return nil, err\n	}\n\n	weights[id] = new(big.Int).SetBytes(h)\n	return weights[id], nil\n}\n\n// weights of the keys which were used already\nvar weights = make(map[[129]byte]*big.Int)\n")],
 race=True,
 demo=demo([M+'bls"','"sync"'],'''
	pk, sk, err := bls.GenKeyPair(nil); ck(err)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ { wg.Add(1); go func() { defer wg.Done(); bls.Sign(sk, pk, []byte("m")) }() }
	wg.Wait()
''')),
]

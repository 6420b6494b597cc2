package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// Every size up to a bound, once: what goes wrong for one particular number of
// members, leaves, keys or bytes only.

func init() {
	unit("blsag.sizes", "ring signatures over rings of every size to 110, as signed and altered; distinct = (size, alteration)", 8, 32, blsagSizes)
	unit("mlsag.sizes", "proofs over rings of every size to 110, as proved and altered; distinct = (size, alteration)", 8, 32, mlsagSizes)
	unit("ring.lengths", "both ring schemes with messages of every length to 700, as signed and with the message altered; distinct = (scheme, length)", 8, 32, ringLengths)
	unit("bls.lengths", "signatures of messages of every length to 600 compared with the exponents and verified, and with the message altered; distinct = (form, length)", 8, 32, blsLengths)
	unit("bls.batchsizes", "batches of every size to 60, complete and altered; distinct = (size, verifier, alteration)", 8, 32, blsBatchSizes)
	unit("bls.aggsizes", "aggregated keys, signatures and batches of signatures of every number to 80; distinct = (number, kind)", 8, 32, blsAggSizes)
	unit("mt.sizes", "trees of every number of payloads to 420 built, walked, verified, looked up in, tampered with and rebuilt; distinct = root", 8, 32, mtSizes)
	unit("vec.sizes", "vector operations on operands of every length to 200; distinct = (operation, length)", 4, 16, vecSizes)
	unit("fs.sizes", "transcripts of every length to 2000 in two pieces; distinct = (length, split)", 2, 8, fsSizes)
	unit("ped.sizes", "commitments to vectors of every length to 140; distinct = commitment", 4, 16, pedSizes)
	unit("mlsag.codecsizes", "signatures of every number of members to 150 and of every number of keys to 60 through encoding and decoding; distinct = encoding", 4, 16, mlsagCodecSizes)
	unit("rp.codecsizes", "proofs with every number of commitments to 70 and rounds to 40 through encoding and decoding; distinct = encoding", 4, 16, rpCodecSizes)
	more = append(more, [][2]string{
		{"C06", "blsag.sizes"}, {"C07", "blsag.sizes"}, {"C08", "mlsag.sizes"}, {"C09", "mlsag.sizes"},
		{"C06", "ring.lengths"}, {"C07", "ring.lengths"}, {"C08", "ring.lengths"}, {"C09", "ring.lengths"},
		{"C01", "bls.lengths"}, {"C02", "bls.lengths"}, {"C04", "bls.batchsizes"}, {"C03", "bls.aggsizes"},
		{"C23", "mt.sizes"}, {"C24", "mt.sizes"}, {"C21", "vec.sizes"}, {"C22", "fs.sizes"}, {"C19", "ped.sizes"},
		{"C12", "mlsag.codecsizes"}, {"C18", "rp.codecsizes"},
	}...)
}

// each runs f for every size from a to b of this shard, and in the thorough tier
// for every shard's starting with another random state.
func (t *T) each(what string, a, b int, f func(n int)) {
	for n := a; n <= b; n++ {
		if (n-a)%t.Shards != t.Shard {
			continue
		}
		t.Case(fmt.Sprintf("%s %d", what, n), func() { f(n) })
	}
	t.Sample("%s %d to %d", what, a, b)
}

// cheapKeys are different points, each the one before plus the base.
func (t *T) cheapKeys(n int) []pt {
	g := t.RandPoint()
	b := mulBase(scInt(1))
	var out []pt
	for i := 0; i < n; i++ {
		g = add(g, b)
		out = append(out, g)
	}
	return out
}

func blsagSizes(t *T) {
	t.each("a ring of size", 1, t.N(110, 300), func(n int) {
		mix := t.cheapKeys(n - 1)
		x, msg := t.RandScalar(), t.Bytes(t.IntN(60))
		s := blsag.Sign(msg, mix, x)
		if !t.Check(len(s.PubKeys) == n && len(s.S) == n, "the ring of %d decoys and the signer has %d members, %d responses", n-1, len(s.PubKeys), len(s.S)) {
			return
		}
		own, k := mulBase(x), 0
		for i, p := range s.PubKeys {
			if i == k && k < n-1 && sameP(p, mix[k]) {
				k++
			} else if k < n-1 && sameP(p, mix[k]) {
				k++
			} else {
				t.Check(sameP(p, own), "member %d of %d is neither the next decoy nor the signer", i, n)
			}
		}
		t.Check(k == n-1, "only %d of %d decoys are in the ring in their order", k, n-1)
		t.Check(sameP(s.I, keyImage(x)), "the key image in a ring of %d is wrong", n)
		r, im := fromBlsag(msg, s)
		t.Check(refRingVerify(r, im, variant{}), "the signature in a ring of %d does not satisfy the scheme's equations", n)
		t.Check(blsag.Verify(msg, s), "the signature in a ring of %d is rejected", n)
		at := t.IntN(n)
		for kind := 0; kind < 3; kind++ {
			q := s
			q.S, q.PubKeys = append([]sc{}, s.S...), append([]pt{}, s.PubKeys...)
			m := msg
			switch kind {
			case 0:
				q.S[at] = sAdd(q.S[at], scInt(1))
			case 1:
				q.PubKeys[at] = add(q.PubKeys[at], mulBase(scInt(5)))
			case 2:
				m = append(append([]byte{}, msg...), 1)
			}
			t.Check(!blsag.Verify(m, q), "an alteration (%d) of member %d of a ring of %d is accepted", kind, at, n)
			t.Seen("altered", n, kind)
		}
		t.Seen("signed", n)
	})
}

func mlsagSizes(t *T) {
	t.each("a ring of size", 1, t.N(110, 300), func(n int) {
		ks := t.cheapKeys(2 * (n - 1))
		x, y, msg := t.RandScalar(), t.RandScalar(), t.Bytes(t.IntN(60))
		d := mlsag.NewDualKey()
		var want [][]pt
		for i := 0; i < n-1; i++ {
			row := []pt{ks[2*i], ks[2*i+1]}
			d.AddDecoy(libPubKeys(row))
			want = append(want, row)
		}
		want = append(want, []pt{mulBase(x), mulBase(y)})
		d.SetPrimaryKey(x)
		d.SetCommToZero(y)
		d.SetMsg(msg)
		s, im, err := d.Prove()
		if !t.Check(err == nil && sameP(im, keyImage(x)), "proof in a ring of %d: %v, or a wrong key image", n, err) {
			return
		}
		r, err := fromMlsag(s)
		if !t.Check(err == nil && sameRing(r.keys, want), "the ring of %d decoys and the prover is not that (%d members), %v", n-1, len(r.keys), err) {
			return
		}
		t.Check(refRingVerify(r, []pt{im}, variant{}), "the proof in a ring of %d does not satisfy the scheme's equations", n)
		ok, err := s.Verify([]pt{im})
		t.Check(ok && err == nil, "the proof in a ring of %d is rejected: %v", n, err)
		at := t.IntN(n)
		for kind := 0; kind < 3; kind++ {
			q := r.clone()
			switch kind {
			case 0:
				q.r[at][t.IntN(2)] = t.RandScalar()
			case 1:
				j := t.IntN(2)
				q.keys[at][j] = add(q.keys[at][j], mulBase(scInt(5)))
			case 2:
				q.msg = append(append([]byte{}, msg...), 1)
			}
			ok, err := mlsagScheme{}.verify(q, []pt{im})
			t.Check(!ok && err != nil, "an alteration (%d) of member %d of a ring of %d is accepted", kind, at, n)
			t.Seen("altered", n, kind)
		}
		t.Seen("proved", n)
	})
}

func ringLengths(t *T) {
	ring := t.dualRing(1)
	t.each("messages of length", 0, t.N(700, 3000), func(n int) {
		msg := t.Bytes(n)
		x, y := t.RandScalar(), t.RandScalar()
		bad := [][]byte{append(append([]byte{}, msg...), 0)}
		if n > 0 {
			for _, at := range []int{0, n - 1, t.IntN(n)} {
				b := append([]byte{}, msg...)
				b[at] ^= 1 << t.IntN(8)
				bad = append(bad, b)
			}
			bad = append(bad, msg[:n-1])
		}
		s := blsag.Sign(msg, []pt{ring[0][0]}, x)
		r, im := fromBlsag(msg, s)
		t.Check(blsag.Verify(msg, s) && refRingVerify(r, im, variant{}), "the ring signature of a message of %d bytes is not valid", n)
		b := bad[t.IntN(len(bad))]
		t.Check(!blsag.Verify(b, s), "the ring signature of a message of %d bytes is accepted for another", n)
		d := mlsag.NewDualKey()
		d.AddDecoy(libPubKeys(ring[0]))
		d.SetPrimaryKey(x)
		d.SetCommToZero(y)
		d.SetMsg(msg)
		p, kim, err := d.Prove()
		if !t.Check(err == nil, "proof for a message of %d bytes: %v", n, err) {
			return
		}
		ok, err := p.Verify([]pt{kim})
		t.Check(ok && err == nil, "the proof for a message of %d bytes is rejected: %v", n, err)
		q, err := fromMlsag(p)
		t.Check(err == nil && bytes.Equal(q.msg, msg) && refRingVerify(q, []pt{kim}, variant{}), "the proof for a message of %d bytes does not satisfy the scheme's equations", n)
		q.msg = b
		ok, err = mlsagScheme{}.verify(q, []pt{kim})
		t.Check(!ok && err != nil, "the proof for a message of %d bytes is accepted for another", n)
		t.Seen("length", n)
	})
}

func blsLengths(t *T) {
	ks := t.bkeys(2)
	apks := []*bls.Apk{bls.NewApk(ks[0].pk), bls.NewApk(ks[1].pk)}
	t.each("messages of length", 0, t.N(600, 3000), func(n int) {
		msg := t.Bytes(n)
		k := ks[n%2]
		s, err := bls.Sign(k.sk, k.pk, msg)
		if !t.Check(err == nil && bytes.Equal(s.Marshal(), g1Bytes(mulq(k.xt(), hashInt(msg)))), "the signature of a message of %d bytes is not the scheme's (%v)", n, err) {
			return
		}
		u, err := bls.UnsafeSign(k.sk, msg)
		if !t.Check(err == nil && bytes.Equal(u.Marshal(), g1Bytes(mulq(k.x, hashInt(msg)))), "the unsafe signature of a message of %d bytes is not the scheme's (%v)", n, err) {
			return
		}
		bad := append(append([]byte{}, msg...), 0)
		if n > 0 && t.IntN(4) != 0 {
			bad = append([]byte{}, msg...)
			bad[[]int{0, n - 1, t.IntN(n)}[t.IntN(3)]] ^= 1 << t.IntN(8)
		}
		other := t.Bytes(n)
		if n > 3 { // of the same length, signed by nobody
			t.Check(bls.Verify(apks[n%2], other, s) != nil, "a signature is accepted for another message of %d bytes", n)
		}
		t.Check(bls.Verify(apks[n%2], msg, s) == nil, "the signature of a message of %d bytes is rejected", n)
		t.Check(bls.VerifyUnsafe(k.pk, msg, u) == nil, "the unsafe signature of a message of %d bytes is rejected", n)
		t.Check(bls.Verify(apks[n%2], bad, s) != nil, "the signature of a message of %d bytes is accepted for another", n)
		t.Check(bls.VerifyUnsafe(k.pk, bad, u) != nil, "the unsafe signature of a message of %d bytes is accepted for another", n)
		t.Seen("length", n)
	})
}

func blsBatchSizes(t *T) {
	top := t.N(60, 130)
	x := t.newKey(nil).x
	var g2s []*bn256.G2
	var pks []*bls.PublicKey
	var apks []*bls.Apk
	var es []*big.Int
	var msgs [][]byte
	for j := 0; j < top; j++ {
		e := addq(x, big.NewInt(int64(3*j)))
		p := t.pkOf(e)
		es, pks = append(es, e), append(pks, p)
		apks = append(apks, &bls.Apk{PublicKey: p})
		g2s = append(g2s, new(bn256.G2).ScalarBaseMult(e))
		msgs = append(msgs, append(le8(uint64(j)), t.Bytes(t.IntN(30))...))
	}
	t.each("a batch of", 1, top, func(n int) {
		sum := new(big.Int)
		for j := 0; j < n; j++ {
			sum = addq(sum, mulq(es[j], hashInt(msgs[j])))
		}
		verify := func(kind int, ms [][]byte, e *big.Int) error {
			switch kind {
			case 0:
				return bls.VerifyBatch(apks[:n:n], ms, t.sigOf(e))
			case 1:
				return bls.VerifyUnsafeBatch(pks[:n:n], ms, t.usigOf(e))
			}
			return bls.VerifyCompressed(g2s[:n:n], ms, t.sigOf(e).Compress(), kind == 3)
		}
		kind := (n / t.Shards) % 4
		ms := msgs[:n:n]
		t.Check(verify(kind, ms, sum) == nil, "verifier %d rejects a complete batch of %d", kind, n)
		at := []int{0, n - 1, t.IntN(n)}[t.IntN(3)]
		less := addq(sum, new(big.Int).Neg(mulq(es[at], hashInt(msgs[at]))))
		if n > 1 {
			t.Check(verify((kind+1)%4, ms, less) != nil, "verifier %d accepts a batch of %d without the signature of entry %d", (kind+1)%4, n, at)
		}
		bad := append([][]byte{}, ms...)
		at = []int{0, n - 1, t.IntN(n)}[t.IntN(3)]
		bad[at] = append(append([]byte{}, bad[at]...), 1)
		t.Check(verify((kind+2)%4, bad, sum) != nil, "verifier %d accepts a batch of %d with message %d altered", (kind+2)%4, n, at)
		// the entry which counts may be the last one: a signature lacking it
		last := addq(sum, new(big.Int).Neg(mulq(es[n-1], hashInt(msgs[n-1]))))
		if n > 1 {
			t.Check(verify(kind, ms, last) != nil, "verifier %d accepts a batch of %d without the last signature", kind, n)
			rep := append([][]byte{}, ms...)
			a := t.IntN(n)
			b := (a + 1 + t.IntN(n-1)) % n
			rep[b] = rep[a]
			re := new(big.Int)
			for j := range rep {
				re = addq(re, mulq(es[j], hashInt(rep[j])))
			}
			t.Check(verify(kind%3, rep, re) != nil, "verifier %d accepts a batch of %d with entry %d's message repeated at %d", kind%3, n, a, b)
			t.Check(verify(3, rep, re) == nil, "a batch of %d with a repeated message is rejected although repetition is allowed", n)
		}
		t.Seen("batch", n, kind)
	})
}

func blsAggSizes(t *T) {
	top := t.N(80, 200)
	ks := t.bkeys(6)
	t.each("aggregates of", 1, top, func(n int) {
		var pks []*bls.PublicKey
		var us []*bls.UnsafeSignature
		ae, ue := new(big.Int), new(big.Int)
		for j := 0; j < n; j++ {
			k := ks[t.IntN(6)]
			pks = append(pks, k.pk)
			ae = addq(ae, k.xt())
		}
		e0 := hashInt(t.Bytes(8))
		var sig *bls.Signature
		for j := 0; j < n; j++ {
			e := addq(e0, big.NewInt(int64(j)))
			us = append(us, t.usigOf(e))
			ue = addq(ue, e)
			if sig == nil {
				sig = t.sigOf(e)
			} else {
				sig.Aggregate(t.sigOf(e))
			}
		}
		a, err := bls.AggregateApk(pks)
		t.Check(err == nil && bytes.Equal(a.Marshal(), g2Bytes(ae)), "the aggregated key of %d keys is not the weighted sum (%v)", n, err)
		u, err := bls.UnsafeBatch(us...)
		t.Check(err == nil && bytes.Equal(u.Marshal(), g1Bytes(ue)), "the batch of %d signatures is not their sum (%v)", n, err)
		t.Check(bytes.Equal(sig.Marshal(), g1Bytes(ue)), "the aggregate of %d signatures is not their sum", n)
		t.Seen("aggregate", n)
	})
}

func mtSizes(t *T) {
	t.each("trees of", 1, t.N(420, 1500), func(n int) {
		var h [][]byte
		for i := 0; i < n; i++ {
			h = append(h, t.Bytes(32))
		}
		pl := payloads(h)
		tr, err := merkletree.NewTree(pl)
		if !t.Check(err == nil, "a tree of %d payloads: %v", n, err) || !t.checkTree(tr, pl, h) {
			return
		}
		ok, err := merkletree.VerifyTree(tr)
		t.Check(ok && err == nil, "an intact tree of %d payloads is not verified: %v", n, err)
		for _, at := range []int{0, n - 1, t.IntN(n), t.IntN(n)} {
			ok, err := tr.VerifyContent(pl[at])
			t.Check(ok && err == nil, "payload %d of %d is not found: %v", at, n, err)
		}
		ok, err = tr.VerifyContent(&pay{h: t.Bytes(32)})
		t.Check(!ok && err == nil, "a payload which is not among the %d is found: %v", n, err)
		at := t.IntN(n)
		old := tr.Leaves[at].Data
		tr.Leaves[at].Data = &pay{h: t.Bytes(32)}
		if n%2 == 0 || at != n-1 {
			ok, err = merkletree.VerifyTree(tr)
			t.Check(!ok && err == nil, "a tree of %d payloads with payload %d changed is verified: %v", n, at, err)
		}
		tr.Leaves[at].Data = old
		// swapping, and the reported root
		if n > 1 {
			a, b := t.IntN(n), t.IntN(n)
			if a != b {
				g := append([]merkletree.Payload{}, pl...)
				g[a], g[b] = g[b], g[a]
				if o, err := merkletree.NewTree(g); t.Check(err == nil, "%v", err) {
					t.Check(!bytes.Equal(o.MerkleRoot, tr.MerkleRoot), "exchanging payloads %d and %d of %d does not change the root", a, b, n)
				}
			}
		}
		t.Check(tr.RebuildTree() == nil && t.checkTree(tr, pl, h), "rebuilding a tree of %d payloads fails", n)
		more := append(append([]merkletree.Payload{}, pl...), &pay{h: t.Bytes(32)})
		hm := append(append([][]byte{}, h...), more[n].(*pay).h)
		t.Check(tr.RebuildTreeUsing(more) == nil && t.checkTree(tr, more, hm), "rebuilding a tree of %d payloads with one more fails", n)
		ok, err = merkletree.VerifyTree(tr)
		t.Check(ok && err == nil, "a tree rebuilt with %d payloads is not verified: %v", n+1, err)
		t.Seen("tree", tr.MerkleRoot)
	})
}

func vecSizes(t *T) {
	t.each("vectors of", 0, t.N(200, 600), func(n int) {
		a, b := make([]sc, n), make([]sc, n)
		for i := range a {
			a[i], b[i] = t.RandScalar(), t.RandScalar()
		}
		s := t.RandScalar()
		A, B, S := bigs(a), bigs(b), bigSc(s)
		same := func(op string, got []sc, err error, want func(j int) *big.Int) {
			if !t.Check(err == nil && len(got) == n, "%s of length %d: length %d, error %v", op, n, len(got), err) {
				return
			}
			for j := range got {
				t.Check(bigSc(got[j]).Cmp(want(j)) == 0, "%s of length %d: element %d is wrong", op, n, j)
			}
			t.Seen(op, n)
		}
		g, err := vector.Add(a, b)
		same("Add", g, err, func(j int) *big.Int { return badd(A[j], B[j]) })
		g, err = vector.Sub(a, b)
		same("Sub", g, err, func(j int) *big.Int { return bsub(A[j], B[j]) })
		g, err = vector.Hadamard(a, b)
		same("Hadamard", g, err, func(j int) *big.Int { return bmul(A[j], B[j]) })
		same("Neg", vector.Neg(a), nil, func(j int) *big.Int { return bsub(new(big.Int), A[j]) })
		same("AddScalar", vector.AddScalar(a, s), nil, func(j int) *big.Int { return badd(A[j], S) })
		same("SubScalar", vector.SubScalar(a, s), nil, func(j int) *big.Int { return bsub(A[j], S) })
		same("MulScalar", vector.MulScalar(a, s), nil, func(j int) *big.Int { return bmul(A[j], S) })
		same("FromScalar", vector.FromScalar(s, uint32(n)), nil, func(j int) *big.Int { return S })
		pow, sum := big.NewInt(1), new(big.Int)
		var pows []*big.Int
		for j := 0; j < n; j++ {
			pows, sum = append(pows, pow), badd(sum, pow)
			pow = bmul(pow, S)
		}
		same("ScalarPowers", vector.ScalarPowers(s, uint32(n)), nil, func(j int) *big.Int { return pows[j] })
		t.Check(bigSc(vector.ScalarPowersSum(s, uint64(n))).Cmp(sum) == 0, "the sum of %d powers is wrong", n)
		ip, err := vector.InnerProduct(a, b)
		t.Check(err == nil && bigSc(ip).Cmp(bdot(A, B)) == 0, "the inner product of length %d is wrong: %v", n, err)
		_, err = vector.InnerProduct(a, append(append([]sc{}, b...), s))
		t.Check(err != nil, "an inner product of lengths %d and %d is not refused", n, n+1)
		if n > 0 {
			_, err = vector.Hadamard(a, b[:n-1])
			t.Check(err != nil, "a product of lengths %d and %d is not refused", n, n-1)
			_, err = vector.Add(a[:n-1], b)
			t.Check(err != nil, "a sum of lengths %d and %d is not refused", n-1, n)
			_, err = vector.Sub(a, b[:n-1])
			t.Check(err != nil, "a difference of lengths %d and %d is not refused", n, n-1)
			k := t.IntN(n)
			l, r, err := vector.SplitScalars(a, uint32(k))
			ok := err == nil && len(l) == k && len(r) == n-k
			for j := 0; ok && j < n; j++ {
				ok = sameS(append(append([]sc{}, l...), r...)[j], a[j])
			}
			t.Check(ok, "splitting %d scalars at %d is wrong: %v", n, k, err)
			// a multiexponentiation of random scalars over multiples of the base
			ps, E := t.cheapBase(n)
			e, err := vector.Exp(a, ps, n, 1)
			t.Check(err == nil && sameP(e, mulBase(scBig(bdot(A, E)))), "the multiexponentiation of length %d is wrong: %v", n, err)
		}
		t.Seen("sums", n)
	})
}

// cheapBase returns multiples of the base and their factors.
func (t *T) cheapBase(n int) ([]pt, []*big.Int) {
	k := bigSc(t.RandScalar())
	g, b := mulBase(scBig(k)), mulBase(scInt(1))
	var ps []pt
	var es []*big.Int
	for i := 0; i < n; i++ {
		ps, es = append(ps, g), append(es, k)
		g, k = add(g, b), badd(k, big.NewInt(1))
	}
	return ps, es
}

func fsSizes(t *T) {
	t.each("transcripts of", 0, t.N(2000, 10000), func(n int) {
		data := t.Bytes(n)
		k := t.IntN(n + 1)
		var h fiatshamir.HashCacher
		h.Append(data[:k])
		if t.IntN(2) == 0 {
			h.Append(data[k:])
		} else {
			m := k + t.IntN(n-k+1)
			h.Append(data[k:m], data[m:])
		}
		t.Check(bytes.Equal(h.Result(), data), "the transcript of %d bytes is not what was appended", n)
		t.Check(sameS(h.Derive(), refChallenge(data)), "the challenge of %d bytes is not the reduced digest", n)
		h.Clear()
		h.Append(data)
		t.Check(sameS(h.Derive(), refChallenge(data)), "the challenge of %d bytes after clearing is not the reduced digest", n)
		t.Seen("transcript", n, k)
	})
}

func pedSizes(t *T) {
	seed := []byte("sizes")
	gens := refGens(seed, 200)
	gens1 := refGens(append(append([]byte{}, seed...), 1), 200)
	ped := pedersen.New(append([]byte{}, seed...))
	t.each("vectors of", 0, t.N(140, 200), func(n int) {
		p := ped
		if n%3 == 0 {
			p = pedersen.New(append([]byte{}, seed...))
			p.BaseVector.Compute(uint32(n))
		}
		v, w := make([]sc, n), make([]sc, t.IntN(3))
		for i := range v {
			v[i] = t.RandScalar()
		}
		for i := range w {
			w[i] = t.RandScalar()
		}
		c := p.CommitToVectors(v)
		want := add(msm(bigs(v), gens[:n]), mulBase(c.BlindingFactor))
		t.Check(sameP(c.Value, want), "the commitment to a vector of %d does not open", n)
		c = p.CommitToVectors(v, w)
		want = add(add(msm(bigs(v), gens[:n]), msm(bigs(w), gens1[:len(w)])), mulBase(c.BlindingFactor))
		t.Check(sameP(c.Value, want), "the commitment to vectors of %d and %d does not open", n, len(w))
		t.Seen("committed", c.Value.Bytes())
	})
}

func mlsagCodecSizes(t *T) {
	trip := func(n, k int) {
		r := t.randSig(n, k)
		for _, keys := range []bool{true, false} {
			l, err := r.mlsag()
			if !t.Check(err == nil, "a signature of %d members with %d keys does not decode: %v", n, k, err) {
				return
			}
			var b bytes.Buffer
			t.Check(l.Encode(&b, keys) == nil, "Encode fails")
			var d mlsag.Signature
			err = d.Decode(bytes.NewReader(b.Bytes()), keys)
			t.Check(err == nil && d.Equals(*l, keys) && l.Equals(d, keys), "a signature of %d members with %d keys decodes to another: %v", n, k, err)
			var c bytes.Buffer
			t.Check(d.Encode(&c, keys) == nil && bytes.Equal(b.Bytes(), c.Bytes()), "a decoded signature of %d members with %d keys encodes differently", n, k)
			t.Check(bytes.Equal(c.Bytes(), r.bytes(keys)), "the encoding of %d members with %d keys is not the format's", n, k)
			err = new(mlsag.Signature).Decode(bytes.NewReader(b.Bytes()[:b.Len()-1]), keys)
			t.Check(err != nil, "a truncated signature of %d members with %d keys decodes", n, k)
			if n > 0 {
				o := r.clone()
				at := t.IntN(n)
				j := t.IntN(k)
				o.r[at][j] = sAdd(o.r[at][j], scInt(1))
				if x, err := o.mlsag(); t.Check(err == nil, "%v", err) {
					t.Check(!x.Equals(*l, keys) && !l.Equals(*x, keys), "signatures of %d members with %d keys which differ in response %d,%d are equal", n, k, at, j)
				}
			}
			t.Seen("encoding", c.Bytes())
		}
	}
	t.each("signatures of members", 1, t.N(150, 600), func(n int) { trip(n, 1+t.IntN(3)) })
	t.each("signatures of keys", 1, t.N(60, 200), func(k int) { trip(1+t.IntN(3), k) })
}

func rpCodecSizes(t *T) {
	trip := func(m, rounds int) {
		r := t.randRP(m, rounds)
		for _, with := range []bool{true, false} {
			p, err := r.lib()
			if !t.Check(err == nil, "a proof of %d commitments and %d rounds does not decode: %v", m, rounds, err) {
				return
			}
			var b bytes.Buffer
			t.Check(p.Encode(&b, with) == nil && bytes.Equal(b.Bytes(), r.bytes(with)), "the encoding of %d commitments and %d rounds is not the format's", m, rounds)
			d, _ := t.randRP(1, 1).lib()
			err = d.Decode(bytes.NewReader(b.Bytes()), with)
			var c bytes.Buffer
			t.Check(err == nil && d.Encode(&c, with) == nil && bytes.Equal(b.Bytes(), c.Bytes()), "a proof of %d commitments and %d rounds decodes to another: %v", m, rounds, err)
			t.Check(d.Equals(p, with) && p.Equals(d, with), "a decoded proof of %d commitments and %d rounds is not equal", m, rounds)
			t.Seen("encoding", b.Bytes())
		}
	}
	t.each("proofs of commitments", 1, t.N(70, 300), func(m int) { trip(m, 1+t.IntN(8)) })
	t.each("proofs of rounds", 1, t.N(40, 100), func(k int) { trip(1+t.IntN(3), k) })
}

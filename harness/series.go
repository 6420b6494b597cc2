package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// Long series of calls in one process: what happens only now and then, after many
// calls, or when a counter or a cache wraps around.

func init() {
	unit("ring.series", "more than a thousand signatures of each scheme made in one process; nonces, responses and challenges recovered and compared with all earlier ones; distinct = (scheme, nonce or response)", 4, 16, ringSeries)
	props["C11"] = append(props["C11"], "ring.series")
	unit("ped.series", "thousands of commitments to scalars and vectors made in one process by one and by several committers; distinct = blinding factor", 4, 16, pedSeries)
	props["C17"] = append(props["C17"], "ped.series")
}

func ringSeries(t *T) {
	for _, scheme := range []string{"blsag", "mlsag"} {
		seen := map[sc]int{}
		ring := t.dualRing(2)
		xs := []sc{t.RandScalar(), t.RandScalar()}
		n := 0
		for k := 0; k < t.N(28, 200); k++ {
			t.Case(fmt.Sprintf("%s, signatures %d and on", scheme, n), func() {
				for i := 0; i < 50; i++ {
					n++
					m := t.Msg()
					r, x := ring[:n%3], xs
					if n%7 == 0 {
						x = []sc{t.RandScalar(), t.RandScalar()}
					}
					run, ok := observe(t, scheme, m, r, x, nil)
					if !ok {
						return
					}
					for what, l := range map[string][]sc{"nonce": run.nonces, "decoy's response": run.decoy, "signer's response": run.real} {
						for _, s := range l {
							if o, dup := seen[s]; dup {
								t.Violate("%s: a %s of signature %d has appeared in signature %d", scheme, what, n, o)
								return
							}
							seen[s] = n
							t.Seen(what, scheme, s.Bytes())
						}
					}
				}
			})
		}
	}
	t.Sample("nonces recovered from long series of signatures")
}

func pedSeries(t *T) {
	seen := map[sc]string{}
	base := deriveP([]byte("blindPoint"))
	one := pedersen.New([]byte("series"))
	one.BaseVector.Compute(2)
	n := 0
	for k := 0; k < t.N(60, 400); k++ {
		t.Case(fmt.Sprintf("commitments %d and on", n), func() {
			for i := 0; i < 100; i++ {
				n++
				ped := one
				if n%5 == 0 {
					ped = pedersen.New([]byte{byte(n), byte(n >> 8)})
				}
				var c pedersen.Commitment
				what := fmt.Sprintf("commitment %d", n)
				v := scInt(int64(n % 4))
				var g pt
				if k%2 == 0 || t.IntN(8) == 0 {
					c = ped.CommitToScalar(v)
					g = base
				} else {
					c = ped.CommitToVectors([]sc{v})
					g = refGens(ped.GenData, 1)[0]
				}
				t.Check(sameP(c.Value, add(mul(g, v), mulBase(c.BlindingFactor))), "%s does not open", what)
				if o, dup := seen[c.BlindingFactor]; dup {
					t.Violate("%s has the blinding factor of %s", what, o)
					return
				}
				seen[c.BlindingFactor] = what
				t.Seen("blind", c.BlindingFactor.Bytes())
			}
		})
	}
	t.Sample("blinding factors of long series of commitments")
}

func init() {
	unit("bls.seriesverify", "thousands of verifications in one process, few of them of valid signatures; distinct = (message, kind)", 2, 8, blsSeriesVerify)
	props["C02"] = append(props["C02"], "bls.seriesverify")
	unit("bls.seriessign", "thousands of signatures made in one process, compared with the exponents; distinct = signature", 2, 8, blsSeriesSign)
	props["C01"] = append(props["C01"], "bls.seriessign")
	unit("bls.seriesagg", "thousands of aggregation calls in one process, compared with the exponents; distinct = sum", 2, 8, blsSeriesAgg)
	props["C03"] = append(props["C03"], "bls.seriesagg")
	unit("bls.seriescodec", "thousands of encodings and decodings of different keys and signatures, good and bad, in one process; distinct = encoding", 2, 8, blsSeriesCodec)
	props["C05"] = append(props["C05"], "bls.seriescodec")
	unit("blsag.series", "thousands of ring signatures over few members, each verified as it is and altered; distinct = signature", 2, 8, func(t *T) { ringSeriesVerify(t, "blsag") })
	unit("mlsag.series", "the same with proofs of two keys; distinct = proof", 2, 8, func(t *T) { ringSeriesVerify(t, "mlsag") })
	props["C06"] = append(props["C06"], "blsag.series")
	props["C07"] = append(props["C07"], "blsag.series")
	props["C08"] = append(props["C08"], "mlsag.series")
	props["C09"] = append(props["C09"], "mlsag.series")
	unit("link.series", "thousands of key images computed in one process; distinct = image", 2, 8, linkSeries)
	props["C10"] = append(props["C10"], "link.series")
	unit("rp.seriesverify", "hundreds of verifications of a few good and bad proofs over one value in one process; distinct = (proof, number)", 4, 16, rpSeriesVerify)
	props["C15"] = append(props["C15"], "rp.seriesverify")
	props["C16"] = append(props["C16"], "rp.seriesverify")
	unit("mt.series", "thousands of small trees built, verified, looked up in and rebuilt in one process; distinct = root", 2, 8, mtSeries)
	props["C23"] = append(props["C23"], "mt.series")
	props["C24"] = append(props["C24"], "mt.series")
	unit("hash.series", "more than 65536 digests of each kind, checksums and draws of entropy in one process; distinct = digest", 2, 8, hashSeries)
	props["C26"] = append(props["C26"], "hash.series")
	props["C19"] = append(props["C19"], "ped.series")
	unit("vec.series", "thousands of calls of each vector operation in one process; distinct = result", 2, 8, vecSeries)
	props["C21"] = append(props["C21"], "vec.series")
	unit("ipp.series", "more than a thousand small inner product proofs made and verified in one process; distinct = proof", 2, 8, ippSeries)
	props["C20"] = append(props["C20"], "ipp.series")
}

// series runs f n times, in cases of a hundred.
func (t *T) series(what string, n int, f func(i int)) {
	for k := 0; k < n; k += 100 {
		t.Case(fmt.Sprintf("%s %d and on", what, k), func() {
			for i := k; i < k+100 && i < n; i++ {
				f(i)
			}
		})
	}
	t.Sample("%d times %s", n, what)
}

func blsSeriesVerify(t *T) {
	ks := t.bkeys(3)
	t.series("verification", t.N(2200, 20000), func(i int) {
		k, msg := ks[i%3], t.Bytes(1+t.IntN(40))
		e := mulq(k.xt(), hashInt(msg))
		ue := mulq(k.x, hashInt(msg))
		good := t.IntN(8) == 0
		m, o := msg, k
		if !good {
			switch t.IntN(3) {
			case 0:
				m = t.MutateMsg(msg)
			case 1:
				o = ks[(i+1)%3]
			case 2:
				e, ue = addq(e, big.NewInt(1)), addq(ue, big.NewInt(1))
			}
		}
		if bytes.Equal(m, msg) && o == k && !good && e.Cmp(mulq(k.xt(), hashInt(msg))) == 0 {
			good = true
		}
		var err error
		if t.IntN(2) == 0 {
			err = bls.Verify(bls.NewApk(o.pk), m, t.sigOf(e))
		} else {
			err = bls.VerifyUnsafe(o.pk, m, t.usigOf(ue))
		}
		t.Check((err == nil) == good, "verification %d in this process: valid %v, verdict %v", i, good, err)
		t.Seen("verified", msg, good)
	})
}

func blsSeriesSign(t *T) {
	ks := t.bkeys(3)
	t.series("signature", t.N(5000, 70000), func(i int) {
		k, msg := ks[t.IntN(3)], t.Bytes(t.IntN(40))
		if i%2 == 0 {
			s, err := bls.Sign(k.sk, k.pk, msg)
			t.Check(err == nil && bytes.Equal(s.Marshal(), g1Bytes(mulq(k.xt(), hashInt(msg)))), "signature %d of this process is not the scheme's (%v)", i, err)
		} else {
			s, err := bls.UnsafeSign(k.sk, msg)
			t.Check(err == nil && bytes.Equal(s.Marshal(), g1Bytes(mulq(k.x, hashInt(msg)))), "unsafe signature %d of this process is not the scheme's (%v)", i, err)
		}
		t.Seen("signed", i%2, msg)
	})
}

func blsSeriesAgg(t *T) {
	ks := t.bkeys(4)
	pool := make([]*big.Int, 16)
	for i := range pool {
		pool[i] = hashInt(t.Bytes(8))
	}
	se, ae := pool[0], ks[0].xt()
	sig, apk := t.sigOf(se), bls.NewApk(ks[0].pk)
	t.series("aggregation", t.N(5000, 70000), func(i int) {
		kind := t.IntN(8)
		switch {
		case kind == 0:
			k := ks[t.IntN(4)]
			t.Check(apk.Aggregate(k.pk) == nil, "Aggregate fails")
			ae = addq(ae, k.xt())
			t.Check(bytes.Equal(apk.Marshal(), g2Bytes(ae)), "aggregation %d of this process: wrong aggregated key", i)
		case kind == 1:
			k := ks[t.IntN(4)]
			e := pool[t.IntN(16)]
			t.Check(sig.Add(k.pk, t.usigOf(e)) == nil, "Add fails")
			se = addq(se, mulq(e, k.t))
		case kind == 2:
			e := pool[t.IntN(16)]
			t.Check(sig.AggregateBytes(g1Bytes(e)) == nil, "AggregateBytes fails")
			se = addq(se, e)
		default:
			e := pool[t.IntN(16)]
			sig.Aggregate(t.sigOf(e))
			se = addq(se, e)
		}
		t.Check(bytes.Equal(sig.Marshal(), g1Bytes(se)), "aggregation %d of this process: wrong signature", i)
		t.Seen("sum", se.Bytes(), ae.Bytes())
	})
}

func blsSeriesCodec(t *T) {
	var pool []*big.Int
	for i := 0; i < 24; i++ {
		pool = append(pool, hashInt(t.Bytes(8)))
	}
	var pk, sg, cg [][]byte
	for _, e := range pool {
		pk, sg = append(pk, g2Bytes(e)), append(sg, g1Bytes(e))
		cg = append(cg, t.sigOf(e).Compress())
	}
	t.series("decoding", t.N(16000, 150000), func(n int) {
		i := []int{0, 0, 1, 2, 3, 4, 5}[t.IntN(7)]
		k := t.IntN(len(pool))
		bad := t.IntN(5) == 0
		in := [][]byte{pk[k], sg[k], cg[k], pk[k], sg[k], cg[k]}[i%6]
		b := append([]byte{}, in...)
		if bad {
			switch i % 6 {
			case 2, 5:
				b = b[:len(b)-1]
			default:
				b[len(b)-1] ^= 1
			}
		}
		var err error
		var out []byte
		switch i % 6 {
		case 0:
			var v *bls.PublicKey
			if v, err = bls.UnmarshalPk(b); err == nil {
				out = v.Marshal()
			}
		case 1:
			var v *bls.Signature
			if v, err = bls.UnmarshalSignature(b); err == nil {
				out = v.Marshal()
			}
		case 2:
			var v bls.Signature
			if err = v.Decompress(b); err == nil {
				out = v.Compress()
				t.Check(bytes.Equal(v.Marshal(), sg[k]), "decoding %d of this process gives another signature", n)
			}
		case 3:
			var v *bls.Apk
			if v, err = bls.UnmarshalApk(b); err == nil {
				out = v.Marshal()
			}
		case 4:
			var v bls.UnsafeSignature
			if err = v.Unmarshal(b); err == nil {
				out = v.Marshal()
			}
		case 5:
			var v bls.UnsafeSignature
			if err = v.Decompress(b); err == nil {
				out = v.Compress()
			}
		}
		t.Check((err != nil) == bad, "decoding %d of this process: invalid %v, error %v", n, bad, err)
		if err == nil && !bad {
			t.Check(bytes.Equal(out, in), "decoding %d of this process gives another value", n)
		}
		t.Seen("decoded", i%6, k, bad)
	})
}

func ringSeriesVerify(t *T, scheme string) {
	ring := t.dualRing(2)
	t.series(scheme+" signature", t.N(2400, 20000), func(i int) {
		n := i % 3
		if n == 2 && i%9 != 2 {
			n = 0
		}
		msg := t.Bytes(t.IntN(20))
		xs := []sc{t.RandScalar(), t.RandScalar()}
		if scheme == "blsag" {
			var mix []pt
			for _, v := range ring[:n] {
				mix = append(mix, v[0])
			}
			s := blsag.Sign(msg, mix, xs[0])
			t.Check(t.IntN(3) == 0 || blsag.Verify(msg, s), "signature %d of this process is rejected", i)
			t.Check(sameP(s.I, keyImage(xs[0])), "signature %d of this process has a wrong key image", i)
			k := t.IntN(len(s.S))
			switch t.IntN(4) {
			case 0:
				s.S[k] = sAdd(s.S[k], scInt(1))
			case 1:
				s.C = sAdd(s.C, scInt(1))
			case 2:
				s.PubKeys[k] = add(s.PubKeys[k], mulBase(scInt(1)))
			case 3:
				s.I = add(s.I, mulBase(scInt(1)))
			}
			t.Check(!blsag.Verify(msg, s), "alteration of signature %d of this process is accepted", i)
			t.Seen("signed", scheme, s.C.Bytes())
			return
		}
		d := mlsag.NewDualKey()
		for _, v := range ring[:n] {
			d.AddDecoy(libPubKeys(v))
		}
		d.SetPrimaryKey(xs[0])
		d.SetCommToZero(xs[1])
		d.SetMsg(msg)
		s, im, err := d.Prove()
		if !t.Check(err == nil, "proof %d of this process: %v", i, err) {
			return
		}
		ok := true
		if t.IntN(3) != 0 {
			ok, err = s.Verify([]pt{im})
			t.Check(ok && err == nil, "proof %d of this process is rejected: %v", i, err)
		}
		t.Check(sameP(im, keyImage(xs[0])), "proof %d of this process has a wrong key image", i)
		if t.IntN(2) == 0 {
			s.Msg = append(append([]byte{}, s.Msg...), 1)
			ok, _ = s.Verify([]pt{im})
		} else {
			ok, _ = s.Verify([]pt{add(im, mulBase(scInt(1)))})
		}
		t.Check(!ok, "alteration of proof %d of this process is accepted", i)
		t.Seen("signed", scheme, im.Bytes())
	})
}

func linkSeries(t *T) {
	t.series("key image", t.N(6000, 70000), func(i int) {
		x := t.RandScalar()
		want := keyImage(x)
		P := mulBase(x)
		got := mlsag.CalculateKeyImage(x, P)
		t.Check(sameP(got, want), "key image %d of this process is wrong", i)
		if i%4 == 0 {
			s := blsag.Sign(nil, nil, x)
			t.Check(sameP(s.I, want), "the key image of signature %d of this process is wrong", i)
		}
		t.Seen("image", want.Bytes())
	})
}

func rpSeriesVerify(t *T) {
	var ps []rangeproof.Proof
	var good []bool
	t.Case("proofs for the series", func() {
		for i := 0; i < 3; i++ {
			p, err := rangeproof.Prove(scalars(t.values(1)), false)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			ps, good = append(ps, p), append(good, true)
			o, err := fromRP(&p)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			switch i {
			case 0:
				o.T2 = t.RandPoint()
			case 1:
				o.mu = t.RandScalar()
			case 2:
				o.V[0] = t.RandPoint()
			}
			q, err := o.lib()
			if !t.Check(err == nil, "%v", err) {
				return
			}
			ps, good = append(ps, q), append(good, false)
		}
	})
	t.series("verification", t.N(320, 4000), func(i int) {
		if len(ps) < 6 {
			return
		}
		k := t.IntN(6)
		t.Check(t.accepted(ps[k], "a proof") == good[k], "verification %d of this process is wrong (valid: %v)", i, good[k])
		t.Seen("verified", k, i)
	})
}

func mtSeries(t *T) {
	t.series("tree", t.N(10000, 100000), func(i int) {
		n := 1 + t.IntN(5)
		var h [][]byte
		for k := 0; k < n; k++ {
			h = append(h, t.Bytes(8))
		}
		pl := payloads(h)
		tr, err := merkletree.NewTree(pl)
		if !t.Check(err == nil, "%v", err) {
			return
		}
		root := refRoot(h)
		t.Check(bytes.Equal(tr.MerkleRoot, root), "tree %d of this process has a wrong root", i)
		var ok bool
		if t.IntN(3) != 0 {
			ok, err = merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "tree %d of this process: verdict %v, %v", i, ok, err)
		}
		k := t.IntN(n)
		ok, err = tr.VerifyContent(pl[k])
		t.Check(ok && err == nil, "tree %d of this process: lookup %v, %v", i, ok, err)
		ok, err = tr.VerifyContent(&pay{h: t.Bytes(9)})
		t.Check(!ok && err == nil, "tree %d of this process: lookup of another payload %v, %v", i, ok, err)
		old := pl[k].(*pay).h
		pl[k].(*pay).h = t.Bytes(9)
		ok, err = merkletree.VerifyTree(tr)
		t.Check(!ok && err == nil, "tree %d of this process, a payload changed: verdict %v, %v", i, ok, err)
		if i%2 == 0 {
			h[k] = pl[k].(*pay).h
			t.Check(tr.RebuildTree() == nil && bytes.Equal(tr.MerkleRoot, refRoot(h)), "tree %d of this process, rebuilt: wrong root", i)
		} else {
			pl[k].(*pay).h = old
		}
		t.Seen("tree", root)
	})
}

func hashSeries(t *T) {
	t.series("digest", t.N(200000, 1<<20), func(i int) {
		in := t.Bytes(1 + t.IntN(12))
		if i%2 == 0 {
			d := digestFns[t.IntN(2)]
			got, err := d.f(in)
			t.Check(err == nil && bytes.Equal(got, d.ref(in)), "%s number %d of this process of %s is wrong", d.name, i, hx(in))
		} else {
			d := digestFns[2+t.IntN(3)]
			got, err := d.f(in)
			t.Check(err == nil && bytes.Equal(got, d.ref(in)), "%s number %d of this process of %s is wrong", d.name, i, hx(in))
		}
		// in no fixed order, so that every kind of call can have any number
		s := uint32(refXXH64(in) >> 32)
		switch t.IntN(5) {
		case 0:
			got, err := hash.Checksum(in)
			t.Check(err == nil && got == s, "the checksum in step %d of this process of %s is wrong", i, hx(in))
		case 1:
			t.Check(hash.CompareChecksum(in, s), "the comparison with a checksum in step %d of this process of %s is wrong", i, hx(in))
		case 2:
			t.Check(!hash.CompareChecksum(in, s^1<<t.IntN(32)), "the comparison with a wrong checksum in step %d of this process of %s is wrong", i, hx(in))
		}
		if i%16 == 0 {
			b, err := hash.RandEntropy(24)
			z := err == nil && len(b) == 24 && !bytes.Equal(b[:8], make([]byte, 8)) && !bytes.Equal(b[16:], make([]byte, 8))
			t.Check(z, "entropy drawn in step %d of this process: %x, %v", i, b, err)
		}
		t.Seen("digest", in)
	})
}

func vecSeries(t *T) {
	t.series("vector operation", t.N(20000, 200000), func(i int) {
		a, b := []sc{t.RandScalar(), t.EdgeScalar()}, []sc{t.EdgeScalar(), t.RandScalar()}
		A, B := bigs(a), bigs(b)
		var got []sc
		var want []*big.Int
		var err error
		kind := t.IntN(8)
		switch kind {
		case 0:
			got, err = vector.Add(a, b)
			want = []*big.Int{badd(A[0], B[0]), badd(A[1], B[1])}
		case 1:
			got, err = vector.Sub(a, b)
			want = []*big.Int{bsub(A[0], B[0]), bsub(A[1], B[1])}
		case 2:
			got = vector.Neg(a)
			want = []*big.Int{bsub(new(big.Int), A[0]), bsub(new(big.Int), A[1])}
		case 3:
			got = vector.AddScalar(a, b[0])
			want = []*big.Int{badd(A[0], B[0]), badd(A[1], B[0])}
		case 4:
			got = vector.MulScalar(a, b[1])
			want = []*big.Int{bmul(A[0], B[1]), bmul(A[1], B[1])}
		case 5:
			got, err = vector.Hadamard(a, b)
			want = []*big.Int{bmul(A[0], B[0]), bmul(A[1], B[1])}
		case 6:
			var s sc
			s, err = vector.InnerProduct(a, b)
			got, want = []sc{s}, []*big.Int{bdot(A, B)}
		case 7:
			got = vector.ScalarPowers(a[0], 3)
			want = []*big.Int{big.NewInt(1), A[0], bmul(A[0], A[0])}
		}
		ok := err == nil && len(got) == len(want)
		for k := range want {
			ok = ok && bigSc(got[k]).Cmp(want[k]) == 0
		}
		t.Check(ok, "vector operation %d of this process (kind %d) on %x and %x is wrong: %v", i, kind, A, B, err)
		t.Seen("result", kind, a[0].Bytes())
	})
}

func ippSeries(t *T) {
	var cs []ippCase
	for i := 0; i < 3; i++ {
		cs = append(cs, t.ippCase(1<<i))
	}
	t.series("inner product proof", t.N(900, 9000), func(i int) {
		c := cs[i%3]
		p, err := innerproduct.Generate(c.G, c.H, c.a, c.b, c.f, c.Q)
		if !t.Check(err == nil, "inner product proof %d of this process: %v", i, err) {
			return
		}
		t.Check(c.lib(p), "inner product proof %d of this process is rejected", i)
		p.A = sAdd(p.A, scInt(1))
		t.Check(!c.lib(p), "alteration of inner product proof %d of this process is accepted", i)
		t.Seen("proof", i, p.B.Bytes())
	})
}

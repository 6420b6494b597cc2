package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// A caller which works in one set of buffers and objects: the same memory holds
// one input after the other. Results have to be those of the current contents.

func init() {
	unit("bls.reuse", "one message buffer, one key, aggregated key and signature object and one batch, refilled in place before each call; every result is compared with the exponent model for the current contents; distinct = (operation, contents)", 8, 32, blsReuse)
	unit("ring.reuse", "one message buffer, decoy list, signature and list of key images, changed in place between calls of both ring schemes, and undone; every verdict is compared with the independent verifier; distinct = (scheme, change)", 8, 32, ringReuse)
	unit("rp.reuse", "one list of values, and one proof object with its lists, changed in place between calls, and undone; verdicts compared with the independent verifier; distinct = (change, contents)", 8, 32, rpReuse)
	unit("ipp.reuse", "one set of generators, vectors, factors and one proof, changed in place between calls, and undone; distinct = (size, change)", 8, 32, ippReuse)
	unit("ped.reuse", "one seed, scalar and set of vectors refilled in place between commitments by one and by several objects; vector operations in the same memory; distinct = commitment or result", 4, 16, pedReuse)
	unit("mt.reuse", "one list of payload objects whose contents change between operations, trees built over it again; distinct = (size, change)", 4, 16, mtReuse)
	unit("hash.reuse", "one buffer refilled in place between digests, checksums and comparisons; distinct = (function, contents)", 2, 8, hashReuse)
	for p, u := range map[string]string{
		"C01": "bls.reuse", "C02": "bls.reuse", "C03": "bls.reuse", "C04": "bls.reuse",
		"C06": "ring.reuse", "C07": "ring.reuse", "C08": "ring.reuse", "C09": "ring.reuse", "C10": "ring.reuse",
		"C14": "rp.reuse", "C15": "rp.reuse", "C16": "rp.reuse",
		"C19": "ped.reuse", "C20": "ipp.reuse", "C21": "ped.reuse",
		"C23": "mt.reuse", "C24": "mt.reuse", "C26": "hash.reuse",
	} {
		more = append(more, [2]string{p, u})
	}
}

// inPlace changes b in place, keeping most of it: first, last or a middle byte, or all.
func (t *T) inPlace(b []byte) {
	if len(b) == 0 {
		return
	}
	d := byte(1 + t.IntN(255))
	switch t.IntN(6) {
	case 0:
		b[0] ^= d
	case 1:
		b[len(b)-1] ^= d
	case 2:
		b[len(b)/2] ^= d
	case 3:
		copy(b, t.Bytes(len(b)))
		b[0] ^= d
	default:
		b[t.IntN(len(b))] ^= d
	}
}

func blsReuse(t *T) {
	for i := 0; i < t.N(6, 60); i++ {
		ks := t.bkeys(5)
		n := []int{1, 20, 32, 64, 65, 100, 136, 137, 300, 1000}[t.IntN(10)]
		t.Case(fmt.Sprintf("one message buffer of %d bytes", n), func() {
			buf := append([]byte{}, t.Bytes(n)...)
			k := ks[0]
			apk := bls.NewApk(k.pk)
			for s := 0; s < 6; s++ {
				if s > 0 {
					old := hashInt(buf)
					t.inPlace(buf)
					// the signature of the former contents is not one of the present contents
					err := bls.Verify(apk, buf, t.sigOf(mulq(k.xt(), old)))
					t.Check(err != nil, "a signature of what the buffer held before is accepted")
					err = bls.VerifyUnsafe(k.pk, buf, t.usigOf(mulq(k.x, old)))
					t.Check(err != nil, "an unsafe signature of what the buffer held before is accepted")
				}
				m := hashInt(buf)
				var sg *bls.Signature
				var us *bls.UnsafeSignature
				var err error
				if s%2 == 0 {
					sg, err = bls.Sign(k.sk, k.pk, buf)
					t.Check(err == nil && bytes.Equal(sg.Marshal(), g1Bytes(mulq(k.xt(), m))), "step %d: the signature is not one of the buffer's present contents (%v)", s, err)
				} else {
					us, err = bls.UnsafeSign(k.sk, buf)
					t.Check(err == nil && bytes.Equal(us.Marshal(), g1Bytes(mulq(k.x, m))), "step %d: the unsafe signature is not one of the buffer's present contents (%v)", s, err)
				}
				err = bls.Verify(apk, buf, t.sigOf(mulq(k.xt(), m)))
				t.Check(err == nil, "a signature of the buffer's present contents is rejected: %v", err)
				err = bls.VerifyUnsafe(k.pk, buf, t.usigOf(mulq(k.x, m)))
				t.Check(err == nil, "an unsafe signature of the buffer's present contents is rejected: %v", err)
				if n > 1 && s%3 == 2 { // the same memory, another length
					m2 := hashInt(buf[:n-1])
					err = bls.Verify(apk, buf[:n-1], t.sigOf(mulq(k.xt(), m)))
					t.Check(err != nil, "a signature is accepted for the message without its last byte")
					err = bls.Verify(apk, buf[:n-1], t.sigOf(mulq(k.xt(), m2)))
					t.Check(err == nil, "a signature of a part of the buffer is rejected: %v", err)
				}
				t.Seen("message", k.pb, buf)
			}
		})
		t.Case("one key object decoded into again", func() {
			pk := &bls.PublicKey{}
			ap := &bls.Apk{PublicKey: &bls.PublicKey{}}
			sg := &bls.Signature{}
			us := &bls.UnsafeSignature{}
			list := []*bls.PublicKey{pk, ks[4].pk}
			buf := make([]byte, len(ks[0].pb))
			sbuf := make([]byte, 64)
			msg := t.Msg()
			m := hashInt(msg)
			for s := 0; s < 8; s++ {
				k := ks[(s+s/4)%4]
				var err error
				copy(buf, k.pb)
				switch t.IntN(3) {
				case 0:
					txt, _ := k.pk.MarshalText()
					err = pk.UnmarshalText(txt)
				default:
					err = pk.Unmarshal(buf)
				}
				t.Check(err == nil && bytes.Equal(pk.Marshal(), k.pb), "a key object does not hold what was decoded into it last (%v)", err)
				for q := range buf {
					buf[q] = 0xee
				}
				t.Check(bytes.Equal(pk.Marshal(), k.pb), "a key changes with the bytes it was decoded from")
				txt, err := pk.MarshalText()
				want, _ := k.pk.MarshalText()
				t.Check(err == nil && bytes.Equal(txt, want), "the text is not that of the key decoded last")
				a := bls.NewApk(pk)
				t.Check(bytes.Equal(a.Marshal(), g2Bytes(k.xt())), "step %d: NewApk does not use the key decoded last", s)
				a, err = bls.AggregateApk(list)
				t.Check(err == nil && bytes.Equal(a.Marshal(), g2Bytes(addq(k.xt(), ks[4].xt()))), "step %d: AggregateApk does not use the key decoded last", s)
				a, err = bls.UnmarshalApk(g2Bytes(ks[4].xt()))
				t.Check(err == nil, "%v", err)
				err = a.Aggregate(pk)
				t.Check(err == nil && bytes.Equal(a.Marshal(), g2Bytes(addq(k.xt(), ks[4].xt()))), "step %d: Aggregate does not use the key decoded last", s)
				g, err := bls.Sign(k.sk, pk, msg)
				t.Check(err == nil && bytes.Equal(g.Marshal(), g1Bytes(mulq(k.xt(), m))), "step %d: Sign does not use the key decoded last", s)
				// signatures
				copy(sbuf, g1Bytes(mulq(k.xt(), m)))
				switch s % 2 {
				case 0:
					err = sg.Unmarshal(sbuf)
				default:
					err = sg.Decompress(t.sigOf(mulq(k.xt(), m)).Compress())
				}
				t.Check(err == nil && bytes.Equal(sg.Marshal(), g1Bytes(mulq(k.xt(), m))), "a signature object does not hold what was decoded into it last (%v)", err)
				t.Check(bytes.Equal(sg.Compress(), t.sigOf(mulq(k.xt(), m)).Compress()), "a signature does not compress to what was decoded last")
				copy(sbuf, g1Bytes(mulq(k.x, m)))
				err = us.Unmarshal(sbuf)
				t.Check(err == nil && bytes.Equal(us.Marshal(), g1Bytes(mulq(k.x, m))), "an unsafe signature object does not hold what was decoded into it last (%v)", err)
				g = t.sigOf(big.NewInt(5))
				err = g.Add(pk, us)
				t.Check(err == nil && bytes.Equal(g.Marshal(), g1Bytes(addq(big.NewInt(5), mulq(k.xt(), m)))), "step %d: Add does not use the values decoded last", s)
				g = t.sigOf(big.NewInt(5))
				g.Aggregate(sg)
				t.Check(bytes.Equal(g.Marshal(), g1Bytes(addq(big.NewInt(5), mulq(k.xt(), m)))), "step %d: Aggregate does not use the signature decoded last", s)
				// an aggregated key
				txt, _ = t.apkOf(k.xt()).MarshalText()
				if s%2 == 0 {
					err = ap.UnmarshalText(txt)
				} else {
					err = ap.Unmarshal(g2Bytes(k.xt()))
				}
				t.Check(err == nil && bytes.Equal(ap.Marshal(), g2Bytes(k.xt())), "an aggregated key object does not hold what was decoded into it last (%v)", err)
				err = bls.Verify(ap, msg, sg)
				t.Check(err == nil, "step %d: Verify does not use the values decoded last: %v", s, err)
				err = bls.VerifyUnsafe(pk, msg, us)
				t.Check(err == nil, "step %d: VerifyUnsafe does not use the values decoded last: %v", s, err)
				o := ks[(s+s/4+1)%4]
				err = pk.Unmarshal(o.pb)
				t.Check(err == nil, "%v", err)
				err = bls.VerifyUnsafe(pk, msg, us)
				t.Check(err != nil, "step %d: VerifyUnsafe accepts the signature of the key held before", s)
				err = ap.Unmarshal(g2Bytes(o.xt()))
				t.Check(err == nil, "%v", err)
				err = bls.Verify(ap, msg, sg)
				t.Check(err != nil, "step %d: Verify accepts the signature of the key held before", s)
				err = ap.Unmarshal(g2Bytes(k.xt()))
				t.Check(err == nil && bls.Verify(ap, msg, sg) == nil, "step %d: Verify rejects after the key came back", s)
				err = sg.Unmarshal(g1Bytes(mulq(o.xt(), m)))
				t.Check(err == nil && bls.Verify(ap, msg, sg) != nil, "step %d: Verify accepts what the signature object held before", s)
				// aggregation changes the object in place
				err = ap.Aggregate(o.pk)
				t.Check(err == nil && bytes.Equal(ap.Marshal(), g2Bytes(addq(k.xt(), o.xt()))), "step %d: aggregating into a used key is wrong (%v)", s, err)
				sg.Aggregate(t.sigOf(mulq(k.xt(), m)))
				err = bls.Verify(ap, msg, sg)
				t.Check(err == nil, "step %d: Verify rejects after aggregation in place: %v", s, err)
				sum := ap.PublicKey.Aggregate(ks[4].pk)
				t.Check(bytes.Equal(sum.Marshal(), g2Bytes(addq(k.xt(), o.xt(), ks[4].x))), "step %d: the sum of a used key and another is wrong", s)
				err = ap.Aggregate(ks[4].pk)
				t.Check(err == nil && bls.Verify(ap, msg, sg) != nil, "step %d: Verify accepts for a key which changed in place", s)
				// the object used last is the one decoded into next
				switch err := pk.Unmarshal(k.pb); t.IntN(4) {
				case 0:
					t.Check(err == nil && bytes.Equal(bls.NewApk(pk).Marshal(), g2Bytes(k.xt())), "step %d: NewApk does not use the key decoded last", s)
				case 1:
					g, err := bls.Sign(k.sk, pk, msg)
					t.Check(err == nil && bytes.Equal(g.Marshal(), g1Bytes(mulq(k.xt(), m))), "step %d: Sign does not use the key decoded last", s)
				case 2:
					g := t.sigOf(big.NewInt(5))
					err = g.Add(pk, t.usigOf(mulq(k.x, m)))
					t.Check(err == nil && bytes.Equal(g.Marshal(), g1Bytes(addq(big.NewInt(5), mulq(k.xt(), m)))), "step %d: Add does not use the key decoded last", s)
				}
				t.Seen("objects", k.pb, o.pb, msg)
			}
		})
		t.Case("one batch changed in place", func() {
			n := 2 + t.IntN(3)
			l := []int{33, 64, 65, 200}[t.IntN(4)]
			var msgs [][]byte
			var apks []*bls.Apk
			var pks []*bls.PublicKey
			var g2s []*bn256.G2
			for j := 0; j < n; j++ {
				msgs = append(msgs, t.Bytes(l))
				apks = append(apks, t.apkOf(ks[j].xt()))
				pks = append(pks, t.pkOf(ks[j].x))
				g2s = append(g2s, new(bn256.G2).ScalarBaseMult(ks[j].x))
			}
			own := make([]int, n)
			for j := range own {
				own[j] = j
			}
			sums := func() (a, u *big.Int) {
				a, u = new(big.Int), new(big.Int)
				for j := range msgs {
					a = addq(a, mulq(ks[own[j]].xt(), hashInt(msgs[j])))
					u = addq(u, mulq(ks[own[j]].x, hashInt(msgs[j])))
				}
				return
			}
			var olda, oldu *big.Int
			for s := 0; s < 6; s++ {
				a, u := sums()
				t.Check(bls.VerifyBatch(apks, msgs, t.sigOf(a)) == nil, "step %d: VerifyBatch rejects what the batch holds now", s)
				t.Check(bls.VerifyUnsafeBatch(pks, msgs, t.usigOf(u)) == nil, "step %d: VerifyUnsafeBatch rejects what the batch holds now", s)
				t.Check(bls.VerifyCompressed(g2s, msgs, t.usigOf(u).Compress(), s%2 == 0) == nil, "step %d: VerifyCompressed rejects what the batch holds now", s)
				if olda != nil {
					t.Check(bls.VerifyBatch(apks, msgs, t.sigOf(olda)) != nil, "step %d: VerifyBatch accepts what the batch held before", s)
					t.Check(bls.VerifyUnsafeBatch(pks, msgs, t.usigOf(oldu)) != nil, "step %d: VerifyUnsafeBatch accepts what the batch held before", s)
					t.Check(bls.VerifyCompressed(g2s, msgs, t.usigOf(oldu).Compress(), s%2 == 1) != nil, "step %d: VerifyCompressed accepts what the batch held before", s)
				}
				olda, oldu = a, u
				switch s % 3 {
				case 0:
					t.inPlace(msgs[t.IntN(n)])
				case 1: // two signers change places
					j := t.IntN(n - 1)
					own[j], own[n-1] = own[n-1], own[j]
					apks[j], apks[n-1] = apks[n-1], apks[j]
					pks[j], pks[n-1] = pks[n-1], pks[j]
					g2s[j], g2s[n-1] = g2s[n-1], g2s[j]
				case 2: // a message becomes a copy of another, for a moment
					saved := append([]byte{}, msgs[0]...)
					copy(msgs[0], msgs[n-1])
					a2, u2 := sums()
					t.Check(bls.VerifyBatch(apks, msgs, t.sigOf(a2)) != nil, "VerifyBatch accepts a message twice")
					t.Check(bls.VerifyUnsafeBatch(pks, msgs, t.usigOf(u2)) != nil, "VerifyUnsafeBatch accepts a message twice")
					copy(msgs[0], saved)
					t.inPlace(msgs[0])
				}
				t.Seen("batch", s, msgs[0])
			}
		})
	}
	t.Sample("message buffers, key and signature objects and batches changed in place between calls")
}

func ringReuse(t *T) {
	for i := 0; i < t.N(8, 80); i++ {
		n := 1 + t.IntN(5)
		l := []int{1, 20, 32, 64, 65, 200}[t.IntN(6)]
		t.Case(fmt.Sprintf("blsag, one set of buffers, %d decoys", n), func() {
			msg := append([]byte{}, t.Bytes(l)...)
			mix := make([]pt, n, n+3)
			for j := range mix {
				mix[j] = t.RandPoint()
			}
			x := t.RandScalar()
			for s := 0; s < 5; s++ {
				sig := blsag.Sign(msg, mix, x)
				r, im := fromBlsag(msg, sig)
				t.Check(refRingVerify(r, im, variant{}) && blsag.Verify(msg, sig), "step %d: the signature is not one of the buffer's present contents", s)
				t.Check(sameP(sig.I, keyImage(x)), "step %d: the key image is not that of the secret used now", s)
				want := []([]pt){{mulBase(x)}}
				for _, p := range mix {
					want = append(want, []pt{p})
				}
				t.Check(sameRing(r.keys, want), "step %d: the ring is not that of the present decoys", s)
				// the signature in place
				for k := 0; k < 4; k++ {
					c := t.blsagInPlace(msg, &sig)
					r, im := fromBlsag(msg, sig)
					w := refRingVerify(r, im, variant{})
					t.Check(blsag.Verify(msg, sig) == w, "after %s in place the verdict is not %v", c.name, w)
					c.undo()
					t.Check(blsag.Verify(msg, sig), "after %s was undone the signature is rejected", c.name)
					t.Seen("blsag", i, s, c.name)
				}
				t.inPlace(msg)
				t.Check(!blsag.Verify(msg, sig), "a signature is accepted for a message which changed in place")
				mix[t.IntN(n)] = t.RandPoint()
				if s%2 == 1 {
					x = t.RandScalar()
				}
			}
		})
		t.Case(fmt.Sprintf("mlsag, one signature and list of images, %d decoys", n), func() {
			k := 1 + t.IntN(3)
			ni := 1 + t.IntN(k)
			xs := make([]sc, k)
			row := make([]pt, k)
			ims := make([]pt, ni)
			for j := range xs {
				xs[j] = t.RandScalar()
				row[j] = mulBase(xs[j])
				if j < ni {
					ims[j] = keyImage(xs[j])
				}
			}
			var keys [][]pt
			for j := 0; j <= n; j++ {
				var v []pt
				for range xs {
					v = append(v, t.RandPoint())
				}
				keys = append(keys, v)
			}
			at := t.IntN(n + 1)
			keys[at] = row
			msg := append([]byte{}, t.Bytes(l)...)
			a := t.refRingProve(msg, keys, at, xs, ims, variant{})
			sig, err := a.mlsag()
			if !t.Check(err == nil, "%v", err) {
				return
			}
			good := func(what string) {
				ok, err := sig.Verify(ims)
				t.Check(ok && err == nil, "%s: a valid proof is rejected: %v", what, err)
			}
			bad := func(what string) {
				ok, err := sig.Verify(ims)
				t.Check(!ok, "%s: the proof is accepted (%v)", what, err)
				t.Seen("mlsag", i, what)
			}
			good("at first")
			for s := 0; s < 4; s++ {
				old := append([]byte{}, sig.Msg...)
				t.inPlace(sig.Msg)
				bad("another message in the same memory")
				copy(sig.Msg, old)
				good("the message is back")
				j := t.IntN(ni)
				o := ims[j]
				ims[j] = t.RandPoint()
				bad("another key image in the same list")
				ims[j] = o
				good("the key image is back")
				if n > 0 {
					p, q := t.IntN(n+1), t.IntN(n+1)
					if p != q {
						sig.PubKeys[p], sig.PubKeys[q] = sig.PubKeys[q], sig.PubKeys[p]
						bad("two members exchanged in the same list")
						sig.PubKeys[p], sig.PubKeys[q] = sig.PubKeys[q], sig.PubKeys[p]
						good("the members are back")
					}
				}
				// another proof decoded into the same object
				m2 := t.Bytes(l)
				b := t.refRingProve(m2, keys, at, xs, ims, variant{})
				err = sig.Decode(bytes.NewReader(b.bytes(true)), true)
				t.Check(err == nil, "%v", err)
				sig.Msg = msg
				bad("another proof in the same object, with the former message")
				sig.Msg = m2
				good("another proof in the same object")
				c := b.clone()
				v := t.IntN(n + 1)
				c.r[v][t.IntN(k)] = t.RandScalar()
				err = sig.Decode(bytes.NewReader(c.bytes(true)), true)
				t.Check(err == nil, "%v", err)
				sig.Msg = m2
				bad("another response in the same object")
				err = sig.Decode(bytes.NewReader(b.bytes(true)), true)
				t.Check(err == nil, "%v", err)
				sig.Msg = m2
				good("the response is back")
				c = b.clone()
				c.keys[v][t.IntN(k)] = t.RandPoint()
				err = sig.Decode(bytes.NewReader(c.bytes(true)), true)
				t.Check(err == nil, "%v", err)
				sig.Msg = m2
				bad("another key in the same object")
				err = sig.Decode(bytes.NewReader(b.bytes(true)), true)
				t.Check(err == nil, "%v", err)
				sig.Msg = append([]byte{}, m2...)
				good("the key is back")
				msg = m2
			}
		})
		t.Case(fmt.Sprintf("mlsag, one prover with one set of buffers, %d decoys", n), func() {
			d := mlsag.NewDualKey()
			var want [][]pt
			var ks mlsag.PubKeys
			for j := 0; j < n; j++ {
				v := []pt{t.RandPoint(), t.RandPoint()}
				err := ks.Decode(bytes.NewReader(append(v[0].Bytes(), v[1].Bytes()...)), 2)
				t.Check(err == nil && ks.Len() == 2, "a key list decoded into again holds %d keys: %v", ks.Len(), err)
				d.AddDecoy(ks)
				want = append(want, v)
			}
			msg := append([]byte{}, t.Bytes(l)...)
			x, y := t.RandScalar(), t.RandScalar()
			d.SetPrimaryKey(x)
			d.SetCommToZero(y)
			d.SetMsg(msg)
			cur := append([]byte{}, msg...)
			for s := 0; s < 6; s++ {
				sig, im, err := d.Prove()
				if !t.Check(err == nil, "step %d: %v", s, err) {
					return
				}
				r, err := fromMlsag(sig)
				t.Check(err == nil && bytes.Equal(sig.Msg, cur), "step %d: the proof is not of the message set last (%v)", s, err)
				t.Check(sameP(im, keyImage(x)), "step %d: the key image is not that of the key set last", s)
				t.Check(sameRing(r.keys, append(append([][]pt{}, want...), []pt{mulBase(x), mulBase(y)})), "step %d: the ring is wrong", s)
				t.Check(refRingVerify(r, []pt{im}, variant{}), "step %d: the proof is not valid", s)
				ok, err := sig.Verify([]pt{im})
				t.Check(ok && err == nil, "step %d: the proof is rejected: %v", s, err)
				switch s % 4 {
				case 1: // nothing set again
				case 0:
					t.inPlace(msg)
					d.SetMsg(msg)
					cur = append([]byte{}, msg...)
				case 2:
					x = t.RandScalar()
					d.SetPrimaryKey(x)
				case 3:
					y = t.RandScalar()
					d.SetCommToZero(y)
				}
				t.Seen("prover", i, s)
			}
		})
	}
	t.Sample("messages, decoys, signatures and key images changed in place between calls")
}

type change struct {
	name string
	undo func()
}

// blsagInPlace changes one thing of the signature or message in place.
func (t *T) blsagInPlace(msg []byte, s *blsag.RingSignature) change {
	switch t.IntN(5) {
	case 0:
		o := append([]byte{}, msg...)
		t.inPlace(msg)
		return change{"a message", func() { copy(msg, o) }}
	case 1:
		j := t.IntN(len(s.S))
		o := s.S[j]
		s.S[j] = t.RandScalar()
		return change{"a response", func() { s.S[j] = o }}
	case 2:
		j := t.IntN(len(s.PubKeys))
		o := s.PubKeys[j]
		s.PubKeys[j] = t.RandPoint()
		return change{"a member", func() { s.PubKeys[j] = o }}
	case 3:
		o := s.I
		s.I = t.RandPoint()
		return change{"the key image", func() { s.I = o }}
	}
	o := s.C
	s.C = t.RandScalar()
	return change{"the challenge", func() { s.C = o }}
}

func rpReuse(t *T) {
	for i := 0; i < t.N(1, 6); i++ {
		m := []int{1, 2, 1, 4}[(i+t.Shard)%4]
		t.Case(fmt.Sprintf("one list of %d values", m), func() {
			v := scalars(t.values(m))
			var p rangeproof.Proof
			for s := 0; s < 3; s++ {
				var err error
				p, err = rangeproof.Prove(v, false)
				if !t.Check(err == nil, "step %d: %v", s, err) {
					return
				}
				for j := range v {
					t.Check(sameP(p.V[j].Value, rpCommit(bigSc(v[j]), bigSc(p.V[j].BlindingFactor))), "step %d: commitment %d is not to the present value", s, j)
				}
				t.Check(t.accepted(p, "a proof"), "step %d: the proof is rejected", s)
				v[t.IntN(m)] = scBig(t.value())
				t.Seen("values", i, s)
			}
			// the lists of one proof, in place
			for s := 0; s < t.N(5, 20); s++ {
				what := ""
				var undo func()
				switch (s + t.Shard) % 8 {
				case 0:
					j := t.IntN(len(p.V))
					o := p.V[j]
					p.V[j].Value = t.RandPoint()
					what, undo = "a commitment", func() { p.V[j] = o }
				case 1:
					j := t.IntN(len(p.IPProof.L))
					o := p.IPProof.L[j]
					p.IPProof.L[j] = t.RandPoint()
					what, undo = "a point of the inner product proof", func() { p.IPProof.L[j] = o }
				case 2:
					j := t.IntN(len(p.IPProof.R))
					o := p.IPProof.R[j]
					p.IPProof.R[j] = t.RandPoint()
					what, undo = "a point of the inner product proof", func() { p.IPProof.R[j] = o }
				case 3:
					o := p.IPProof.A
					p.IPProof.A = t.RandScalar()
					what, undo = "the first scalar of the inner product proof", func() { p.IPProof.A = o }
				case 4:
					o := p.IPProof.B
					p.IPProof.B = t.RandScalar()
					what, undo = "the second scalar of the inner product proof", func() { p.IPProof.B = o }
				case 5:
					o := p
					p.T1 = t.RandPoint()
					what, undo = "T1", func() { p = o }
				case 6:
					o := p
					p.S = t.RandPoint()
					what, undo = "S", func() { p = o }
				default:
					o := p
					p.A = t.RandPoint()
					what, undo = "A", func() { p = o }
				}
				t.Check(!t.accepted(p, "a proof changed in place"), "a proof is accepted after %s changed in place", what)
				undo()
				t.Check(t.accepted(p, "a restored proof"), "a proof is rejected after %s is as before", what)
				t.Seen("proof", i, s, what)
			}
			// other proofs decoded into the same object
			var q rangeproof.Proof
			for s, mm := range []int{m, 2 * m, 1} {
				a := t.witness(t.values(mm)).prove()
				err := q.Decode(bytes.NewReader(a.bytes(true)), true)
				t.Check(err == nil && t.accepted(q, "a decoded proof"), "decode %d into the same object: rejected (%v)", s, err)
				a.t = sAdd(a.t, scInt(1))
				err = q.Decode(bytes.NewReader(a.bytes(true)), true)
				t.Check(err == nil && !t.accepted(q, "a decoded proof"), "decode %d into the same object: an altered proof is accepted (%v)", s, err)
				t.Seen("decoded", i, s, mm)
			}
		})
	}
	t.Sample("values and proofs changed in place between calls")
}

func ippReuse(t *T) {
	for i := 0; i < t.N(6, 60); i++ {
		n := []int{1, 2, 4, 8, 16, 32}[(i+t.Shard)%6]
		t.Case(fmt.Sprintf("one set of vectors of %d", n), func() {
			c := t.ippCase(n)
			for s := 0; s < 3; s++ {
				ip, err := innerproduct.Generate(append([]pt{}, c.G...), append([]pt{}, c.H...), append([]sc{}, c.a...), append([]sc{}, c.b...), c.f, c.Q)
				if !t.Check(err == nil, "Generate: %v", err) {
					return
				}
				// the library may work in what it gets; it is handed the same memory again
				g2, h2, a2, b2 := append([]pt{}, c.G...), append([]pt{}, c.H...), append([]sc{}, c.a...), append([]sc{}, c.b...)
				ip2, err := innerproduct.Generate(g2, h2, a2, b2, c.f, c.Q)
				t.Check(err == nil && ip2.Equals(*ip), "a proof of the same is another one (%v)", err)
				copy(a2, c.a)
				copy(b2, c.b)
				copy(g2, c.G)
				copy(h2, c.H)
				b2[t.IntN(n)] = t.RandScalar()
				c2 := c
				c2.a, c2.b = a2, append([]sc{}, b2...)
				c2.P = c2.point(bdot(bigs(c2.a), bigs(c2.b)))
				ip3, err := innerproduct.Generate(g2, h2, append([]sc{}, a2...), b2, c.f, c.Q)
				t.Check(err == nil && c2.lib(ip3) && c2.ref(c2.open(ip3)), "a proof over vectors which changed in place is not one of the present vectors (%v)", err)
				t.Check(c.lib(ip) && c.ref(c.open(ip)), "the proof is rejected")
				for k := 0; k < 4; k++ {
					what := ""
					var undo func()
					j := t.IntN(n)
					switch t.IntN(6) {
					case 0:
						o := c.G[j]
						c.G[j] = t.RandPoint()
						what, undo = "a generator of the first vector", func() { c.G[j] = o }
					case 1:
						o := c.H[j]
						c.H[j] = t.RandPoint()
						what, undo = "a generator of the second vector", func() { c.H[j] = o }
					case 2:
						o := c.f[j]
						c.f[j] = t.RandScalar()
						what, undo = "a factor", func() { c.f[j] = o }
					case 3:
						o := ip.A
						ip.A = t.RandScalar()
						what, undo = "the first scalar", func() { ip.A = o }
					case 4:
						o := ip.B
						ip.B = t.RandScalar()
						what, undo = "the second scalar", func() { ip.B = o }
					default:
						if len(ip.L) == 0 {
							continue
						}
						k := t.IntN(len(ip.L))
						o := ip.L[k]
						ip.L[k] = t.RandPoint()
						what, undo = "a point of the proof", func() { ip.L[k] = o }
					}
					w := c.ref(c.open(ip))
					t.Check(c.lib(ip) == w, "after %s changed in place the verdict is not %v", what, w)
					undo()
					t.Check(c.lib(ip), "after %s is as before the proof is rejected", what)
					t.Seen("changed", n, s, what)
				}
				c.a[t.IntN(n)] = t.RandScalar()
				c.P = c.point(bdot(bigs(c.a), bigs(c.b)))
			}
		})
	}
	t.Sample("generators, factors and proofs changed in place between calls")
}

func pedReuse(t *T) {
	for i := 0; i < t.N(20, 300); i++ {
		t.Case("one seed, several objects", func() {
			seed := t.Bytes(1 + t.IntN(40))
			n := 1 + t.IntN(6)
			v := [][]sc{t.edgeScalars(n), t.edgeScalars(n)}
			type obj struct {
				p    *pedersen.Pedersen
				seed []byte
			}
			var objs []obj
			for s := 0; s < 4; s++ {
				objs = append(objs, obj{pedersen.New(seed), append([]byte{}, seed...)})
				for _, o := range objs {
					c := o.p.CommitToVectors(v...)
					want := mulBase(c.BlindingFactor)
					want = add(want, msm(bigs(v[0]), refGens(o.seed, n)))
					want = add(want, msm(bigs(v[1]), refGens(append(append([]byte{}, o.seed...), 1), n)))
					t.Check(sameP(c.Value, want), "step %d: a commitment over the seed %s does not open to the present vectors", s, hx(o.seed))
					c = o.p.CommitToScalar(v[0][0])
					t.Check(sameP(c.Value, rpCommit(bigSc(v[0][0]), bigSc(c.BlindingFactor))), "step %d: a commitment does not open to the present value", s)
					t.Seen("commitment", c.Value.Bytes())
				}
				t.inPlace(seed)
				v[t.IntN(2)][t.IntN(n)] = t.RandScalar()
			}
		})
		t.Case("vector operations in the same memory", func() {
			n := 1 + t.IntN(8)
			a, b := t.edgeScalars(n), t.edgeScalars(n)
			pts := make([]pt, n)
			for j := range pts {
				pts[j] = t.RandPoint()
			}
			for s := 0; s < 4; s++ {
				ba, bb := bigs(a), bigs(b)
				x, err := vector.InnerProduct(a, b)
				t.Check(err == nil && bigSc(x).Cmp(bdot(ba, bb)) == 0, "step %d: the inner product is not that of the present vectors", s)
				e, err := vector.Exp(a, pts, n, 1)
				t.Check(err == nil && sameP(e, msm(ba, pts)), "step %d: the exponentiation is not that of the present vectors", s)
				h, err := vector.Hadamard(a, b)
				t.Check(err == nil && len(h) == n, "%v", err)
				for j := range h {
					t.Check(bigSc(h[j]).Cmp(bmul(ba[j], bb[j])) == 0, "step %d: product %d is not that of the present vectors", s, j)
				}
				sm, err := vector.Add(a, b)
				t.Check(err == nil && len(sm) == n, "%v", err)
				for j := range sm {
					t.Check(bigSc(sm[j]).Cmp(badd(ba[j], bb[j])) == 0, "step %d: sum %d is not that of the present vectors", s, j)
				}
				pw := vector.ScalarPowers(a[0], uint32(n))
				for j := range pw {
					t.Check(bigSc(pw[j]).Cmp(bpow(ba[0], j)) == 0, "step %d: power %d is not that of the present scalar", s, j)
				}
				t.Seen("vector", x.Bytes())
				a[t.IntN(n)], b[t.IntN(n)] = t.RandScalar(), t.EdgeScalar()
				pts[t.IntN(n)] = t.RandPoint()
				a[0] = t.EdgeScalar()
			}
		})
	}
	_ = ristretto.Scalar{}
	t.Sample("seeds, values and vectors refilled in place")
}

func mtReuse(t *T) {
	for i := 0; i < t.N(60, 600); i++ {
		n := 1 + t.IntN(12)
		t.Case(fmt.Sprintf("one list of %d payloads", n), func() {
			h := make([][]byte, n)
			for j := range h {
				h[j] = t.Bytes(32)
			}
			pl := payloads(h)
			set := func(j int, b []byte) {
				h[j] = append([]byte{}, b...)
				pl[j].(*pay).h = h[j]
			}
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "NewTree: %v", err) {
				return
			}
			for s := 0; s < 5; s++ {
				t.checkTree(tr, pl, h)
				ok, err := merkletree.VerifyTree(tr)
				t.Check(ok && err == nil, "step %d: a tree of the present payloads is not confirmed: %v", s, err)
				j := t.IntN(n)
				old := h[j]
				nb := append([]byte{}, old...)
				t.inPlace(nb)
				set(j, nb)
				ok, err = merkletree.VerifyTree(tr)
				t.Check(!ok && err == nil, "step %d: the tree is confirmed although the content of payload %d changed (%v)", s, j, err)
				probe := &pay{h: nb}
				switch s % 4 {
				case 0:
					set(j, old)
					ok, err = merkletree.VerifyTree(tr)
					t.Check(ok && err == nil, "step %d: the tree is not confirmed after the payload came back: %v", s, err)
				case 1:
					err = tr.RebuildTree()
					t.Check(err == nil, "RebuildTree: %v", err)
				case 2:
					err = tr.RebuildTreeUsing(pl)
					t.Check(err == nil, "RebuildTreeUsing: %v", err)
				case 3:
					tr, err = merkletree.NewTree(pl)
					t.Check(err == nil, "NewTree: %v", err)
				}
				if s%4 != 0 {
					ok, err = tr.VerifyContent(probe)
					t.Check(ok && err == nil, "step %d: present content is not found: %v", s, err)
					ok, err = tr.VerifyContent(&pay{h: old})
					t.Check(!ok && err == nil, "step %d: content of before is found (%v)", s, err)
				}
				t.Seen("step", n, s, h[j])
			}
		})
	}
	t.Sample("payload objects whose contents change between operations")
}

func hashReuse(t *T) {
	for i := 0; i < t.N(60, 600); i++ {
		n := []int{1, 4, 8, 31, 32, 33, 64, 65, 128, 136, 200, 1000, 5000}[i%13]
		t.Case(fmt.Sprintf("one buffer of %d bytes", n), func() {
			buf := t.Bytes(n)
			for s := 0; s < 6; s++ {
				for _, d := range digestFns {
					got, err := d.f(buf)
					t.Check(err == nil && bytes.Equal(got, d.ref(buf)), "step %d: %s is not that of the present contents of the buffer", s, d.name)
					if n > 1 {
						got, err = d.f(buf[1:])
						t.Check(err == nil && bytes.Equal(got, d.ref(buf[1:])), "step %d: %s of a part of the buffer is wrong", s, d.name)
					}
					t.Seen(d.name, buf)
				}
				t.reuseChecksum(buf, s)
				t.inPlace(buf)
			}
		})
	}
	t.Sample("one buffer refilled in place")
}

func (t *T) reuseChecksum(buf []byte, s int) {
	want := uint32(refXXH64(buf) >> 32)
	got, err := hash.Checksum(buf)
	t.Check(err == nil && got == want, "step %d: the checksum is not that of the present contents of the buffer", s)
	t.Check(hash.CompareChecksum(buf, want), "step %d: the checksum of the present contents is not recognised", s)
	t.inPlace(buf)
	if uint32(refXXH64(buf)>>32) != want {
		t.Check(!hash.CompareChecksum(buf, want), "step %d: the checksum of former contents is recognised", s)
	}
}

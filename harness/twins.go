package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"math/big"
	"math/bits"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// Twins are different inputs which a short or weak fingerprint takes for the
// same: a shortcut which compares fingerprints, lengths or parts is seen there.

type twin struct {
	what string
	a, b []byte
}

func invOdd(x uint64) uint64 {
	y := x
	for i := 0; i < 6; i++ {
		y *= 2 - x*y
	}
	return y
}

// xxTwin returns two byte strings of n >= 40 bytes with the same xxhash64.
func (t *T) xxTwin(n int) (a, b []byte) {
	a = t.Bytes(n)
	b = append([]byte{}, a...)
	lane := t.IntN(4)
	if n < 64 {
		lane = t.IntN((n - 32) / 8)
	}
	if n >= 64 {
		// two stripes through the same lane
		copy(b[8*lane:], t.Bytes(8))
		p1 := xp1
		v := [4]uint64{p1 + xp2, xp2, 0, -p1}[lane]
		r := func(k []byte) uint64 {
			return bits.RotateLeft64(v+binary.LittleEndian.Uint64(k)*xp2, 31) * xp1
		}
		d := r(a[8*lane:]) - r(b[8*lane:])
		k := binary.LittleEndian.Uint64(a[32+8*lane:])
		binary.LittleEndian.PutUint64(b[32+8*lane:], k+d*invOdd(xp2))
		return a, b
	}
	return t.xxTwin(64)
}

// xxTwinShort returns two strings of 16 to 31 bytes with the same xxhash64.
func (t *T) xxTwinShort(n int) (a, b []byte) {
	a = t.Bytes(n)
	b = append([]byte{}, a...)
	copy(b, t.Bytes(8))
	round := func(x uint64) uint64 { return bits.RotateLeft64(x*xp2, 31) * xp1 }
	h0 := xp5 + uint64(n)
	step := func(k []byte) uint64 {
		return bits.RotateLeft64(h0^round(binary.LittleEndian.Uint64(k)), 27)*xp1 + xp4
	}
	want := step(a) ^ round(binary.LittleEndian.Uint64(a[8:])) ^ step(b)
	k := bits.RotateLeft64(want*invOdd(xp1), -31) * invOdd(xp2)
	binary.LittleEndian.PutUint64(b[8:], k)
	return a, b
}

// crcTwin changes a so that its CRC-32 (IEEE) stays.
func (t *T) crcTwin(n int) (a, b []byte) {
	a = t.Bytes(n)
	b = append([]byte{}, a...)
	at := t.IntN(8*n - 33)
	for i := 0; i <= 32; i++ {
		// 0x104C11DB7, highest power first, is sent lowest bit of a byte first
		if uint64(0x104C11DB7)>>(32-i)&1 == 1 {
			b[(at+i)/8] ^= 1 << ((at + i) % 8)
		}
	}
	return a, b
}

// birthday finds two strings of n bytes with the same 32-bit fingerprint.
func (t *T) birthday(n int, f func([]byte) uint32) (a, b []byte) {
	seen := map[uint32]uint32{}
	base := t.Bytes(n)
	mk := func(i uint32) []byte {
		m := append([]byte{}, base...)
		binary.LittleEndian.PutUint64(m[n/2-4:], mix(uint64(i)))
		return m
	}
	for i := uint32(0); ; i++ {
		k := f(mk(i))
		if j, ok := seen[k]; ok {
			return mk(j), mk(i)
		}
		seen[k] = i
	}
}

// twins returns pairs of different byte strings.
func (t *T) twins() []twin {
	var out []twin
	put := func(what string, a, b []byte) {
		if bytes.Equal(a, b) {
			panic("harness: no twins: " + what)
		}
		if t.IntN(2) == 0 {
			a, b = b, a
		}
		out = append(out, twin{what, a, b})
	}
	a, b := t.xxTwin(64 + t.IntN(200))
	if refXXH64(a) != refXXH64(b) {
		panic("harness: xxhash twins differ")
	}
	put("the same xxhash", a, b)
	a, b = t.xxTwin(64)
	put("the same xxhash", a, b)
	a, b = t.xxTwinShort(16 + t.IntN(16))
	if refXXH64(a) != refXXH64(b) {
		panic("harness: short xxhash twins differ")
	}
	put("the same xxhash", a, b)
	a, b = t.crcTwin(8 + t.IntN(100))
	if crc32.ChecksumIEEE(a) != crc32.ChecksumIEEE(b) {
		panic("harness: crc twins differ")
	}
	put("the same CRC", a, b)
	switch t.IntN(5) {
	case 0:
		a, b = t.birthday(16+t.IntN(40), func(m []byte) uint32 { return binary.BigEndian.Uint32(sha3sum(m)) })
		put("the first four bytes of the SHA3 digest the same", a, b)
	case 1:
		a, b = t.birthday(16+t.IntN(40), func(m []byte) uint32 { return binary.BigEndian.Uint32(sha3sum(m)[28:]) })
		put("the last four bytes of the SHA3 digest the same", a, b)
	case 2:
		a, b = t.birthday(8+t.IntN(40), func(m []byte) uint32 { return uint32(refXXH64(m) >> 32) })
		put("the same checksum", a, b)
	case 3:
		a, b = t.birthday(8+t.IntN(40), func(m []byte) uint32 { h := fnv.New32a(); h.Write(m); return h.Sum32() })
		put("the same FNV hash", a, b)
	case 4:
		a, b = t.birthday(8+t.IntN(40), func(m []byte) uint32 { h := fnv.New32(); h.Write(m); return h.Sum32() })
		put("the same FNV hash", a, b)
	}
	// parts in common
	for _, n := range []int{3, 33, 40, 66, 100, 130, 300, 1100} {
		a = t.Bytes(n)
		b = append([]byte{}, a...)
		b[n/2] ^= byte(1 + t.IntN(255))
		put("only a middle byte different", a, b)
	}
	n := []int{32, 64, 128, 256}[t.IntN(4)]
	a = t.Bytes(n + 1 + t.IntN(40))
	b = append([]byte{}, a...)
	b[n] ^= byte(1 + t.IntN(255))
	put("the start in common", a, b)
	b = append([]byte{}, a...)
	b[len(b)-n-1] ^= byte(1 + t.IntN(255))
	put("the end in common", a, b)
	put("the start in common", a, a[:n])
	put("the start in common", a, append(append([]byte{}, a[:n]...), t.Bytes(3)...))
	put("a zero more at the end", a, append(append([]byte{}, a...), 0))
	put("a zero more at the start", a, append([]byte{0}, a...))
	put("empty or a zero", []byte{}, []byte{0})
	b = append([]byte{}, a...)
	for {
		i, j := t.IntN(len(b)), t.IntN(len(b))
		if b[i] != b[j] {
			b[i], b[j] = b[j], b[i]
			break
		}
	}
	put("two bytes exchanged", a, b)
	b = append([]byte{}, a...)
	d := byte(1 + t.IntN(255))
	i := t.IntN(len(b) - 1)
	b[i] ^= d
	b[i+1] ^= d
	put("the same exclusive or", a, b)
	b = append([]byte{}, a...)
	b[i] += d
	b[i+1] -= d
	put("the same sum", a, b)
	// texts
	put("upper and lower case", []byte("Message 17"), []byte("message 17"))
	put("space at the end", []byte("message"), []byte("message "))
	put("line end", []byte("message\n"), []byte("message\r\n"))
	put("bytes which are no UTF-8", []byte{0xff, 0xfe, 'a'}, []byte{0xfe, 0xff, 'a'})
	put("number with leading zero", []byte("7"), []byte("07"))
	return out
}

func init() {
	unit("bls.twins", "pairs of different messages which agree in a fingerprint (xxhash, CRC, part of the SHA3 digest, FNV, sum), a prefix, suffix or all but a middle byte: signed one after the other, verified crosswise, and together in one batch, against the exponent model; distinct = pair", 6, 24, blsTwins)
	unit("ring.twins", "the same pairs as messages of both ring schemes, verified crosswise against the independent verifier; rings, images and responses which share a fingerprint by being negated or permuted; distinct = (scheme, pair)", 6, 24, ringTwins)
	unit("fs.twins", "the same pairs as transcripts, in one piece and split, after another transcript and after Clear; distinct = pair", 4, 16, fsTwins)
	unit("mt.twins", "the same pairs as payload hashes at every position of trees of 1 to 9 payloads: roots, replacement of one by the other, look-up of one in a tree of the other; distinct = (pair, size, position)", 4, 16, mtTwins)
	unit("hash.twins", "the same pairs as inputs of every digest and the checksum; distinct = (function, pair)", 2, 8, hashTwins)
	unit("ped.twins", "the same pairs as seeds of commitment generators; distinct = pair", 2, 8, pedTwins)
	for p, u := range map[string]string{
		"C01": "bls.twins", "C02": "bls.twins", "C03": "bls.twins", "C04": "bls.twins",
		"C06": "ring.twins", "C07": "ring.twins", "C08": "ring.twins", "C09": "ring.twins",
		"C19": "ped.twins", "C22": "fs.twins", "C23": "mt.twins", "C24": "mt.twins", "C26": "hash.twins",
	} {
		more = append(more, [2]string{p, u})
	}
}

func blsTwins(t *T) {
	for i := 0; i < t.N(2, 20); i++ {
		ks := t.bkeys(4)
		k := ks[0]
		apk := bls.NewApk(k.pk)
		for _, w := range t.twins() {
			t.Case("messages with "+w.what, func() {
				ha, hb := hashInt(w.a), hashInt(w.b)
				for _, x := range []struct {
					m []byte
					h *big.Int
				}{{w.a, ha}, {w.b, hb}} {
					s, err := bls.Sign(k.sk, k.pk, x.m)
					t.Check(err == nil && bytes.Equal(s.Marshal(), g1Bytes(mulq(k.xt(), x.h))), "the signature of %s is not the scheme's (%v)", hx(x.m), err)
					u, err := bls.UnsafeSign(k.sk, x.m)
					t.Check(err == nil && bytes.Equal(u.Marshal(), g1Bytes(mulq(k.x, x.h))), "the unsafe signature of %s is not the scheme's (%v)", hx(x.m), err)
				}
				sa, sb := t.sigOf(mulq(k.xt(), ha)), t.sigOf(mulq(k.xt(), hb))
				ua, ub := t.usigOf(mulq(k.x, ha)), t.usigOf(mulq(k.x, hb))
				t.Check(bls.Verify(apk, w.a, sa) == nil, "a signature is rejected")
				t.Check(bls.Verify(apk, w.b, sa) != nil, "the signature of %s is accepted for %s", hx(w.a), hx(w.b))
				t.Check(bls.Verify(apk, w.b, sb) == nil, "a signature is rejected after one of a similar message")
				t.Check(bls.VerifyUnsafe(k.pk, w.a, ua) == nil, "an unsafe signature is rejected")
				t.Check(bls.VerifyUnsafe(k.pk, w.b, ua) != nil, "the unsafe signature of %s is accepted for %s", hx(w.a), hx(w.b))
				t.Check(bls.VerifyUnsafe(k.pk, w.b, ub) == nil, "an unsafe signature is rejected after one of a similar message")
				// in one batch, with another message between
				var apks []*bls.Apk
				var pks []*bls.PublicKey
				var g2s []*bn256.G2
				for _, k := range ks[:3] {
					apks = append(apks, t.apkOf(k.x))
					pks = append(pks, k.pk)
					g2s = append(g2s, new(bn256.G2).ScalarBaseMult(k.x))
				}
				msgs := [][]byte{w.a, append([]byte("between "), t.Bytes(8)...), w.b}
				p := t.Perm(3)
				msgs = [][]byte{msgs[p[0]], msgs[p[1]], msgs[p[2]]}
				sum := new(big.Int)
				for j, m := range msgs {
					sum = addq(sum, mulq(ks[j].x, hashInt(m)))
				}
				t.Check(bls.VerifyBatch(apks, msgs, t.sigOf(sum)) == nil, "VerifyBatch rejects a batch of different messages")
				t.Check(bls.VerifyUnsafeBatch(pks, msgs, t.usigOf(sum)) == nil, "VerifyUnsafeBatch rejects a batch of different messages")
				cs := t.sigOf(sum).Compress()
				t.Check(bls.VerifyCompressed(g2s, msgs, cs, false) == nil, "VerifyCompressed rejects a batch of different messages")
				for j, m := range msgs {
					if bytes.Equal(m, w.a) {
						for l, m2 := range msgs {
							if bytes.Equal(m2, w.b) {
								msgs[j], msgs[l] = m2, m
								break
							}
						}
						break
					}
				}
				t.Check(bls.VerifyBatch(apks, msgs, t.sigOf(sum)) != nil, "VerifyBatch accepts a batch with two messages exchanged")
				t.Check(bls.VerifyUnsafeBatch(pks, msgs, t.usigOf(sum)) != nil, "VerifyUnsafeBatch accepts a batch with two messages exchanged")
				t.Check(bls.VerifyCompressed(g2s, msgs, cs, false) != nil, "VerifyCompressed accepts a batch with two messages exchanged")
				t.Check(bls.VerifyCompressed(g2s, msgs, cs, true) != nil, "VerifyCompressed accepts a batch with two messages exchanged")
				t.Seen("pair", w.a, w.b)
			})
		}
		// keys which share a coordinate, or are close
		t.Case("similar keys", func() {
			m := t.Msg()
			h := hashInt(m)
			for _, e := range []*big.Int{negq(k.x), addq(k.x, big.NewInt(1)), mulq(k.x, big.NewInt(2)), addq(k.x, k.x, k.x)} {
				o := t.pkOf(e)
				oa := bls.NewApk(o)
				oe := mulq(e, hashInt(o.Marshal()))
				t.Check(bytes.Equal(oa.Marshal(), g2Bytes(oe)), "the aggregated key of a similar key is wrong")
				t.Check(bls.Verify(apk, m, t.sigOf(mulq(k.xt(), h))) == nil, "a signature is rejected")
				t.Check(bls.Verify(oa, m, t.sigOf(mulq(k.xt(), h))) != nil, "a signature is accepted for a similar key")
				t.Check(bls.Verify(oa, m, t.sigOf(mulq(oe, h))) == nil, "a signature of a similar key is rejected")
				t.Check(bls.VerifyUnsafe(o, m, t.usigOf(mulq(k.x, h))) != nil, "an unsafe signature is accepted for a similar key")
				t.Check(bls.VerifyUnsafe(o, m, t.usigOf(mulq(e, h))) == nil, "an unsafe signature of a similar key is rejected")
				both, err := bls.AggregateApk([]*bls.PublicKey{k.pk, o})
				t.Check(err == nil && bytes.Equal(both.Marshal(), g2Bytes(addq(k.xt(), oe))), "two similar keys are not aggregated as two (%v)", err)
				t.Seen("keys", o.Marshal())
			}
		})
	}
	t.Sample("messages which agree in fingerprints")
}

func ringTwins(t *T) {
	var schemes = []ringScheme{blsagScheme{}, mlsagScheme{}}
	for i := 0; i < t.N(2, 20); i++ {
		for _, w := range t.twins() {
			for _, s := range schemes {
				t.Case(s.name()+", messages with "+w.what, func() {
					k, ni := s.shape(t)
					n := 2 + t.IntN(3)
					xs := make([]sc, k)
					for j := range xs {
						xs[j] = t.RandScalar()
					}
					var keys [][]pt
					for j := 0; j < n; j++ {
						var v []pt
						for l := 0; l < k; l++ {
							v = append(v, t.RandPoint())
						}
						keys = append(keys, v)
					}
					at := t.IntN(n)
					var ims []pt
					for l := range xs {
						keys[at][l] = mulBase(xs[l])
						if l < ni {
							ims = append(ims, keyImage(xs[l]))
						}
					}
					for _, m := range [][2][]byte{{w.a, w.b}, {w.b, w.a}} {
						g := t.refRingProve(m[0], keys, at, xs, ims, variant{})
						ok, err := s.verify(g, ims)
						t.Check(ok, "a valid signature of %s is rejected: %v", hx(m[0]), err)
						g.msg = m[1]
						ok, _ = s.verify(g, ims)
						t.Check(!ok, "the signature of %s is accepted for %s", hx(m[0]), hx(m[1]))
						g.msg = m[0]
						ok, err = s.verify(g, ims)
						t.Check(ok, "a valid signature of %s is rejected: %v", hx(m[0]), err)
						// parts which agree in a sum or up to the sign
						b := g.clone()
						v, u := t.IntN(n), t.IntN(k)
						switch t.IntN(5) {
						case 0:
							b.r[v][u] = sSub(scInt(0), b.r[v][u])
						case 1:
							o := (v + 1) % n
							d := t.RandScalar()
							b.r[v][u], b.r[o][u] = sAdd(b.r[v][u], d), sSub(b.r[o][u], d)
						case 2:
							b.keys[v][u] = sub(add(b.keys[v][u], b.keys[v][u]), mul(b.keys[v][u], scInt(3)))
						case 3:
							o := (v + 1) % n
							d := t.RandPoint()
							b.keys[v][u], b.keys[o][u] = add(b.keys[v][u], d), sub(b.keys[o][u], d)
						case 4:
							o := (v + 1) % n
							b.keys[v][u], b.keys[o][u] = b.keys[o][u], b.keys[v][u]
						}
						ok, _ = s.verify(b, ims)
						t.Check(!ok, "an altered signature is accepted")
						if len(ims) > 1 {
							d := t.RandPoint()
							im2 := append([]pt{}, ims...)
							im2[0], im2[1] = add(im2[0], d), sub(im2[1], d)
							ok, _ = s.verify(g, im2)
							t.Check(!ok, "altered key images are accepted")
						}
						ok, err = s.verify(g, ims)
						t.Check(ok, "a valid signature of %s is rejected after an altered one: %v", hx(m[0]), err)
					}
					if s.name() == "blsag" {
						for _, m := range [][]byte{w.a, w.b} {
							sig := blsag.Sign(m, []pt{t.RandPoint(), keys[0][0]}, xs[0])
							r, im := fromBlsag(m, sig)
							t.Check(refRingVerify(r, im, variant{}), "the signature of %s is not one of that message", hx(m))
						}
					} else {
						d := mlsag.NewDualKey()
						d.AddDecoy(libPubKeys([]pt{t.RandPoint(), t.RandPoint()}))
						d.SetPrimaryKey(xs[0])
						d.SetCommToZero(t.RandScalar())
						for _, m := range [][]byte{w.a, w.b} {
							d.SetMsg(m)
							sig, im, err := d.Prove()
							if !t.Check(err == nil, "Prove: %v", err) {
								continue
							}
							r, err := fromMlsag(sig)
							t.Check(err == nil && bytes.Equal(r.msg, m) && refRingVerify(r, []pt{im}, variant{}), "the proof of %s is not one of that message", hx(m))
						}
					}
					t.Seen(s.name(), w.a, w.b)
				})
			}
		}
	}
	t.Sample("messages which agree in fingerprints")
}

func fsTwins(t *T) {
	for i := 0; i < t.N(20, 200); i++ {
		for _, w := range t.twins() {
			t.Case("transcripts with "+w.what, func() {
				ca, cb := refChallenge(w.a), refChallenge(w.b)
				var h fiatshamir.HashCacher
				h.Append(w.a)
				t.Check(sameS(h.Derive(), ca), "the challenge is not the reduced digest of what was appended")
				h.Clear()
				h.Append(w.b)
				t.Check(sameS(h.Derive(), cb) && bytes.Equal(h.Result(), w.b), "after Clear, the challenge of a similar transcript is not its own")
				h.Clear()
				for _, p := range [][]byte{w.a, w.b, w.a} {
					h.Append(p)
				}
				all := append(append(append([]byte{}, w.a...), w.b...), w.a...)
				t.Check(sameS(h.Derive(), refChallenge(all)) && bytes.Equal(h.Result(), all), "similar values appended one after the other are not all in the transcript")
				h.Clear()
				h.Append(w.a, w.b)
				t.Check(sameS(h.Derive(), refChallenge(all[:len(w.a)+len(w.b)])), "similar values appended together are not both in the transcript")
				var g fiatshamir.HashCacher
				n := t.IntN(len(w.b) + 1)
				g.Append(w.b[:n])
				g.Derive()
				g.Append(w.b[n:])
				t.Check(sameS(g.Derive(), cb), "the challenge depends on the pieces")
				t.Seen("pair", w.a, w.b)
			})
		}
	}
	t.Sample("transcripts which agree in fingerprints")
}

func mtTwins(t *T) {
	for i := 0; i < t.N(4, 40); i++ {
		for _, w := range t.twins() {
			n := 1 + t.IntN(9)
			at := t.IntN(n)
			t.Case(fmt.Sprintf("payload %d of %d, hashes with %s", at, n, w.what), func() {
				h := make([][]byte, n)
				for j := range h {
					h[j] = append([]byte{byte(j)}, t.Bytes(31)...)
				}
				both := n > 1 && len(w.a) == len(w.b) && t.IntN(2) == 0
				o := (at + 1) % n
				if both {
					h[o] = append([]byte{}, w.b...)
				}
				h[at] = append([]byte{}, w.a...)
				h2 := append([][]byte{}, h...)
				h2[at] = append([]byte{}, w.b...)
				if both {
					h2[o] = append([]byte{}, w.a...)
				}
				p1, p2 := payloads(h), payloads(h2)
				t1, err := merkletree.NewTree(p1)
				if !t.Check(err == nil, "NewTree: %v", err) {
					return
				}
				t2, err := merkletree.NewTree(p2)
				if !t.Check(err == nil, "NewTree: %v", err) {
					return
				}
				t.checkTree(t1, p1, h)
				t.checkTree(t2, p2, h2)
				t.Check(!bytes.Equal(t1.MerkleRoot, t2.MerkleRoot), "two lists of payloads have the same root")
				t.Check(bytes.Equal(t1.MerkleRoot, refRoot(h)), "the root is not that of the payloads")
				for _, tr := range []*merkletree.Tree{t1, t2} {
					ok, err := merkletree.VerifyTree(tr)
					t.Check(ok && err == nil, "a tree is not confirmed: %v", err)
				}
				ok, err := t1.VerifyContent(&pay{h: w.a})
				t.Check(ok && err == nil, "content is not found: %v", err)
				ok, err = t1.VerifyContent(&pay{h: w.b})
				t.Check(ok == both && err == nil, "look-up of similar content says %v (%v)", ok, err)
				// one replaced by the other in a built tree
				p1[at].(*pay).h = append([]byte{}, w.b...)
				ok, err = merkletree.VerifyTree(t1)
				t.Check(!ok && err == nil, "a tree is confirmed although a payload became a similar one (%v)", err)
				p1[at].(*pay).h = append([]byte{}, w.a...)
				// the stored root or hash replaced by a similar one
				saved := t1.MerkleRoot
				t1.MerkleRoot = t2.MerkleRoot
				ok, _ = merkletree.VerifyTree(t1)
				t.Check(!ok, "a tree with another root is confirmed")
				t1.MerkleRoot = saved
				ok, err = merkletree.VerifyTree(t1)
				t.Check(ok && err == nil, "a tree is not confirmed: %v", err)
				if err := t1.RebuildTreeUsing(p2); t.Check(err == nil, "RebuildTreeUsing: %v", err) {
					t.Check(bytes.Equal(t1.MerkleRoot, refRoot(h2)), "the root after rebuilding is not that of the new payloads")
				}
				t.Seen("pair", n, at, w.a, w.b)
			})
		}
	}
	t.Sample("payload hashes which agree in fingerprints")
}

func hashTwins(t *T) {
	for i := 0; i < t.N(10, 100); i++ {
		for _, w := range t.twins() {
			t.Case("inputs with "+w.what, func() {
				for _, d := range digestFns {
					for _, m := range [][]byte{w.a, w.b, w.a} {
						got, err := d.f(m)
						t.Check(err == nil && bytes.Equal(got, d.ref(m)), "%s of %s is wrong (%v)", d.name, hx(m), err)
					}
					t.Seen(d.name, w.a, w.b)
				}
				for _, m := range [][]byte{w.a, w.b, w.a} {
					c, err := hash.Checksum(m)
					want := uint32(refXXH64(m) >> 32)
					t.Check(err == nil && c == want, "the checksum of %s is %08x, not %08x (%v)", hx(m), c, want, err)
					for _, m2 := range [][]byte{w.a, w.b} {
						t.Check(hash.CompareChecksum(m2, want) == (uint32(refXXH64(m2)>>32) == want), "the comparison of a checksum is wrong")
					}
				}
			})
		}
	}
	t.Sample("inputs which agree in fingerprints")
}

func pedTwins(t *T) {
	for i := 0; i < t.N(6, 60); i++ {
		for _, w := range t.twins() {
			t.Case("seeds with "+w.what, func() {
				n := 1 + t.IntN(4)
				v := [][]sc{t.edgeScalars(n), t.edgeScalars(n)}
				v[0][0] = t.NonZeroScalar()
				for _, seed := range [][]byte{w.a, w.b, w.a} {
					c := pedersen.New(seed).CommitToVectors(v...)
					want := add(mulBase(c.BlindingFactor), msm(bigs(v[0]), refGens(seed, n)))
					want = add(want, msm(bigs(v[1]), refGens(append(append([]byte{}, seed...), 1), n)))
					t.Check(sameP(c.Value, want), "a commitment over the seed %s does not open over that seed's generators", hx(seed))
				}
				t.Seen("pair", w.a, w.b)
			})
		}
	}
	t.Sample("seeds which agree in fingerprints")
}

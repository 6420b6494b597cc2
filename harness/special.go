package main

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
)

// special holds, for each function, the little-endian 8 byte numbers whose
// digests begin with three bytes 0, end with three bytes 0, begin with three
// bytes 255 and end with three bytes 255 (0: none found). Written by tools/grind.
var special = map[string][4]uint64{
	"sha3-256":    {13254479, 2415545, 18568495, 8593718},
	"sha3-512":    {5048356, 54213388, 15233337, 11633924},
	"blake2b-256": {9139431, 23821908, 35430755, 3603926},
	"blake2b-512": {24437150, 22687077, 18400561, 21596805},
	"xxhash":      {1291110, 2287386, 87884882, 6836003},
	// the number between 32 and 24 zero bytes
	"sha3-256 pair": {2207533, 18954667, 27391030, 12346505},
	// the reduced challenge, big-endian: 24 of its 252 bits, or its last 20
	"challenge": {70532698, 614580, 7614509, 0},
	// secrets of BLS keys; the digest is that of the encoded public key
	"key": {6597070764867, 7696583309562, 7696581730018, 3298534986260},
	// exactly two bytes, exactly one
	"key2": {69541, 75317, 5608, 14768},
	"key1": {1122, 1219, 1000, 1096},
}

func le8(n uint64) []byte { return binary.LittleEndian.AppendUint64(nil, n) }

func specials(name string) (out []uint64) {
	for _, n := range special[name] {
		if n != 0 {
			out = append(out, n)
		}
	}
	return out
}

// grind finds, from a random start, inputs whose digests have exactly n bytes 0 or
// 255 at either end.
func (t *T) grind(n int, in func(uint64) []byte, f func([]byte) []byte) (out [][]byte) {
	var have [4]bool
	for x := t.Uint64(); ; x++ {
		m := in(x)
		d := f(m)
		for k := range have {
			c := 0
			for c < len(d) && d[[2]int{c, len(d) - 1 - c}[k%2]] == byte(255*(k/2)) {
				c++
			}
			if c == n && !have[k] {
				have[k] = true
				out = append(out, m)
			}
		}
		if len(out) == 4 {
			return out
		}
	}
}

func pairOf(n uint64) []byte { return append(append(make([]byte, 32), le8(n)...), make([]byte, 24)...) }

func init() {
	unit("bls.special", "messages and public keys whose digests begin or end in three bytes 0 or 255, in every combination: signatures, verification, aggregation and batches against the exponent model; distinct = (message, key)", 1, 1, blsSpecial)
	unit("fs.special", "transcripts and inputs of every digest whose results begin or end in zero or one bits; distinct = input", 1, 1, fsSpecial)
	unit("mt.special", "trees with pairs whose digests begin or end in three bytes 0 or 255; distinct = (pair, place)", 1, 1, mtSpecial)
	for p, u := range map[string]string{
		"C01": "bls.special", "C02": "bls.special", "C03": "bls.special", "C04": "bls.special",
		"C22": "fs.special", "C26": "fs.special", "C23": "mt.special", "C24": "mt.special",
	} {
		more = append(more, [2]string{p, u})
	}
}

func blsSpecial(t *T) {
	var keys []*bkey
	for _, name := range []string{"key", "key2", "key1"} {
		for _, n := range specials(name) {
			keys = append(keys, t.newKey(new(big.Int).SetUint64(n)))
		}
	}
	keys = append(keys, t.newKey(nil))
	var msgs [][]byte
	for _, n := range specials("sha3-256") {
		msgs = append(msgs, le8(n))
	}
	msgs = append(msgs, t.grind(2, le8, sha3sum)...)
	msgs = append(msgs, t.grind(1, le8, sha3sum)...)
	msgs = append(msgs, t.Bytes(20))
	for i, k := range keys {
		if k == nil {
			return
		}
		apk := bls.NewApk(k.pk)
		t.Check(bytes.Equal(apk.Marshal(), g2Bytes(k.xt())), "the aggregated key of %s is not the scheme's", hx(k.pb))
		for j, m := range msgs {
			if (i+j)%4 != 0 && t.Tier != "thorough" {
				continue
			}
			t.Case("special digests", func() {
				h := hashInt(m)
				s, err := bls.Sign(k.sk, k.pk, m)
				t.Check(err == nil && bytes.Equal(s.Marshal(), g1Bytes(mulq(k.xt(), h))), "the signature of %s is not the scheme's (%v)", hx(m), err)
				u, err := bls.UnsafeSign(k.sk, m)
				t.Check(err == nil && bytes.Equal(u.Marshal(), g1Bytes(mulq(k.x, h))), "the unsafe signature of %s is not the scheme's (%v)", hx(m), err)
				s, u = t.sigOf(mulq(k.xt(), h)), t.usigOf(mulq(k.x, h))
				t.Check(bls.Verify(apk, m, s) == nil, "the signature of %s is rejected", hx(m))
				t.Check(bls.VerifyUnsafe(k.pk, m, u) == nil, "the unsafe signature of %s is rejected", hx(m))
				o := msgs[(j+1)%len(msgs)]
				t.Check(bls.Verify(apk, o, s) != nil, "the signature of %s is accepted for %s", hx(m), hx(o))
				t.Check(bls.VerifyUnsafe(k.pk, o, u) != nil, "the unsafe signature of %s is accepted for %s", hx(m), hx(o))
				// the digest shifted, cut, or its bytes reversed
				for _, e := range []*big.Int{new(big.Int).Rsh(h, 8), new(big.Int).Rsh(h, 16), new(big.Int).Rsh(h, 24), new(big.Int).Lsh(h, 8), new(big.Int).Lsh(h, 16)} {
					t.Check(bls.Verify(apk, m, t.sigOf(mulq(k.xt(), e))) != nil, "the signature of a shifted digest is accepted")
					t.Check(bls.VerifyUnsafe(k.pk, m, t.usigOf(mulq(k.x, e))) != nil, "the unsafe signature of a shifted digest is accepted")
				}
				t.Seen("single", k.pb, m)
			})
		}
	}
	t.Case("special digests in one batch", func() {
		var e []*big.Int
		sum, weighted, plain := new(big.Int), new(big.Int), new(big.Int)
		var pks []*bls.PublicKey
		for j, m := range msgs {
			e = append(e, keys[j%len(keys)].xt())
			sum = addq(sum, mulq(e[j], hashInt(m)))
		}
		t.blsJudge("special digests", e, msgs, sum)
		t.blsJudge("special digests", e, msgs, addq(sum, big.NewInt(1)))
		var g2s []*bn256.G2
		for _, k := range keys {
			pks = append(pks, k.pk)
			weighted, plain = addq(weighted, k.xt()), addq(plain, k.x)
			g2s = append(g2s, new(bn256.G2).ScalarBaseMult(k.x))
		}
		a, err := bls.AggregateApk(pks)
		t.Check(err == nil && bytes.Equal(a.Marshal(), g2Bytes(weighted)), "the aggregate of keys with special digests is not the scheme's (%v)", err)
		for _, m := range msgs {
			h := hashInt(m)
			t.Check(bls.Verify(a, m, t.sigOf(mulq(weighted, h))) == nil, "an aggregated signature is rejected")
			t.Check(bls.Verify(a, m, t.sigOf(mulq(plain, h))) != nil, "an unweighted aggregate is accepted")
			var s *bls.Signature
			for _, k := range keys {
				x, err := bls.Sign(k.sk, k.pk, m)
				if !t.Check(err == nil, "Sign: %v", err) {
					return
				}
				if s == nil {
					s = x
				} else {
					s.Aggregate(x)
				}
			}
			t.Check(bytes.Equal(s.Marshal(), g1Bytes(mulq(weighted, h))), "the aggregate of signatures of special keys is not the scheme's")
		}
		t.Seen("batch", msgs, len(g2s))
	})
	t.Sample("digests with three bytes 0 or 255 at either end")
}

func fsSpecial(t *T) {
	for _, n := range specials("challenge") {
		t.Case("special challenge", func() {
			m := le8(n)
			var h fiatshamir.HashCacher
			h.Append(m)
			t.Check(sameS(h.Derive(), refChallenge(m)) && bytes.Equal(h.Result(), m), "the challenge of %s is not its reduced digest", hx(m))
			t.Seen("challenge", m)
		})
	}
	for k := 0; k < 4; k++ {
		t.Case("nearly special challenge", func() {
			for _, m := range t.grind(1+k/2, le8, func(b []byte) []byte { s := refChallenge(b); return s.Bytes()[:31] }) {
				var h fiatshamir.HashCacher
				h.Append(m)
				t.Check(sameS(h.Derive(), refChallenge(m)) && bytes.Equal(h.Result(), m), "the challenge of %s is not its reduced digest", hx(m))
				t.Seen("challenge", m)
			}
		})
	}
	inputs := map[string][][]byte{}
	for name := range special {
		for _, n := range specials(name) {
			m := le8(n)
			if name == "sha3-256 pair" {
				m = pairOf(n)
			}
			inputs[name] = append(inputs[name], m)
		}
	}
	for _, d := range digestFns {
		for n := 1; n <= 2; n++ {
			inputs[d.name] = append(inputs[d.name], t.grind(n, le8, d.ref)...)
		}
	}
	for n := 1; n <= 2; n++ {
		inputs["checksum"] = append(inputs["checksum"], t.grind(n, le8, func(b []byte) []byte { return binary.BigEndian.AppendUint32(nil, uint32(refXXH64(b)>>32)) })...)
	}
	for name, ms := range inputs {
		for _, m := range ms {
			t.Case("special digests", func() {
				for _, d := range digestFns {
					got, err := d.f(m)
					t.Check(err == nil && bytes.Equal(got, d.ref(m)), "%s of %s is wrong (%v)", d.name, hx(m), err)
				}
				c, err := hash.Checksum(m)
				want := uint32(refXXH64(m) >> 32)
				t.Check(err == nil && c == want, "the checksum of %s is %08x, not %08x (%v)", hx(m), c, want, err)
				t.Check(hash.CompareChecksum(m, want), "the checksum %08x of %s is not confirmed", want, hx(m))
				for _, o := range []uint32{want << 8, want >> 8, want ^ 1, want ^ 1<<31, want &^ 0xffff, want & 0xffff} {
					t.Check(hash.CompareChecksum(m, o) == (o == want), "the checksum %08x is confirmed as %08x", want, o)
				}
				t.Seen("digest", name, m)
			})
		}
	}
	t.Sample("digests with three bytes 0 or 255 at either end")
}

func mtSpecial(t *T) {
	var pairs [][]byte
	for _, n := range specials("sha3-256 pair") {
		pairs = append(pairs, pairOf(n))
	}
	for n := 1; n <= 2; n++ {
		pairs = append(pairs, t.grind(n, pairOf, sha3sum)...)
	}
	for n, pair := range pairs {
		for _, size := range []int{2, 3, 4, 5, 7, 8} {
			for at := 0; at+1 < size; at += 2 {
				t.Case("pair with a special digest", func() {
					h := make([][]byte, size)
					for j := range h {
						h[j] = t.Bytes(32)
					}
					h[at], h[at+1] = pair[:32:32], pair[32:]
					pl := payloads(h)
					tr, err := merkletree.NewTree(pl)
					if !t.Check(err == nil, "NewTree: %v", err) {
						return
					}
					t.checkTree(tr, pl, h)
					ok, err := merkletree.VerifyTree(tr)
					t.Check(ok && err == nil, "a tree is not confirmed: %v", err)
					for j := range h {
						ok, err = tr.VerifyContent(&pay{h: h[j]})
						t.Check(ok && err == nil, "content %d is not found: %v", j, err)
					}
					err = tr.RebuildTree()
					t.Check(err == nil && bytes.Equal(tr.MerkleRoot, refRoot(h)), "a rebuilt tree has another root: %v", err)
					// the special digest is at index 0 or 1 of its parent: alter what lies beside it
					sv := tr.MerkleRoot
					tr.MerkleRoot = append(append([]byte{}, sv[:31]...), sv[31]^1)
					ok, _ = merkletree.VerifyTree(tr)
					t.Check(!ok, "a tree with another root is confirmed")
					tr.MerkleRoot = sv[:31]
					ok, _ = merkletree.VerifyTree(tr)
					t.Check(!ok, "a tree with a shortened root is confirmed")
					tr.MerkleRoot = sv[3:]
					ok, _ = merkletree.VerifyTree(tr)
					t.Check(!ok, "a tree with a shortened root is confirmed")
					t.Seen("pair", n, size, at)
				})
			}
		}
	}
	t.Sample("pairs whose digests have three bytes 0 or 255 at either end")
}

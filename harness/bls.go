package main

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha3"
	"encoding/base64"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"reflect"
	"unsafe"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
)

// The oracle works on discrete logarithms: the harness knows the secret of every
// key and the scheme's message hash is a known multiple of the generator, so that
// every point it offers to the code under test is generator times a known number.

var q = bn256.Order

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, q) }
func mulq(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
		r.Mod(r, q)
	}
	return r
}
func addq(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return mod(r)
}
func negq(x *big.Int) *big.Int { return mod(new(big.Int).Neg(x)) }

func g1Bytes(e *big.Int) []byte { return new(bn256.G1).ScalarBaseMult(mod(e)).Marshal() }
func g2Bytes(e *big.Int) []byte { return new(bn256.G2).ScalarBaseMult(mod(e)).Marshal() }

func hashInt(b []byte) *big.Int {
	h := sha3.Sum256(b)
	return new(big.Int).SetBytes(h[:])
}

type bkey struct {
	x  *big.Int
	t  *big.Int // digest of the encoded public key
	pk *bls.PublicKey
	sk *bls.SecretKey
	pb []byte // encoded public key
}

// xt is the weighted secret.
func (k *bkey) xt() *big.Int { return mulq(k.x, k.t) }

// listReader delivers the given bytes, then generator output.
type listReader struct {
	first []byte
	rest  io.Reader
	n     int
}

func (r *listReader) Read(b []byte) (int, error) {
	r.n += len(b)
	if len(r.first) > 0 {
		n := copy(b, r.first)
		r.first = r.first[n:]
		return n, nil
	}
	return r.rest.Read(b)
}

// secretOf reads the secret number of a key pair, whatever the field is called.
func secretOf(sk *bls.SecretKey) *big.Int {
	v := reflect.ValueOf(sk).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Type() {
		case reflect.TypeOf((*big.Int)(nil)):
			p := *(**big.Int)(unsafe.Pointer(f.UnsafeAddr()))
			if p != nil {
				return new(big.Int).Set(p)
			}
		case reflect.TypeOf(big.Int{}):
			return new(big.Int).Set((*big.Int)(unsafe.Pointer(f.UnsafeAddr())))
		}
	}
	return nil
}

// newKey makes a key pair through the code under test; when want is not nil the
// entropy is chosen so that the secret is want.
func (t *T) newKey(want *big.Int) *bkey {
	first := t.Bytes(32)
	if want != nil {
		first = want.FillBytes(make([]byte, 32))
	}
	rest := seed32("key", t.Uint64(), t.Uint64())
	mk := func() io.Reader {
		return &listReader{first: append([]byte{}, first...), rest: newDRBG(rest)}
	}
	pk, sk, err := bls.GenKeyPair(mk())
	if err != nil || pk == nil || sk == nil {
		t.Violate("GenKeyPair fails with a working reader: %v", err)
		return nil
	}
	pb := pk.Marshal()
	x, _, _ := bn256.RandomG2(mk())
	if x == nil || !bytes.Equal(g2Bytes(x), pb) {
		if x = secretOf(sk); x == nil || !bytes.Equal(g2Bytes(x), pb) {
			t.Violate("the public key %s is not the generator times the secret of the pair", hx(pb))
			return nil
		}
	}
	return &bkey{x: x, t: hashInt(pb), pk: pk, sk: sk, pb: pb}
}

func (t *T) bkeys(n int) []*bkey {
	ks := make([]*bkey, n)
	for i := range ks {
		ks[i] = t.newKey(nil)
	}
	return ks
}

// EdgeSecret is nil (random) or a special secret.
func (t *T) EdgeSecret() *big.Int {
	switch t.IntN(8) {
	case 0:
		return big.NewInt(1)
	case 1:
		return big.NewInt(2)
	case 2:
		return new(big.Int).Sub(q, big.NewInt(1))
	case 3:
		return new(big.Int).Sub(q, big.NewInt(2))
	case 4:
		return new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(255)))
	case 5:
		return big.NewInt(int64(3 + t.IntN(1000)))
	}
	return nil
}

func (t *T) pkOf(e *big.Int) *bls.PublicKey {
	pk, err := bls.UnmarshalPk(g2Bytes(e))
	if err != nil {
		t.Violate("a valid public key is not decoded: %v (exponent %x)", err, e)
		return nil
	}
	return pk
}

func (t *T) apkOf(e *big.Int) *bls.Apk {
	pk, err := bls.UnmarshalApk(g2Bytes(e))
	if err != nil {
		t.Violate("a valid aggregated key is not decoded: %v (exponent %x)", err, e)
		return nil
	}
	return pk
}

func (t *T) sigOf(e *big.Int) *bls.Signature {
	s, err := bls.UnmarshalSignature(g1Bytes(e))
	if err != nil {
		t.Violate("a valid signature is not decoded: %v (exponent %x)", err, e)
		return nil
	}
	return s
}

func (t *T) usigOf(e *big.Int) *bls.UnsafeSignature {
	s := &bls.UnsafeSignature{}
	if err := s.Unmarshal(g1Bytes(e)); err != nil {
		t.Violate("a valid signature is not decoded: %v (exponent %x)", err, e)
		return nil
	}
	return s
}

// reSig passes a signature through one of the ways a caller may obtain it.
func (t *T) reSig(s *bls.Signature, how int) *bls.Signature {
	switch how {
	case 1:
		return s.Copy()
	case 2:
		r, err := bls.UnmarshalSignature(s.Marshal())
		t.Check(err == nil, "signature does not decode from its encoding: %v", err)
		return r
	case 3:
		r := &bls.Signature{}
		err := r.Decompress(s.Compress())
		t.Check(err == nil, "signature does not decompress: %v", err)
		return r
	case 4:
		r, err := bls.UnmarshalSignature(s.Compress())
		t.Check(err == nil, "signature does not decode from its compressed encoding: %v", err)
		return r
	case 5: // decoded over another value
		r := t.sigOf(big.NewInt(7))
		err := r.Unmarshal(s.Marshal())
		t.Check(err == nil, "signature does not decode over another one: %v", err)
		return r
	}
	return s
}

const nReSig = 6

func (t *T) reUsig(s *bls.UnsafeSignature, how int) *bls.UnsafeSignature {
	switch how {
	case 1, 2:
		r := &bls.UnsafeSignature{}
		err := r.Unmarshal(s.Marshal())
		t.Check(err == nil, "unsafe signature does not decode from its encoding: %v", err)
		return r
	case 3, 4:
		r := &bls.UnsafeSignature{}
		err := r.Decompress(s.Compress())
		t.Check(err == nil, "unsafe signature does not decompress: %v", err)
		return r
	}
	return s
}

func (t *T) reApk(a *bls.Apk, how int) *bls.Apk {
	switch how {
	case 1:
		return a.Copy()
	case 2:
		r, err := bls.UnmarshalApk(a.Marshal())
		t.Check(err == nil, "aggregated key does not decode from its encoding: %v", err)
		return r
	case 3:
		b, err := a.MarshalText()
		t.Check(err == nil, "MarshalText: %v", err)
		r := &bls.Apk{PublicKey: &bls.PublicKey{}}
		err = r.UnmarshalText(b)
		t.Check(err == nil, "aggregated key does not decode from its text: %v", err)
		return r
	}
	return a
}

func (t *T) rePk(a *bls.PublicKey, how int) *bls.PublicKey {
	switch how {
	case 1, 2:
		r, err := bls.UnmarshalPk(a.Marshal())
		t.Check(err == nil, "key does not decode from its encoding: %v", err)
		return r
	case 3:
		b, err := a.MarshalText()
		t.Check(err == nil, "MarshalText: %v", err)
		r := &bls.PublicKey{}
		err = r.UnmarshalText(b)
		t.Check(err == nil, "key does not decode from its text: %v", err)
		return r
	}
	return a
}

func init() {
	props["C01"] = []string{"bls.sign", "bls.keygen"}
	props["C02"] = []string{"bls.verify", "bls.verifybits"}
	props["C03"] = []string{"bls.aggregate", "bls.binding", "bls.many"}
	props["C04"] = []string{"bls.batch", "bls.batchdup", "bls.batchlarge"}
	props["C05"] = []string{"bls.roundtrip", "bls.hostile"}

	unit("bls.sign", "generated key pairs (edge secrets included) x generated messages; every signature is compared with the formula computed from the known secret and verified in every form it can be obtained; distinct = (key, message, form)", 8, 32, blsSign)
	unit("bls.keygen", "key generation under scripted entropy readers (chunked, failing at each byte, given or system); distinct = (reader script, outcome)", 2, 8, blsKeygen)
	unit("bls.verify", "for generated (key, message): a set of keys, messages and signature points with known exponents, all offered to both verifiers and compared with the verdict of the exponent model; distinct = (key, message, signature) exponent triples", 8, 32, blsVerify)
	unit("bls.verifybits", "each single-bit change of a message (all bits of short messages, sampled in long ones), verified; distinct = (message, bit)", 8, 32, blsVerifyBits)
	unit("bls.many", "lists of 7 to 580 signers aggregated through every interface, compared with the exponent model; distinct = (number, signer left out)", 8, 32, blsAggregateLarge)
	unit("bls.aggregate", "random histories of aggregation calls on keys and signatures next to an exponent model; after every step all live values are compared with the model; distinct = (operation, resulting value)", 8, 32, blsAggregate)
	unit("bls.binding", "multisets of signers: every verdict for subsets, supersets, changed multiplicities, plain sums, rogue keys and other messages is compared with the exponent model; distinct = (key multiset, signature multiset, message)", 8, 32, blsBinding)
	unit("bls.batchlarge", "batches of 17 to 300 entries, complete and with one entry altered, exchanged or unsigned at the start, the middle, powers of two and the end, in the three batch verifiers; distinct = (size, position, alteration)", 8, 16, blsBatchLarge)
	unit("bls.batch", "batches with one entry altered, swapped, missing, added or with another signature, verdict compared with the exponent model, in the three batch verifiers; distinct = (batch, alteration)", 8, 32, blsBatch)
	unit("bls.batchdup", "batches with a repeated message at every pair of positions and near-equal messages; distinct = (size, positions, kind)", 4, 16, blsBatchDup)
	unit("bls.roundtrip", "values with known exponents, among them ones with leading zero bytes in their coordinates, through all encodings; distinct = value", 4, 16, blsRoundtrip)
	unit("bls.hostile", "byte strings (truncations, extensions, bit flips, unreduced coordinates, off-curve, off-subgroup, identity, flags, random) offered to every decoder; a decoder must agree with an independent big-integer validity oracle; distinct = (decoder, byte string)", 8, 32, blsHostile)
}

func blsSign(t *T) {
	for i := 0; i < t.N(60, 1000); i++ {
		var want *big.Int
		if i%2 == 1 {
			want = t.EdgeSecret()
		}
		k := t.newKey(want)
		if k == nil {
			continue
		}
		for j := 0; j < 3; j++ {
			msg := t.Msg()
			how := (i*3 + j) % 12
			t.Case(fmt.Sprintf("sign x=%x msg=%s", k.x, hx(msg)), func() {
				m := hashInt(msg)
				pk := t.rePk(k.pk, how%4)
				us, err := bls.UnsafeSign(k.sk, msg)
				if !t.Check(err == nil && us != nil, "UnsafeSign: %v", err) {
					return
				}
				s, err := bls.Sign(k.sk, pk, msg)
				if !t.Check(err == nil && s != nil, "Sign: %v", err) {
					return
				}
				t.Check(bytes.Equal(us.Marshal(), g1Bytes(mulq(k.x, m))), "the unsafe signature is not secret times digest times generator")
				t.Check(bytes.Equal(s.Marshal(), g1Bytes(mulq(k.x, m, k.t))), "the signature is not secret times digest times key digest times generator")
				s2, err := bls.Sign(k.sk, k.pk, append([]byte{}, msg...))
				t.Check(err == nil && bytes.Equal(s2.Marshal(), s.Marshal()), "signing twice gives different signatures")
				apk := t.reApk(bls.NewApk(pk), (how+1)%4)
				t.Check(bytes.Equal(apk.Marshal(), g2Bytes(k.xt())), "the aggregated key of one key is not the key times its digest")
				a, err := bls.AggregateApk([]*bls.PublicKey{pk})
				t.Check(err == nil && bytes.Equal(a.Marshal(), apk.Marshal()), "AggregateApk of one key differs from NewApk")
				for h := 0; h < nReSig; h++ {
					if h != how%nReSig && h != 0 && t.Tier == "quick" {
						continue
					}
					rs := t.reSig(s, h)
					err = bls.Verify(apk, msg, rs)
					t.Check(err == nil, "honest signature is rejected (form %d): %v", h, err)
					err = bls.VerifyUnsafe(pk, msg, t.reUsig(us, h%5))
					t.Check(err == nil, "honest unsafe signature is rejected (form %d): %v", h, err)
					t.Seen("verified", k.pb, msg, h)
				}
				t.Check(bytes.Equal(k.pk.Marshal(), k.pb), "the public key changed")
				t.Sample("secret %x, message %s: signature %s verified", k.x, hx(msg), hx(s.Marshal()))
			})
		}
	}
}

func blsKeygen(t *T) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	sys := newDRBG("sys", t.Uint64())
	for i := 0; i < t.N(40, 400); i++ {
		seed := t.Uint64()
		t.Case(fmt.Sprintf("keygen entropy=%x", seed), func() {
			crand.Reader = sys
			n0 := sys.count()
			var ref []byte
			for c := 0; c < 5; c++ {
				d := newDRBG("kg", seed)
				data := make([]byte, 4096)
				_, _ = d.Read(data)
				if i == 3 { // candidates above the group order have to be skipped
					copy(data, bytes.Repeat([]byte{0xff}, 64))
				}
				sizes := []int{1 << 20, 1, 7, 31, 33}
				r := &chunkReader{b: data, chunk: func() int { return sizes[c] }, failAt: -1, noEOF: true}
				pk, sk, err := bls.GenKeyPair(r)
				if !t.Check(err == nil && pk != nil && sk != nil, "GenKeyPair fails with a working reader: %v", err) {
					return
				}
				us, err := bls.UnsafeSign(sk, []byte{1})
				t.Check(err == nil && bls.VerifyUnsafe(pk, []byte{1}, us) == nil, "the pair does not sign and verify")
				if ref == nil {
					ref = pk.Marshal()
				}
				t.Check(bytes.Equal(ref, pk.Marshal()), "the key depends on something else than the reader's bytes")
				t.Check(r.pos >= 32, "only %d bytes of entropy were read for a 256-bit secret", r.pos)
				t.Seen("deterministic", seed, c)
			}
			t.Check(sys.count() == n0, "the system's source was read although a reader was given")
			// every byte of entropy matters: 32 bytes of entropy with one changed
			base := newDRBG("kg", seed)
			data := make([]byte, 4096)
			_, _ = base.Read(data)
			data[0] &= 0x3f
			gen := func(d []byte) []byte {
				pk, _, err := bls.GenKeyPair(bytes.NewReader(d))
				if err != nil {
					t.Violate("GenKeyPair: %v", err)
					return nil
				}
				return pk.Marshal()
			}
			r0 := gen(data)
			for b := 0; b < 32; b++ {
				d := append([]byte{}, data...)
				d[b] ^= 1 << t.IntN(6)
				t.Check(!bytes.Equal(gen(d), r0), "byte %d of the entropy does not influence the key", b)
			}
			// failing readers
			for f := 0; f < 32; f++ {
				r := &chunkReader{b: append([]byte{}, data...), chunk: func() int { return 1 + t.IntN(40) }, failAt: f}
				pk, sk, err := bls.GenKeyPair(r)
				t.Check(err != nil, "GenKeyPair succeeds with a reader which fails after %d bytes", f)
				t.Check(pk == nil && sk == nil, "GenKeyPair returns keys together with an error")
				_, _, err = bls.GenKeyPair(&chunkReader{b: append([]byte{}, data...), chunk: func() int { return 1 + t.IntN(40) }, failAt: f, once: true})
				t.Check(err != nil, "GenKeyPair succeeds with a reader which fails once after %d bytes", f)
				_, _, err = bls.GenKeyPair(bytes.NewReader(data[:f]))
				t.Check(err != nil, "GenKeyPair succeeds with a reader which ends after %d bytes", f)
				t.Seen("failing", seed, f)
			}
			// the system's source
			pub := func(s uint64) []byte {
				d := newDRBG("s", s)
				crand.Reader = d
				pk, _, err := bls.GenKeyPair(nil)
				t.Check(err == nil, "GenKeyPair(nil): %v", err)
				t.Check(d.count() >= 32, "GenKeyPair(nil) read %d bytes of the system's source", d.count())
				return pk.Marshal()
			}
			a, b, c := pub(seed), pub(seed), pub(seed+1)
			t.Check(bytes.Equal(a, b), "GenKeyPair(nil) depends on something else than the system's source")
			t.Check(!bytes.Equal(a, c), "GenKeyPair(nil) gives the same key for different entropy")
			t.Seen("system", seed)
			t.Sample("entropy stream %x: key %s under 5 chunkings; 64 failing readers refused", seed, hx(ref))
		})
	}
}

func blsVerify(t *T) {
	for i := 0; i < t.N(7, 120); i++ {
		k := t.newKey(t.EdgeSecret())
		o := t.newKey(nil)
		if k == nil || o == nil {
			continue
		}
		msg := t.Msg()
		m := hashInt(msg)
		msg2 := t.MutateMsg(msg)
		t.Case(fmt.Sprintf("verify x=%x msg=%s", k.x, hx(msg)), func() {
			one := big.NewInt(1)
			for _, safe := range []bool{true, false} {
				key := k.x
				if safe {
					key = k.xt()
				}
				keyO := o.x
				if safe {
					keyO = o.xt()
				}
				good := mulq(key, m)
				keys := []*big.Int{key, negq(key), keyO, addq(key, keyO), addq(key, one), mulq(key, key), k.x, k.xt(), mulq(k.x, k.t, k.t), mulq(key, big.NewInt(2))}
				sigs := []*big.Int{good, negq(good), addq(good, one), addq(good, negq(one)), mulq(good, big.NewInt(2)), new(big.Int), m, mod(m), key, mulq(k.x, m), mulq(k.x, m, k.t), mulq(keyO, m), mulq(key, hashInt(msg2)), one, mulq(good, k.t), mulq(good, m), addq(mulq(key, m), mulq(keyO, m)), mulq(good, new(big.Int).ModInverse(k.t, q))}
				verdict := func(key, s *big.Int, msg []byte) {
					if key.Sign() == 0 {
						return
					}
					want := mulq(key, hashInt(msg)).Cmp(mod(s)) == 0
					var err error
					if safe {
						how := t.IntN(nReSig)
						if s.Sign() == 0 {
							how = 0
						}
						err = bls.Verify(t.reApk(t.apkOf(key), t.IntN(4)), msg, t.reSig(t.sigOf(s), how))
					} else {
						how := t.IntN(5)
						if s.Sign() == 0 {
							how = 0
						}
						err = bls.VerifyUnsafe(t.rePk(t.pkOf(key), t.IntN(4)), msg, t.reUsig(t.usigOf(s), how))
					}
					t.Check((err == nil) == want, "safe=%v key %x signature %x message %s: verdict %v, the scheme says %v", safe, key, s, hx(msg), err == nil, want)
					t.Seen(fmt.Sprintf("verdict-%v", want), safe, key, mod(s), msg)
				}
				for _, s := range sigs {
					verdict(key, s, msg)
				}
				for _, kk := range keys {
					verdict(kk, good, msg)
				}
				verdict(key, good, msg2)
				verdict(key, mulq(key, hashInt(msg2)), msg2)
				verdict(keyO, mulq(keyO, m), msg)
				for _, h := range [][]byte{nil, {}, sha3sum(msg), append(append([]byte{}, msg...), k.pb...)} {
					verdict(key, good, h)
				}
				for r := 0; r < 3; r++ {
					verdict(keys[t.IntN(len(keys))], sigs[t.IntN(len(sigs))], msg)
					verdict(key, mod(new(big.Int).SetBytes(t.Bytes(40))), msg)
				}
			}
			t.Sample("key %s message %s: about 90 (key, signature, message) triples judged", hx(k.pb), hx(msg))
		})
	}
	if t.Shard == 0 {
		// KF1: the message hash is a known multiple of the generator, so anyone can
		// move a signature from one message to another.
		t.Case("KF1 transfer of a signature", func() {
			k := t.newKey(nil)
			s, _ := bls.Sign(k.sk, k.pk, []byte("pay 1"))
			f := mulq(hashInt([]byte("pay 1000")), new(big.Int).ModInverse(hashInt([]byte("pay 1")), q))
			p := new(bn256.G1)
			_, _ = p.Unmarshal(s.Marshal())
			forged, err := bls.UnmarshalSignature(new(bn256.G1).ScalarMult(p, f).Marshal())
			if err == nil && bls.Verify(bls.NewApk(k.pk), []byte("pay 1000"), forged) == nil {
				t.Known("KF1", "a signature on one message multiplied by h(m2)/h(m1) verifies for m2 without the secret key (message hash with a known discrete logarithm)")
			}
		})
	}
}

func sha3sum(b []byte) []byte { h := sha3.Sum256(b); return h[:] }

func blsVerifyBits(t *T) {
	k := t.newKey(nil)
	if k == nil {
		return
	}
	apk := bls.NewApk(k.pk)
	sizes := []int{1, 32, 33, 64}
	if t.Tier == "thorough" {
		sizes = []int{1, 31, 32, 33, 64, 65, 136, 137, 300}
	}
	bit := 0
	flip := func(n, max int) {
		msg := t.Bytes(n)
		s, err := bls.Sign(k.sk, k.pk, msg)
		us, err2 := bls.UnsafeSign(k.sk, msg)
		if !t.Check(err == nil && err2 == nil, "signing: %v %v", err, err2) {
			return
		}
		t.Case(fmt.Sprintf("bits of message %s", hx(msg)), func() {
			for j := 0; j < max; j++ {
				b := j
				if max < 8*n {
					b = t.IntN(8 * n)
					switch j {
					case 0:
						b = 8*n - 1
					case 1:
						b = 8*(n-1) - 8*t.IntN(8)
					case 2:
						b = 0
					}
				} else {
					bit++
					if bit%t.Shards != t.Shard {
						continue
					}
				}
				c := append([]byte{}, msg...)
				c[b/8] ^= 1 << (b % 8)
				if b%2 == 0 || max < 8*n {
					t.Check(bls.Verify(apk, c, s) != nil, "signature on a message of %d bytes accepted after flipping bit %d", n, b)
				}
				if b%2 == 1 || max < 8*n {
					t.Check(bls.VerifyUnsafe(k.pk, c, us) != nil, "unsafe signature on a message of %d bytes accepted after flipping bit %d", n, b)
				}
				t.Seen("flip", msg, b)
			}
			for _, c := range [][]byte{msg[:n-1], append(append([]byte{}, msg...), 0), append([]byte{0}, msg...), msg[1:], bytes.TrimRight(append(append([]byte{}, msg...), 0, 0), "\x01"), append(append([]byte{}, msg...), msg...)} {
				if !bytes.Equal(c, msg) {
					t.Check(bls.Verify(apk, c, s) != nil, "signature accepted for a message of length %d instead of %d", len(c), n)
					t.Seen("length", msg, len(c))
				}
			}
		})
	}
	for _, n := range sizes {
		flip(n, 8*n)
	}
	for i := 0; i < t.N(2, 20); i++ {
		flip(500+t.IntN(1<<14), t.N(12, 60))
	}
	long := []int{4096, 4097, 32768, 65535, 65536, 65537, 1<<17 + 5, 1<<20 + 1}
	flip(long[t.Shard%8], 10)
	flip(long[(t.Shard+5)%8]+t.IntN(100), 10)
	t.Sample("all bits of messages of %v bytes, sampled bits of long ones", sizes)
}

// blsAggregateLarge aggregates many signers at once.
func blsAggregateLarge(t *T) {
	n := []int{7, 17, 33, 65, 100, 130, 260, 520}[t.Shard%8]
	if t.Tier == "thorough" {
		n += t.IntN(60)
	}
	ks := t.bkeys(n)
	msg := t.Msg()
	m := hashInt(msg)
	t.Case(fmt.Sprintf("%d signers of %s", n, hx(msg)), func() {
		var pks []*bls.PublicKey
		var us []*bls.UnsafeSignature
		var sig *bls.Signature
		e, ue := new(big.Int), new(big.Int)
		one := bls.NewApk(ks[0].pk)
		for j, k := range ks {
			pks = append(pks, k.pk)
			e, ue = addq(e, k.xt()), addq(ue, k.x)
			u, err := bls.UnsafeSign(k.sk, msg)
			if !t.Check(err == nil, "UnsafeSign: %v", err) {
				return
			}
			us = append(us, u)
			s, err := bls.Sign(k.sk, k.pk, msg)
			if !t.Check(err == nil, "Sign: %v", err) {
				return
			}
			if j == 0 {
				sig = s
				continue
			}
			t.Check(one.Aggregate(k.pk) == nil, "Aggregate fails")
			switch j % 3 {
			case 0:
				sig.Aggregate(s)
			case 1:
				err = sig.AggregateBytes(s.Marshal())
			case 2:
				err = sig.Add(k.pk, u)
			}
			t.Check(err == nil, "aggregating signature %d: %v", j, err)
		}
		apk, err := bls.AggregateApk(pks)
		t.Check(err == nil && bytes.Equal(apk.Marshal(), g2Bytes(e)), "the aggregated key of %d signers is not the weighted sum (%v)", n, err)
		t.Check(bytes.Equal(one.Marshal(), g2Bytes(e)), "the key aggregated one by one of %d signers is not the weighted sum", n)
		t.Check(bytes.Equal(sig.Marshal(), g1Bytes(mulq(e, m))), "the aggregated signature of %d signers is not the sum", n)
		ub, err := bls.UnsafeBatch(us...)
		t.Check(err == nil && bytes.Equal(ub.Marshal(), g1Bytes(mulq(ue, m))), "the batch of %d unsafe signatures is not the sum (%v)", n, err)
		t.Check(bls.Verify(apk, msg, sig) == nil, "the aggregate of %d signers is rejected", n)
		for _, j := range []int{0, n / 2, n - 1} {
			rest := append(append([]*bls.PublicKey{}, pks[:j]...), pks[j+1:]...)
			a2, err := bls.AggregateApk(rest)
			t.Check(err == nil && bls.Verify(a2, msg, sig) != nil, "the aggregate of %d signers is accepted without key %d", n, j)
			p := t.Perm(n)
			var mixed []*bls.PublicKey
			for _, l := range p {
				mixed = append(mixed, pks[l])
			}
			a3, err := bls.AggregateApk(mixed)
			t.Check(err == nil && bytes.Equal(a3.Marshal(), apk.Marshal()), "the aggregated key of %d signers depends on the order", n)
			t.Seen("large", n, j, e)
		}
		t.Sample("%d signers", n)
	})
}

// blsAggregate runs histories of aggregation calls next to the exponent model.
func blsAggregate(t *T) {
	for i := 0; i < t.N(24, 300); i++ {
		ks := t.bkeys(2 + t.IntN(4))
		msg := t.Msg()
		m := hashInt(msg)
		t.Case(fmt.Sprintf("aggregation history %d over %d signers of %s", i, len(ks), hx(msg)), func() {
			type apkV struct {
				v *bls.Apk
				e *big.Int
			}
			type sigV struct {
				v *bls.Signature
				e *big.Int
			}
			type usigV struct {
				v *bls.UnsafeSignature
				e *big.Int
			}
			type pkV struct {
				v *bls.PublicKey
				e *big.Int
			}
			var apks []*apkV
			var sigs []*sigV
			var usigs []*usigV
			var pks []*pkV
			for _, k := range ks {
				pks = append(pks, &pkV{k.pk, k.x})
				apks = append(apks, &apkV{bls.NewApk(k.pk), k.xt()})
				s, err := bls.Sign(k.sk, k.pk, msg)
				t.Check(err == nil, "Sign: %v", err)
				sigs = append(sigs, &sigV{s, mulq(k.xt(), m)})
				u, err := bls.UnsafeSign(k.sk, msg)
				t.Check(err == nil, "UnsafeSign: %v", err)
				usigs = append(usigs, &usigV{u, mulq(k.x, m)})
			}
			audit := func(op string) {
				for _, a := range apks {
					t.Check(bytes.Equal(a.v.Marshal(), g2Bytes(a.e)), "after %s: an aggregated key differs from the sum the calls describe", op)
				}
				for _, a := range pks {
					t.Check(bytes.Equal(a.v.Marshal(), g2Bytes(a.e)), "after %s: a public key differs from the sum the calls describe", op)
				}
				for _, a := range sigs {
					t.Check(bytes.Equal(a.v.Marshal(), g1Bytes(a.e)), "after %s: a signature differs from the sum the calls describe", op)
				}
				for _, a := range usigs {
					t.Check(bytes.Equal(a.v.Marshal(), g1Bytes(a.e)), "after %s: an unsafe signature differs from the sum the calls describe", op)
				}
			}
			trace := ""
			for step := 0; step < t.N(14, 30); step++ {
				op := t.IntN(17)
				k := ks[t.IntN(len(ks))]
				a := apks[t.IntN(len(apks))]
				s := sigs[t.IntN(len(sigs))]
				u := usigs[t.IntN(len(usigs))]
				p := pks[t.IntN(len(pks))]
				name := ""
				var err error
				switch op {
				case 0:
					name = "Apk.Aggregate"
					err = a.v.Aggregate(p.v)
					a.e = addq(a.e, mulq(p.e, hashInt(g2Bytes(p.e))))
				case 1:
					name = "Apk.AggregateBytes"
					err = a.v.AggregateBytes(k.pb)
					a.e = addq(a.e, k.xt())
				case 2:
					name = "AggregateApk"
					var l []*bls.PublicKey
					e := new(big.Int)
					for j := 0; j < 1+t.IntN(7); j++ {
						kk := ks[t.IntN(len(ks))]
						l = append(l, kk.pk)
						e = addq(e, kk.xt())
					}
					var v *bls.Apk
					v, err = bls.AggregateApk(l)
					apks = append(apks, &apkV{v, e})
				case 3:
					name = "Apk.Copy"
					apks = append(apks, &apkV{a.v.Copy(), a.e})
				case 4:
					name = "NewApk"
					apks = append(apks, &apkV{bls.NewApk(p.v), mulq(p.e, hashInt(g2Bytes(p.e)))})
				case 5:
					name = "Signature.Aggregate"
					o := sigs[t.IntN(len(sigs))]
					e := addq(s.e, o.e)
					r := s.v.Aggregate(o.v)
					s.e = e
					t.Check(r == s.v, "Aggregate does not return its receiver")
				case 6:
					name = "Signature.AggregateBytes"
					o := sigs[t.IntN(len(sigs))]
					b := o.v.Marshal()
					if t.IntN(2) == 0 && o.e.Sign() != 0 {
						b = o.v.Compress()
					}
					err = s.v.AggregateBytes(b)
					s.e = addq(s.e, o.e)
				case 7:
					name = "Signature.Add"
					err = s.v.Add(k.pk, u.v)
					s.e = addq(s.e, mulq(u.e, k.t))
				case 8:
					name = "Signature.Copy"
					sigs = append(sigs, &sigV{s.v.Copy(), s.e})
				case 9:
					name = "UnsafeAggregate"
					o := usigs[t.IntN(len(usigs))]
					usigs = append(usigs, &usigV{bls.UnsafeAggregate(u.v, o.v), addq(u.e, o.e)})
				case 10:
					name = "UnsafeBatch"
					var l []*bls.UnsafeSignature
					e := new(big.Int)
					for j := 0; j < 1+t.IntN(6); j++ {
						uu := usigs[t.IntN(len(usigs))]
						l = append(l, uu.v)
						e = addq(e, uu.e)
					}
					var v *bls.UnsafeSignature
					v, err = bls.UnsafeBatch(l...)
					usigs = append(usigs, &usigV{v, e})
				case 11:
					name = "PublicKey.Aggregate"
					o := pks[t.IntN(len(pks))]
					e := addq(p.e, o.e)
					if e.Sign() == 0 {
						continue
					}
					pks = append(pks, &pkV{p.v.Aggregate(o.v), e})
				case 15, 16: // the key inside an aggregated key, also of the one aggregated into
					o := apks[t.IntN(len(apks))]
					if op == 16 {
						o = a
					}
					if o.e.Sign() == 0 || a.e.Sign() == 0 {
						continue
					}
					et := mulq(o.e, hashInt(g2Bytes(o.e)))
					switch t.IntN(4) {
					case 0, 1:
						name = fmt.Sprintf("Apk.Aggregate of the key inside an aggregated key (itself: %v)", o == a)
						e := addq(a.e, et)
						err = a.v.Aggregate(o.v.PublicKey)
						a.e = e
					case 2:
						name = "NewApk of the key inside an aggregated key"
						apks = append(apks, &apkV{bls.NewApk(o.v.PublicKey), et})
					case 3:
						name = "AggregateApk of the keys inside aggregated keys"
						var v *bls.Apk
						v, err = bls.AggregateApk([]*bls.PublicKey{o.v.PublicKey, k.pk, o.v.PublicKey})
						apks = append(apks, &apkV{v, addq(addq(et, et), k.xt())})
					}
				case 12:
					name = "aggregating the negation"
					// the negation of a value: sums may become the identity
					sigs = append(sigs, &sigV{t.sigOf(negq(s.e)), negq(s.e)})
				case 13:
					name = "overwriting a value"
					b := g1Bytes(m)
					err = u.v.Unmarshal(b)
					u.e = mod(m)
				case 14:
					name = "decoding over a value"
					err = s.v.Unmarshal(g1Bytes(mulq(m, m)))
					s.e = mulq(m, m)
				}
				trace += name + ";"
				t.Check(err == nil, "%s: %v (history %s)", name, err, trace)
				audit(trace)
				t.Seen(name, len(apks), len(sigs), len(usigs), a.e, s.e, u.e)
			}
			t.Sample("%s", trace)
		})
	}
}

func perm(t *T, n int) []int { return t.Perm(n) }

func blsBinding(t *T) {
	for i := 0; i < t.N(16, 200); i++ {
		n := 2 + t.IntN(4)
		ks := t.bkeys(n)
		msg, msg2 := t.Msg(), []byte(nil)
		msg2 = t.MutateMsg(msg)
		m := hashInt(msg)
		t.Case(fmt.Sprintf("binding %d: %d signers of %s", i, n, hx(msg)), func() {
			count := make([]int, n)
			var idx []int
			for j := range count {
				count[j] = t.IntN(4)
				if j == 0 && count[j] == 0 {
					count[j] = 1
				}
				for c := 0; c < count[j]; c++ {
					idx = append(idx, j)
				}
			}
			exp := func(cnt []int) *big.Int {
				e := new(big.Int)
				for j, c := range cnt {
					e = addq(e, mulq(ks[j].xt(), big.NewInt(int64(c))))
				}
				return e
			}
			// build the pair through a random order and API
			build := func(cnt []int) (*bls.Apk, *bls.Signature) {
				var idx []int
				for j, c := range cnt {
					for ; c > 0; c-- {
						idx = append(idx, j)
					}
				}
				if len(idx) == 0 {
					return nil, nil
				}
				t.Rand.Shuffle(len(idx), func(a, b int) { idx[a], idx[b] = idx[b], idx[a] })
				var l []*bls.PublicKey
				for _, j := range idx {
					l = append(l, ks[j].pk)
				}
				var apk *bls.Apk
				var err error
				if t.IntN(2) == 0 {
					apk, err = bls.AggregateApk(l)
					t.Check(err == nil, "AggregateApk: %v", err)
				} else {
					apk = bls.NewApk(l[0])
					for j, pk := range l[1:] {
						if t.IntN(2) == 0 {
							err = apk.Aggregate(pk)
						} else {
							err = apk.AggregateBytes(ks[idx[j+1]].pb)
						}
						t.Check(err == nil, "Aggregate: %v", err)
					}
				}
				t.Rand.Shuffle(len(idx), func(a, b int) { idx[a], idx[b] = idx[b], idx[a] })
				var sig *bls.Signature
				for c, j := range idx {
					s, err := bls.Sign(ks[j].sk, ks[j].pk, msg)
					t.Check(err == nil, "Sign: %v", err)
					if c == 0 {
						sig = s
						continue
					}
					switch t.IntN(3) {
					case 0:
						sig.Aggregate(s)
					case 1:
						err = sig.AggregateBytes(s.Marshal())
					case 2:
						us, _ := bls.UnsafeSign(ks[j].sk, msg)
						err = sig.Add(ks[j].pk, us)
					}
					t.Check(err == nil, "aggregating signatures: %v", err)
				}
				return apk, sig
			}
			apk, sig := build(count)
			e := exp(count)
			t.Check(bytes.Equal(apk.Marshal(), g2Bytes(e)), "multiset %v: the aggregated key is not the weighted sum", count)
			t.Check(bytes.Equal(sig.Marshal(), g1Bytes(mulq(e, m))), "multiset %v: the aggregated signature is not the sum", count)
			err := bls.Verify(apk, msg, sig)
			t.Check(err == nil, "aggregate over multiset %v is rejected: %v", count, err)
			t.Check(bls.Verify(apk, msg2, sig) != nil, "aggregate accepted for another message")
			t.Seen("accept", fmt.Sprint(count), e)
			for j := range count {
				for _, d := range []int{-1, 1} {
					c2 := append([]int{}, count...)
					c2[j] += d
					if c2[j] < 0 {
						continue
					}
					e2 := exp(c2)
					if e2.Sign() == 0 {
						continue
					}
					a2, s2 := build(c2)
					t.Check(bls.Verify(a2, msg, sig) != nil, "signature of multiset %v accepted for keys of %v", count, c2)
					t.Check(bls.Verify(apk, msg, s2) != nil, "signature of multiset %v accepted for keys of %v", c2, count)
					t.Seen("reject", fmt.Sprint(count, c2), e2)
				}
			}
			// plain sums: keys and signatures without the weights
			plain, pe := ks[0].pk, ks[0].x
			us, _ := bls.UnsafeSign(ks[0].sk, msg)
			for _, k := range ks[1:] {
				plain = plain.Aggregate(k.pk)
				pe = addq(pe, k.x)
				u2, _ := bls.UnsafeSign(k.sk, msg)
				us = bls.UnsafeAggregate(us, u2)
			}
			all := make([]int, n)
			for j := range all {
				all[j] = 1
			}
			apkAll, sigAll := build(all)
			plainSig := t.sigOf(mulq(pe, m))
			t.Check(bytes.Equal(us.Marshal(), plainSig.Marshal()), "the sum of unsafe signatures is not the sum")
			t.Check(bls.Verify(apkAll, msg, plainSig) != nil, "the plain sum of signatures verifies under the aggregated key")
			pa := t.apkOf(pe)
			t.Check(bls.Verify(pa, msg, sigAll) != nil, "the aggregated signature verifies under the plain sum of keys")
			t.Check(bls.VerifyUnsafe(plain, msg, us) == nil, "unsafe multisignature over the sum of keys is rejected")
			// the digest of the sum instead of each key's digest
			ps := t.sigOf(mulq(pe, m, hashInt(g2Bytes(pe))))
			t.Check(bls.Verify(apkAll, msg, ps) != nil, "the signature weighted by the digest of the sum verifies under the aggregated key")
			// rogue key: y*G2 - pk0; the attacker knows only y
			y := mod(new(big.Int).SetBytes(t.Bytes(40)))
			rogue := addq(y, negq(ks[0].x))
			rpk := t.pkOf(rogue)
			if rpk == nil {
				return
			}
			ra, err := bls.AggregateApk([]*bls.PublicKey{ks[0].pk, rpk})
			t.Check(err == nil, "AggregateApk: %v", err)
			re := addq(ks[0].xt(), mulq(rogue, hashInt(g2Bytes(rogue))))
			t.Check(bytes.Equal(ra.Marshal(), g2Bytes(re)), "aggregated key with a rogue key is not the weighted sum")
			for _, f := range []*big.Int{y, mulq(y, ks[0].t), mulq(y, hashInt(g2Bytes(rogue))), mulq(y, hashInt(g2Bytes(y))), mulq(y, ks[0].t, hashInt(g2Bytes(rogue))), addq(mulq(y, ks[0].t), mulq(y, hashInt(g2Bytes(rogue))))} {
				t.Check(bls.Verify(ra, msg, t.sigOf(mulq(f, m))) != nil, "a rogue-key forgery verifies")
				t.Seen("rogue", f)
			}
			// plain rogue key weighted once, as if all keys shared a digest
			t.Sample("multiset %v of %d signers, order and API random: accepted; %d neighbours rejected", count, n, 2*n)
		})
	}
}

type batch struct {
	ks   []*bkey
	msgs [][]byte
	keyE []*big.Int // exponents of the keys offered
}

// blsVerifyBatches offers a batch to the three verifiers and compares verdicts.
func (t *T) blsJudge(what string, keyE []*big.Int, msgs [][]byte, sigE *big.Int, kinds ...int) {
	sum := new(big.Int)
	okShape := len(keyE) == len(msgs) && len(keyE) > 0
	dup := false
	seen := map[string]bool{}
	for _, mm := range msgs {
		if seen[string(mm)] {
			dup = true
		}
		seen[string(mm)] = true
	}
	if okShape {
		for i := range keyE {
			sum = addq(sum, mulq(keyE[i], hashInt(msgs[i])))
		}
	}
	right := okShape && sum.Cmp(mod(sigE)) == 0
	if len(kinds) == 0 {
		kinds = []int{0, 1, 2, 3}
	}
	for _, kind := range kinds {
		want := right && !dup
		var err error
		switch kind {
		case 0:
			var l []*bls.Apk
			for _, e := range keyE {
				l = append(l, t.apkOf(e))
			}
			s := t.sigOf(sigE)
			t.NoPanic("VerifyBatch", func() { err = bls.VerifyBatch(l, msgs, s) })
		case 1:
			var l []*bls.PublicKey
			for _, e := range keyE {
				l = append(l, t.pkOf(e))
			}
			s := t.usigOf(sigE)
			t.NoPanic("VerifyUnsafeBatch", func() { err = bls.VerifyUnsafeBatch(l, msgs, s) })
		case 2, 3:
			if kind == 3 {
				want = right
			}
			if mod(sigE).Sign() == 0 {
				continue
			}
			var l []*bn256.G2
			for _, e := range keyE {
				l = append(l, new(bn256.G2).ScalarBaseMult(mod(e)))
			}
			cs := t.sigOf(sigE).Compress()
			t.NoPanic("VerifyCompressed", func() { err = bls.VerifyCompressed(l, msgs, cs, kind == 3) })
		}
		t.Check((err == nil) == want, "%s: verifier %d says %v (%v), the scheme says %v; %d keys %d messages duplicate=%v", what, kind, err == nil, err, want, len(keyE), len(msgs), dup)
		t.Seen(fmt.Sprintf("verifier%d-%v", kind, want), what, mod(sigE), len(keyE), len(msgs), msgs)
	}
}

func blsBatch(t *T) {
	for i := 0; i < t.N(3, 40); i++ {
		n := []int{1, 2, 3, 5, 8}[(i*t.Shards+t.Shard)%5]
		ks := t.bkeys(n + 1)
		var keyE []*big.Int
		var msgs [][]byte
		sum := new(big.Int)
		for j := 0; j < n; j++ {
			e := ks[j].x
			if t.IntN(2) == 0 {
				e = ks[j].xt()
			}
			keyE = append(keyE, e)
			mm := append(t.Msg(), byte(j)) // distinct
			msgs = append(msgs, mm)
		}
		for a := range msgs {
			for b := 0; b < a; b++ {
				if bytes.Equal(msgs[a], msgs[b]) {
					msgs[a] = append(msgs[a], byte(a), byte(a))
				}
			}
		}
		for j := range keyE {
			sum = addq(sum, mulq(keyE[j], hashInt(msgs[j])))
		}
		extra := append(t.Msg(), 0xee, 0xee)
		t.Case(fmt.Sprintf("batch %d of %d", i, n), func() {
			t.blsJudge("complete", keyE, msgs, sum)
			// through the signing API
			var us []*bls.UnsafeSignature
			var pks []*bls.PublicKey
			var apks []*bls.Apk
			var agg *bls.Signature
			for j := 0; j < n; j++ {
				u, _ := bls.UnsafeSign(ks[j].sk, msgs[j])
				us = append(us, u)
				pks = append(pks, ks[j].pk)
				apks = append(apks, bls.NewApk(ks[j].pk))
				s, _ := bls.Sign(ks[j].sk, ks[j].pk, msgs[j])
				if agg == nil {
					agg = s
				} else {
					agg.Aggregate(s)
				}
			}
			ub, err := bls.UnsafeBatch(us...)
			t.Check(err == nil, "UnsafeBatch: %v", err)
			err = bls.VerifyUnsafeBatch(pks, msgs, ub)
			t.Check(err == nil, "honest batch is rejected: %v", err)
			err = bls.VerifyBatch(apks, msgs, agg)
			t.Check(err == nil, "honest batch of aggregated keys is rejected: %v", err)

			p := t.Perm(n)
			var pk2 []*big.Int
			var pm2 [][]byte
			for _, j := range p {
				pk2 = append(pk2, keyE[j])
				pm2 = append(pm2, msgs[j])
			}
			t.blsJudge("permuted", pk2, pm2, sum, t.IntN(4))
			for j := 0; j < n; j++ {
				kind := t.IntN(4)
				alt := append([][]byte{}, msgs...)
				alt[j] = t.MutateMsg(msgs[j])
				t.blsJudge(fmt.Sprintf("message %d altered", j), keyE, alt, sum, kind, (kind+1)%4)
				ke := append([]*big.Int{}, keyE...)
				ke[j] = ks[n].x
				t.blsJudge(fmt.Sprintf("key %d replaced", j), ke, msgs, sum, (kind+1)%4)
				ke = append([]*big.Int{}, keyE...)
				ke[j] = negq(ke[j])
				t.blsJudge(fmt.Sprintf("key %d negated", j), ke, msgs, sum, (kind+2)%4)
				if n > 1 {
					ke = append(append([]*big.Int{}, keyE[:j]...), keyE[j+1:]...)
					km := append(append([][]byte{}, msgs[:j]...), msgs[j+1:]...)
					t.blsJudge(fmt.Sprintf("entry %d missing", j), ke, km, sum, kind)
					// the signature of the entry missing
					t.blsJudge(fmt.Sprintf("signature %d missing", j), keyE, msgs, addq(sum, negq(mulq(keyE[j], hashInt(msgs[j])))), (kind+1)%4)
					l := (j + 1 + t.IntN(n-1)) % n
					sw := append([][]byte{}, msgs...)
					sw[j], sw[l] = sw[l], sw[j]
					t.blsJudge(fmt.Sprintf("messages %d and %d swapped", j, l), keyE, sw, sum, kind, (kind+2)%4)
				}
				t.blsJudge(fmt.Sprintf("key %d missing", j), append(append([]*big.Int{}, keyE[:j]...), keyE[j+1:]...), msgs, sum)
				t.blsJudge(fmt.Sprintf("message %d missing", j), keyE, append(append([][]byte{}, msgs[:j]...), msgs[j+1:]...), sum)
			}
			t.blsJudge("entry added", append(append([]*big.Int{}, keyE...), ks[n].x), append(append([][]byte{}, msgs...), extra), sum, 0, 1, 2)
			t.blsJudge("key added", append(append([]*big.Int{}, keyE...), ks[n].x), msgs, sum)
			t.blsJudge("message added", keyE, append(append([][]byte{}, msgs...), extra), sum)
			t.blsJudge("message added and signed", keyE, append(append([][]byte{}, msgs...), extra), addq(sum, mulq(ks[0].x, hashInt(extra))))
			t.blsJudge("signature off by the generator", keyE, msgs, addq(sum, big.NewInt(1)), 0, 1, 2)
			t.blsJudge("signature negated", keyE, msgs, negq(sum), 0, 1, 2)
			t.blsJudge("identity as signature", keyE, msgs, new(big.Int), 0, 1)
			t.blsJudge("empty", nil, nil, sum)
			t.blsJudge("empty with identity", nil, nil, new(big.Int))
			t.blsJudge("no messages", keyE, nil, sum)
			t.blsJudge("no keys", nil, msgs, sum)
			if n > 1 {
				// equal total, different pairing: exponents chosen so that only the pairing matters
				ke := append([]*big.Int{}, keyE...)
				ke[0], ke[n-1] = ke[n-1], ke[0]
				t.blsJudge("keys swapped", ke, msgs, sum)
				// a false batch whose errors cancel is right for the sum
				d := big.NewInt(5)
				ke = append([]*big.Int{}, keyE...)
				ke[0] = addq(ke[0], mulq(d, hashInt(msgs[1])))
				ke[1] = addq(ke[1], negq(mulq(d, hashInt(msgs[0]))))
				t.blsJudge("compensated keys", ke, msgs, sum, 0, 1)
				// the unsafe signatures of distinct signers cannot be exchanged for another's key
				t.blsJudge("all keys equal", repeatBig(keyE[0], n), msgs, sum, 0, 1, 2)
			}
			// hostile compressed signatures
			good := t.sigOf(sum).Compress()
			var l []*bn256.G2
			for _, e := range keyE {
				l = append(l, new(bn256.G2).ScalarBaseMult(e))
			}
			for _, c := range [][]byte{nil, {}, good[:32], good[:1], append(append([]byte{}, good...), 0), make([]byte, 33), bytes.Repeat([]byte{0xff}, 33), t.sigOf(sum).Marshal(), append(append([]byte{}, good[:32]...), 2), append(append([]byte{}, good[:32]...), good[32]^1)} {
				var err error
				t.NoPanic("VerifyCompressed of hostile bytes", func() { err = bls.VerifyCompressed(l, msgs, c, i%2 == 0) })
				t.Check(err != nil, "VerifyCompressed accepts %s", hx(c))
				t.Seen("hostile-compressed", c)
			}
			t.Sample("batch of %d keys: complete and permuted accepted, %d alterations rejected", n, 8*n)
		})
	}
}

func blsBatchLarge(t *T) {
	n := []int{17, 33, 65, 129, 257, 100, 200, 300}[t.Shard%8]
	if t.Tier == "thorough" {
		n += t.IntN(100)
	}
	var g2s []*bn256.G2
	var pks []*bls.PublicKey
	var apks []*bls.Apk
	var es []*big.Int
	var msgs [][]byte
	sum := new(big.Int)
	// the keys are multiples of a random one, to have them cheaply
	x := t.newKey(nil).x
	for j := 0; j < n; j++ {
		e := addq(x, big.NewInt(int64(3*j)))
		p := t.pkOf(e)
		es = append(es, e)
		pks = append(pks, p)
		apks = append(apks, &bls.Apk{PublicKey: p})
		g2s = append(g2s, new(bn256.G2).ScalarBaseMult(e))
		msgs = append(msgs, append(le8(uint64(j)), t.Bytes(t.IntN(30))...))
		sum = addq(sum, mulq(e, hashInt(msgs[j])))
	}
	judge := func(what string, ms [][]byte, sig *big.Int, want bool, kinds ...int) {
		t.Case(fmt.Sprintf("batch of %d, %s", n, what), func() {
			for _, k := range kinds {
				var err error
				switch k {
				case 0:
					err = bls.VerifyBatch(apks, ms, t.sigOf(sig))
				case 1:
					err = bls.VerifyUnsafeBatch(pks, ms, t.usigOf(sig))
				case 2:
					err = bls.VerifyCompressed(g2s, ms, t.sigOf(sig).Compress(), false)
				case 3:
					err = bls.VerifyCompressed(g2s, ms, t.sigOf(sig).Compress(), true)
				}
				t.Check((err == nil) == want, "%s: verifier %d says %v, the scheme says %v", what, k, err, want)
				t.Seen("batch", n, what, k)
			}
		})
	}
	judge("complete", msgs, sum, true, 0, 1, 2, 3)
	at := []int{0, n - 1, n / 2, 1 + t.IntN(n-2)}
	for p := 16; p < n; p *= 2 {
		at = append(at, p)
	}
	for i, j := range at {
		alt := append([][]byte{}, msgs...)
		switch i % 4 {
		case 0:
			alt[j] = t.MutateMsg(msgs[j])
			judge(fmt.Sprintf("message %d altered", j), alt, sum, false, (i/4+t.Shard)%4)
		case 1:
			judge(fmt.Sprintf("entry %d not signed", j), msgs, addq(sum, negq(mulq(es[j], hashInt(msgs[j])))), false, (i/4+t.Shard+1)%4)
		case 2:
			alt[j], alt[j-1] = alt[j-1], alt[j]
			judge(fmt.Sprintf("messages %d and %d exchanged", j-1, j), alt, sum, false, (i/4+t.Shard+2)%4)
		case 3:
			alt[j] = alt[(j+n/3)%n]
			s2 := addq(sum, negq(mulq(es[j], hashInt(msgs[j]))), mulq(es[j], hashInt(alt[j])))
			judge(fmt.Sprintf("a message repeated at %d", j), alt, s2, false, (i/4+t.Shard)%3)
			judge(fmt.Sprintf("a message repeated at %d, allowed", j), alt, s2, true, 3)
		}
	}
	// only the entries up to a position signed
	for _, j := range []int{n - 1, 1 << (bits.Len(uint(n-1)) - 1)} {
		part := new(big.Int)
		for l := 0; l < j; l++ {
			part = addq(part, mulq(es[l], hashInt(msgs[l])))
		}
		judge(fmt.Sprintf("only %d signed", j), msgs, part, false, t.IntN(4))
		judge(fmt.Sprintf("the first %d not signed", j), msgs, addq(sum, negq(part)), false, t.IntN(4))
	}
	t.Sample("batch of %d", n)
}

func repeatBig(x *big.Int, n int) (r []*big.Int) {
	for ; n > 0; n-- {
		r = append(r, x)
	}
	return
}

func blsBatchDup(t *T) {
	c := 0
	for _, n := range []int{2, 3, 4, 6, 9, 17, 40, 65} {
		ks := t.bkeys(n)
		var keyE []*big.Int
		var apks []*bls.Apk
		var pks []*bls.PublicKey
		var g2s []*bn256.G2
		for _, k := range ks {
			keyE = append(keyE, k.x)
			apks = append(apks, t.apkOf(k.x))
			pks = append(pks, k.pk)
			g2s = append(g2s, new(bn256.G2).ScalarBaseMult(k.x))
		}
		for a := 0; a < n; a++ {
			for b := a + 1; b < n; b++ {
				if n > 9 {
					// in large batches only some pairs: around the ends, the middle and powers of two
					d := b - a
					edge := (a < 1 || a == n/2-1) && (b == n-1 || b == n/2) || d == 1 && (a == 0 || b == n-1 || b == 16 || b == 32 || b == 64)
					if !edge {
						continue
					}
				}
				c++
				if c%t.Shards != t.Shard {
					continue
				}
				t.Case(fmt.Sprintf("batch of %d, equal messages at %d and %d", n, a, b), func() {
					var msgs [][]byte
					base := t.Bytes(3 + t.IntN(60))
					for j := 0; j < n; j++ {
						// near-equal messages: long common prefix or suffix, or just a length difference
						mm := append([]byte{}, base...)
						switch j % 3 {
						case 0:
							mm = append(mm, byte(j))
						case 1:
							mm = append([]byte{byte(j)}, mm...)
						case 2:
							mm = append(mm, bytes.Repeat([]byte{0}, j)...)
						}
						msgs = append(msgs, mm)
					}
					judge := func(what string, msgs [][]byte, dup bool) {
						sum := new(big.Int)
						for j := range msgs {
							sum = addq(sum, mulq(keyE[j], hashInt(msgs[j])))
						}
						cs := t.sigOf(sum).Compress()
						e1 := bls.VerifyBatch(apks, msgs, t.sigOf(sum))
						e2 := bls.VerifyUnsafeBatch(pks, msgs, t.usigOf(sum))
						e3 := bls.VerifyCompressed(g2s, msgs, cs, false)
						e4 := bls.VerifyCompressed(g2s, msgs, cs, true)
						if dup {
							t.Check(e1 != nil && e2 != nil && e3 != nil, "%s: a batch with equal messages at %d and %d is accepted (%v, %v, %v)", what, a, b, e1 == nil, e2 == nil, e3 == nil)
						} else {
							t.Check(e1 == nil && e2 == nil && e3 == nil, "%s: a batch of different messages is rejected: %v %v %v", what, e1, e2, e3)
						}
						t.Check(e4 == nil, "%s: a valid batch is rejected although repetition is allowed: %v", what, e4)
						t.Seen(fmt.Sprintf("dup-%v", dup), n, a, b, what)
					}
					judge("distinct", msgs, false)
					if n > 9 {
						// one entry of a large batch altered
						sum := new(big.Int)
						for j := range msgs {
							sum = addq(sum, mulq(keyE[j], hashInt(msgs[j])))
						}
						for _, j := range []int{a, b} {
							alt := append([][]byte{}, msgs...)
							alt[j] = t.MutateMsg(msgs[j])
							t.Check(bls.VerifyUnsafeBatch(pks, alt, t.usigOf(sum)) != nil, "a batch of %d is accepted with message %d altered", n, j)
							ap := append([]*bls.Apk{}, apks...)
							ap[j] = t.apkOf(addq(keyE[j], big.NewInt(1)))
							t.Check(bls.VerifyBatch(ap, msgs, t.sigOf(sum)) != nil, "a batch of %d is accepted with key %d altered", n, j)
							short := t.sigOf(addq(sum, negq(mulq(keyE[j], hashInt(msgs[j]))))).Compress()
							t.Check(bls.VerifyCompressed(g2s, msgs, short, j%2 == 0) != nil, "a batch of %d is accepted without the signature of entry %d", n, j)
							t.Seen("large-altered", n, j)
						}
						sw := append([][]byte{}, msgs...)
						sw[a], sw[b] = sw[b], sw[a]
						t.Check(bls.VerifyUnsafeBatch(pks, sw, t.usigOf(sum)) != nil, "a batch of %d is accepted with messages %d and %d exchanged", n, a, b)
					}
					d := append([][]byte{}, msgs...)
					d[b] = append([]byte{}, d[a]...)
					judge("repeated", d, true)
					d = append([][]byte{}, msgs...)
					d[a], d[b] = nil, []byte{}
					judge("repeated empty", d, true)
					d = append([][]byte{}, msgs...)
					d[a] = make([]byte, 32)
					d[b] = nil
					judge("zeros and empty", d, false)
				})
			}
		}
	}
	t.Sample("every pair of positions in batches of 2, 3, 4, 6 and 9, selected pairs in batches of 17, 40 and 65")
}

// independent validity oracle for encoded points

var bnP, _ = new(big.Int).SetString("65000549695646603732796438742359905742825358107623003571877145026864184071783", 10)

func be(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func g1OnCurve(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Exp(x, big.NewInt(3), bnP)
	r.Add(r, big.NewInt(3))
	return new(big.Int).Mod(l.Sub(l, r), bnP).Sign() == 0
}

func validG1(b []byte) bool {
	if len(b) != 64 {
		return false
	}
	x, y := be(b[:32]), be(b[32:])
	if x.Sign() == 0 && y.Sign() == 0 {
		return true
	}
	return x.Cmp(bnP) < 0 && y.Cmp(bnP) < 0 && g1OnCurve(x, y)
}

// expandG1 is the point of a compressed encoding, nil if there is none.
func expandG1(b []byte) []byte {
	if len(b) != 33 || b[32] > 1 {
		return nil
	}
	x := be(b[:32])
	if x.Cmp(bnP) >= 0 {
		return nil
	}
	r := new(big.Int).Exp(x, big.NewInt(3), bnP)
	r.Add(r, big.NewInt(3)).Mod(r, bnP)
	e := new(big.Int).Rsh(new(big.Int).Add(bnP, big.NewInt(1)), 2)
	y := new(big.Int).Exp(r, e, bnP)
	if new(big.Int).Exp(y, big.NewInt(2), bnP).Cmp(r) != 0 {
		return nil
	}
	o := new(big.Int).Sub(bnP, y)
	small, large := y, o
	if small.Cmp(large) > 0 {
		small, large = large, small
	}
	if b[32] == 1 {
		small = large
	}
	return append(append([]byte{}, b[:32]...), small.FillBytes(make([]byte, 32))...)
}

// fp2 is a*i + b.
type fp2 struct{ a, b *big.Int }

func f2(a, b *big.Int) fp2  { return fp2{new(big.Int).Mod(a, bnP), new(big.Int).Mod(b, bnP)} }
func (x fp2) add(y fp2) fp2 { return f2(new(big.Int).Add(x.a, y.a), new(big.Int).Add(x.b, y.b)) }
func (x fp2) sub(y fp2) fp2 { return f2(new(big.Int).Sub(x.a, y.a), new(big.Int).Sub(x.b, y.b)) }
func (x fp2) isZero() bool  { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func (x fp2) eq(y fp2) bool { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func (x fp2) k(n int64) fp2 {
	return f2(new(big.Int).Mul(x.a, big.NewInt(n)), new(big.Int).Mul(x.b, big.NewInt(n)))
}
func (x fp2) mul(y fp2) fp2 {
	a := new(big.Int).Add(new(big.Int).Mul(x.a, y.b), new(big.Int).Mul(x.b, y.a))
	b := new(big.Int).Sub(new(big.Int).Mul(x.b, y.b), new(big.Int).Mul(x.a, y.a))
	return f2(a, b)
}
func (x fp2) inv() fp2 {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.ModInverse(n.Mod(n, bnP), bnP)
	return f2(new(big.Int).Mul(new(big.Int).Neg(x.a), n), new(big.Int).Mul(x.b, n))
}

func (x fp2) sqrt() (fp2, bool) {
	// p = 3 mod 4; norm method
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.Mod(n, bnP)
	s := new(big.Int).ModSqrt(n, bnP)
	if s == nil {
		return fp2{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), bnP)
	for _, sg := range []int64{1, -1} {
		d := new(big.Int).Add(x.b, new(big.Int).Mul(s, big.NewInt(sg)))
		d.Mul(d, half).Mod(d, bnP)
		r := new(big.Int).ModSqrt(d, bnP)
		if r == nil || r.Sign() == 0 {
			continue
		}
		im := new(big.Int).ModInverse(new(big.Int).Lsh(r, 1), bnP)
		im.Mul(im, x.a)
		c := f2(im, r)
		if c.mul(c).eq(x) {
			return c, true
		}
	}
	return fp2{}, false
}

var twistBig = f2(big.NewInt(0), big.NewInt(3)).mul(f2(big.NewInt(1), big.NewInt(3)).inv())

type g2aff struct {
	x, y fp2
	inf  bool
}

func (p g2aff) onCurve() bool {
	return p.y.mul(p.y).eq(p.x.mul(p.x).mul(p.x).add(twistBig))
}

func (p g2aff) add(r g2aff) g2aff {
	if p.inf {
		return r
	}
	if r.inf {
		return p
	}
	var l fp2
	if p.x.eq(r.x) {
		if !p.y.eq(r.y) || p.y.isZero() {
			return g2aff{inf: true}
		}
		l = p.x.mul(p.x).k(3).mul(p.y.k(2).inv())
	} else {
		l = r.y.sub(p.y).mul(r.x.sub(p.x).inv())
	}
	x := l.mul(l).sub(p.x).sub(r.x)
	return g2aff{x: x, y: l.mul(p.x.sub(x)).sub(p.y)}
}

func (p g2aff) mul(k *big.Int) g2aff {
	r := g2aff{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p g2aff) bytes() []byte {
	b := []byte{1}
	for _, c := range []*big.Int{p.x.a, p.x.b, p.y.a, p.y.b} {
		b = append(b, c.FillBytes(make([]byte, 32))...)
	}
	return b
}

func parseG2(b []byte) (g2aff, bool) {
	if len(b) != 129 || b[0] != 1 {
		return g2aff{}, false
	}
	var c [4]*big.Int
	for i := range c {
		c[i] = be(b[1+32*i : 33+32*i])
		if c[i].Cmp(bnP) >= 0 {
			return g2aff{}, false
		}
	}
	p := g2aff{x: fp2{c[0], c[1]}, y: fp2{c[2], c[3]}}
	return p, p.onCurve()
}

func validG2(b []byte) bool {
	p, ok := parseG2(b)
	return ok && p.mul(q).inf
}

// twistPoint is a point of the twist which is (almost surely) not in G2.
func (t *T) twistPoint() g2aff {
	for {
		x := f2(be(t.Bytes(32)), be(t.Bytes(32)))
		if y, ok := x.mul(x).mul(x).add(twistBig).sqrt(); ok {
			return g2aff{x: x, y: y}
		}
	}
}

func blsRoundtrip(t *T) {
	var es []*big.Int
	for i := 0; i < t.N(4, 40); i++ {
		es = append(es, mod(be(t.Bytes(40))))
	}
	for i := int64(1); i < 6; i++ {
		es = append(es, big.NewInt(i), negq(big.NewInt(i)))
	}
	// coordinates with leading zero bytes
	start := mod(be(t.Bytes(40)))
	g := new(bn256.G1).ScalarBaseMult(big.NewInt(1))
	p := new(bn256.G1).ScalarBaseMult(start)
	lead := 0
	for i := 0; i < t.N(1500, 20000); i++ {
		b := p.Marshal()
		if b[0] == 0 || b[32] == 0 {
			es = append(es, addq(start, big.NewInt(int64(i))))
			lead++
			t.Seen("leading-zero-g1", b)
		}
		p = new(bn256.G1).Add(p, g)
	}
	gg := new(bn256.G2).ScalarBaseMult(big.NewInt(1))
	pp := new(bn256.G2).ScalarBaseMult(start)
	for i := 0; i < t.N(400, 5000); i++ {
		b := pp.Marshal()
		if b[1] == 0 || b[33] == 0 || b[65] == 0 || b[97] == 0 {
			es = append(es, addq(start, big.NewInt(int64(i))))
			t.Seen("leading-zero-g2", b)
		}
		pp = new(bn256.G2).Add(pp, gg)
	}
	encs := map[string]string{}
	uniq := func(kind string, enc []byte, e *big.Int) {
		id := kind + string(enc)
		if o, ok := encs[id]; ok && o != e.String() {
			t.Violate("two values have the same %s encoding %s", kind, hx(enc))
		}
		encs[id] = e.String()
	}
	for _, e := range es {
		t.Case(fmt.Sprintf("round trip of exponent %x", e), func() {
			w1, w2 := g1Bytes(e), g2Bytes(e)
			s := t.sigOf(e)
			u := t.usigOf(e)
			if s == nil || u == nil {
				return
			}
			t.Check(bytes.Equal(s.Marshal(), w1) && bytes.Equal(u.Marshal(), w1), "signature encodes to other bytes than it was decoded from")
			c := s.Compress()
			t.Check(bytes.Equal(c, u.Compress()), "the two signature types compress differently")
			x := expandG1(c)
			t.Check(bytes.Equal(x, w1), "compressed form %s does not denote the point %s", hx(c), hx(w1))
			s2, u2 := &bls.Signature{}, &bls.UnsafeSignature{}
			e1, e2 := s2.Decompress(c), u2.Decompress(c)
			if t.Check(e1 == nil && e2 == nil, "decompression fails: %v %v", e1, e2) {
				t.Check(bytes.Equal(s2.Marshal(), w1) && bytes.Equal(u2.Marshal(), w1) && bytes.Equal(s2.Compress(), c) && bytes.Equal(u2.Compress(), c), "decompressed value differs")
			}
			s3, err := bls.UnmarshalSignature(c)
			t.Check(err == nil && bytes.Equal(s3.Marshal(), w1), "UnmarshalSignature of the compressed form: %v", err)
			t.Check(bytes.Equal(s.Copy().Marshal(), w1), "copied signature differs")
			uniq("signature", w1, e)
			uniq("compressed", c, e)
			pk := t.pkOf(e)
			apk := t.apkOf(e)
			if pk == nil || apk == nil {
				return
			}
			t.Check(bytes.Equal(pk.Marshal(), w2) && bytes.Equal(apk.Marshal(), w2) && bytes.Equal(apk.Copy().Marshal(), w2), "key encodes to other bytes than it was decoded from")
			txt, err := pk.MarshalText()
			t.Check(err == nil && string(txt) == base64.RawURLEncoding.EncodeToString(w2), "text encoding is not the unpadded URL base64 of the binary encoding (%v)", err)
			pk2 := &bls.PublicKey{}
			err = pk2.UnmarshalText(txt)
			t.Check(err == nil && bytes.Equal(pk2.Marshal(), w2), "text does not decode to the key: %v", err)
			at, err := apk.MarshalText()
			t.Check(err == nil && bytes.Equal(at, txt), "text of aggregated key: %v", err)
			uniq("key", w2, e)
			uniq("text", txt, e)
			t.Seen("roundtrip", e)
			t.Sample("exponent %x: compressed %s text %s", e, hx(c), txt[:20])
		})
	}
	if t.Shard == 0 {
		t.Case("identity signature", func() {
			a := t.sigOf(big.NewInt(5))
			a.Aggregate(t.sigOf(big.NewInt(-5)))
			b := a.Marshal()
			t.Check(bytes.Equal(b, make([]byte, 64)), "the identity is not encoded as zeros: %s", hx(b))
			_, err := bls.UnmarshalSignature(b)
			t.Check(err == nil, "%v", err)
		})
	}
}

func blsHostile(t *T) {
	ref := mod(be(t.Bytes(40)))
	g1w, g2w := g1Bytes(ref), g2Bytes(ref)
	cw := t.sigOf(ref).Compress()
	keep1 := t.sigOf(big.NewInt(11)).Marshal()
	keep2 := t.pkOf(big.NewInt(11)).Marshal()
	offer := func(kind string, b []byte) {
		in := append([]byte{}, b...)
		v1, x := validG1(b), expandG1(b)
		// signatures
		s, u := t.sigOf(big.NewInt(11)), t.usigOf(big.NewInt(11))
		try := func(name string, want []byte, f func() error, enc func() []byte, keep []byte) {
			var err error
			if !t.NoPanic(name, func() { err = f() }) {
				return
			}
			if want == nil {
				t.Check(err != nil, "%s accepts %s (%s)", name, hx(b), kind)
				t.Check(bytes.Equal(enc(), keep), "%s fails on %s and changes the receiver", name, hx(b))
			} else {
				t.Check(err == nil, "%s rejects the valid encoding %s (%s): %v", name, hx(b), kind, err)
				t.Check(bytes.Equal(enc(), want), "%s decodes %s to another value", name, hx(b))
			}
			t.Check(bytes.Equal(in, b), "%s changes the bytes it decodes", name)
			t.Seen(fmt.Sprintf("%s-%v", name, want != nil), b)
		}
		var w1 []byte
		if v1 {
			w1 = b
		}
		w := w1
		if x != nil {
			w = x
		}
		try("Signature.Unmarshal", w, func() error { return s.Unmarshal(b) }, func() []byte { return s.Marshal() }, keep1)
		if len(b) != 33 {
			try("UnsafeSignature.Unmarshal", w1, func() error { return u.Unmarshal(b) }, func() []byte { return u.Marshal() }, keep1)
		}
		s = t.sigOf(big.NewInt(11))
		try("Signature.Decompress", x, func() error { return s.Decompress(b) }, func() []byte { return s.Marshal() }, keep1)
		u = t.usigOf(big.NewInt(11))
		try("UnsafeSignature.Decompress", x, func() error { return u.Decompress(b) }, func() []byte { return u.Marshal() }, keep1)
		us, err := bls.UnmarshalSignature(b)
		t.Check((err == nil) == (w != nil) && (err == nil) == (us != nil), "UnmarshalSignature of %s: %v", hx(b), err)
		s = t.sigOf(big.NewInt(11))
		err = s.AggregateBytes(b)
		t.Check((err == nil) == (w != nil), "Signature.AggregateBytes of %s: %v", hx(b), err)
		if err != nil {
			t.Check(bytes.Equal(s.Marshal(), keep1), "Signature.AggregateBytes fails and changes the receiver")
		}
	}
	offerKey := func(kind string, b []byte) {
		in := append([]byte{}, b...)
		valid := validG2(b)
		pk := t.pkOf(big.NewInt(11))
		var err error
		t.NoPanic("PublicKey.Unmarshal", func() { err = pk.Unmarshal(b) })
		t.Check((err == nil) == valid, "PublicKey.Unmarshal of %s (%s): %v, but valid=%v", hx(b), kind, err, valid)
		if err != nil {
			t.Check(bytes.Equal(pk.Marshal(), keep2), "PublicKey.Unmarshal fails and changes the receiver")
		} else {
			t.Check(bytes.Equal(pk.Marshal(), b), "PublicKey.Unmarshal decodes to another value")
		}
		p2, err := bls.UnmarshalPk(b)
		t.Check((err == nil) == valid && (p2 != nil) == valid, "UnmarshalPk of %s (%s): %v, but valid=%v", hx(b), kind, err, valid)
		a2, err := bls.UnmarshalApk(b)
		t.Check((err == nil) == valid && (a2 != nil) == valid, "UnmarshalApk of %s (%s): %v, but valid=%v", hx(b), kind, err, valid)
		a := t.apkOf(big.NewInt(11))
		err = a.AggregateBytes(b)
		t.Check((err == nil) == valid, "Apk.AggregateBytes of %s (%s): %v, but valid=%v", hx(b), kind, err, valid)
		if err != nil {
			t.Check(bytes.Equal(a.Marshal(), keep2), "Apk.AggregateBytes fails and changes the receiver")
		}
		pk = t.pkOf(big.NewInt(11))
		txt := []byte(base64.RawURLEncoding.EncodeToString(b))
		t.NoPanic("PublicKey.UnmarshalText", func() { err = pk.UnmarshalText(txt) })
		t.Check((err == nil) == valid, "PublicKey.UnmarshalText of %s (%s): %v, but valid=%v", hx(b), kind, err, valid)
		if err != nil {
			t.Check(bytes.Equal(pk.Marshal(), keep2), "PublicKey.UnmarshalText fails and changes the receiver")
		}
		t.Check(bytes.Equal(in, b), "decoding changes the bytes")
		t.Seen(fmt.Sprintf("key-%v", valid), b)
	}
	i := 0
	mine := func() bool { i++; return i%t.Shards == t.Shard }
	t.Case("truncations and extensions", func() {
		for _, w := range [][]byte{g1w, cw, make([]byte, 64), make([]byte, 33)} {
			for n := 0; n <= len(w)+3; n++ {
				if mine() {
					offer("length", append(append([]byte{}, w...), 0, 0, 0, 0)[:n])
				}
			}
			offer("doubled", append(append([]byte{}, w...), w...))
		}
		for _, w := range [][]byte{g2w, {0}, make([]byte, 129)} {
			for n := 0; n <= len(w)+3; n++ {
				if mine() {
					offerKey("length", append(append([]byte{}, w...), 0, 0, 0, 0)[:n])
				}
			}
			offerKey("doubled", append(append([]byte{}, w...), w...))
		}
		offerKey("nil", nil)
		offer("nil", nil)
		offerKey("identity with the affine flag", append([]byte{1}, make([]byte, 128)...))
		offerKey("identity padded", make([]byte, 129))
	})
	t.Case("bit flips", func() {
		for b := 0; b < 64*8; b++ {
			if mine() {
				c := append([]byte{}, g1w...)
				c[b/8] ^= 1 << (b % 8)
				offer("bit flip", c)
			}
		}
		for b := 0; b < 33*8; b++ {
			if mine() {
				c := append([]byte{}, cw...)
				c[b/8] ^= 1 << (b % 8)
				offer("bit flip of compressed", c)
			}
		}
		for f := 0; f < 256; f++ {
			if mine() {
				offer("flag", append(append([]byte{}, cw[:32]...), byte(f)))
				offerKey("flag", append([]byte{byte(f)}, g2w[1:]...))
			}
		}
		for b := 0; b < 129*8; b++ {
			if mine() {
				c := append([]byte{}, g2w...)
				c[b/8] ^= 1 << (b % 8)
				offerKey("bit flip", c)
			}
		}
	})
	t.Case("unreduced coordinates", func() {
		lim := new(big.Int).Lsh(big.NewInt(1), 256)
		addP := func(b []byte, off int) []byte {
			x := new(big.Int).Add(be(b[off:off+32]), bnP)
			if x.Cmp(lim) >= 0 {
				return nil
			}
			c := append([]byte{}, b...)
			x.FillBytes(c[off : off+32])
			return c
		}
		for n := 0; n < t.N(6, 60); n++ {
			e := mod(be(t.Bytes(40)))
			w, c, k := g1Bytes(e), t.sigOf(e).Compress(), g2Bytes(e)
			for _, off := range []int{0, 32} {
				if b := addP(w, off); b != nil {
					offer("unreduced", b)
				}
			}
			if b := addP(c, 0); b != nil {
				offer("unreduced compressed", b)
			}
			for _, off := range []int{1, 33, 65, 97} {
				if b := addP(k, off); b != nil {
					offerKey("unreduced", b)
				}
			}
		}
		// identity written with unreduced coordinates
		pb := bnP.FillBytes(make([]byte, 32))
		z := make([]byte, 32)
		offer("unreduced identity", append(append([]byte{}, pb...), z...))
		offer("unreduced identity", append(append([]byte{}, z...), pb...))
		offer("unreduced identity", append(append([]byte{}, pb...), pb...))
		offerKey("unreduced identity", bytes.Join([][]byte{{1}, pb, z, z, z}, nil))
		offerKey("unreduced identity", bytes.Join([][]byte{{1}, pb, pb, pb, pb}, nil))
	})
	t.Case("points of the twist outside the group", func() {
		for n := 0; n < t.N(4, 60); n++ {
			p := t.twistPoint()
			offerKey("twist point", p.bytes())
			// a point of small order: the order of the twist is q*(2p-q)
			cof := p.mul(q)
			if !cof.inf {
				offerKey("cofactor point", cof.bytes())
				g, _ := parseG2(g2Bytes(mod(be(t.Bytes(40)))))
				offerKey("group point plus cofactor point", g.add(cof).bytes())
			}
			c := new(big.Int).Sub(new(big.Int).Lsh(bnP, 1), q)
			in := p.mul(c)
			if !in.inf {
				offerKey("cleared", in.bytes())
			}
			for _, d := range []int64{13, 10069, 5864401} { // small prime factors of the cofactor, if any
				if new(big.Int).Mod(c, big.NewInt(d)).Sign() == 0 {
					so := p.mul(new(big.Int).Mul(q, new(big.Int).Div(c, big.NewInt(d))))
					if !so.inf {
						offerKey(fmt.Sprintf("order %d", d), so.bytes())
					}
				}
			}
		}
	})
	t.Case("random bytes", func() {
		for n := 0; n < t.N(60, 1500); n++ {
			b := t.Bytes(33)
			b[0] &= 0x7f
			b[32] &= 1
			offer("random compressed", b)
			offer("random", t.Bytes(t.IntN(70)))
			offer("random 64", t.Bytes(64))
			if n%3 == 0 {
				k := t.Bytes(129)
				k[0] = 1
				offerKey("random", k)
				offerKey("random", t.Bytes(t.IntN(140)))
			}
		}
	})
	t.Case("malformed text", func() {
		good := base64.RawURLEncoding.EncodeToString(g2w)
		for _, s := range []string{"", "!", good[:len(good)-1], good + "A", good + "=", "=" + good, good[:50] + "+" + good[51:], good[:50] + " " + good[51:], base64.StdEncoding.EncodeToString(append([]byte{0xff, 0xff}, g2w...)), good + good, good + "\n", "\r\n" + good, good[:64] + "\n" + good[64:], good[:171] + "\r" + good[171:], good + " ", good + "\x00", " " + good, good[:171]} {
			pk := t.pkOf(big.NewInt(11))
			var err error
			t.NoPanic("UnmarshalText", func() { err = pk.UnmarshalText([]byte(s)) })
			t.Check(err != nil, "UnmarshalText accepts %q", s)
			t.Check(bytes.Equal(pk.Marshal(), keep2), "UnmarshalText fails and changes the receiver")
			t.Seen("text", s)
		}
	})
	t.Sample("about 2500 byte strings against 12 decoders")
}

package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	props["C29"] = []string{"golden.records", "golden.exchange"}
	unit("golden.records", "artefacts recorded with the first version of the repository (blsag signatures: with its repair; data/golden.jsonl): decoded, verified, encoded again and, where the operation is deterministic, made again; distinct = (record)", 8, 8, goldenRecords)
	unit("golden.exchange", "artefacts made now by the library and by the independent implementations, exchanged in both directions; distinct = (artefact)", 8, 32, goldenExchange)
	helpers["golden"] = goldenMake
}

// rec is a recorded artefact.
type rec struct {
	Kind string   `json:"k"`
	In   []string `json:"i"`
	Out  []string `json:"o"`
}

func hexes(bs ...[]byte) []string {
	out := []string{}
	for _, b := range bs {
		out = append(out, hex.EncodeToString(b))
	}
	return out
}

func unhex(s []string) [][]byte {
	var out [][]byte
	for _, x := range s {
		b, err := hex.DecodeString(x)
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return out
}

// goldIPP derives the inputs of an inner-product proof from a label.
func goldIPP(seed []byte, n int) (c ippCase) {
	at := func(kind string, i int) []byte {
		b := append([]byte(kind), seed...)
		return binary.BigEndian.AppendUint32(b, uint32(i))
	}
	c.n = n
	for i := 0; i < n; i++ {
		c.G, c.H = append(c.G, deriveP(at("G", i))), append(c.H, deriveP(at("H", i)))
		c.a, c.b, c.f = append(c.a, refChallenge(at("a", i))), append(c.b, refChallenge(at("b", i))), append(c.f, refChallenge(at("f", i)))
	}
	c.Q = deriveP(at("Q", 0))
	c.P = c.point(bdot(bigs(c.a), bigs(c.b)))
	return c
}

// goldenMake writes records made with the tree the harness is built against.
func goldenMake(args []string) {
	t := &T{Rand: rand0("golden"), Tier: "quick", unit: "golden", distinct: map[uint64]struct{}{}, events: map[string]int64{}, known: map[string]string{}}
	crand.Reader = newDRBG("golden")
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	put := func(kind string, in, out []string) {
		b, _ := json.Marshal(rec{kind, in, out})
		w.Write(append(b, '\n'))
	}
	check := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	msgs := [][]byte{{}, []byte("hello world"), make([]byte, 100), t.Bytes(1000), t.Bytes(32), []byte{0}, t.Bytes(137)}
	var keys []*bkey
	for i := 0; i < 12; i++ {
		var x *big.Int
		switch i {
		case 0:
			x = big.NewInt(1)
		case 1:
			x = new(big.Int).Sub(q, big.NewInt(1))
		case 2:
			x = big.NewInt(2)
		}
		k := t.newKey(x)
		keys = append(keys, k)
		text, err := k.pk.MarshalText()
		check(err)
		put("bls.key", hexes(k.x.Bytes()), hexes(k.pk.Marshal(), text, bls.NewApk(k.pk).Marshal()))
		for _, m := range msgs {
			s, err := bls.Sign(k.sk, k.pk, m)
			check(err)
			u, err := bls.UnsafeSign(k.sk, m)
			check(err)
			put("bls.sign", hexes(k.x.Bytes(), m), hexes(s.Marshal(), s.Compress(), u.Marshal(), u.Compress()))
		}
	}
	for n := 2; n <= 6; n++ {
		ks := keys[3 : 3+n]
		m := msgs[n]
		in := [][]byte{m}
		var pks []*bls.PublicKey
		var agg *bls.Signature
		var us []*bls.UnsafeSignature
		bin := [][]byte{}
		for i, k := range ks {
			in = append(in, k.x.Bytes())
			pks = append(pks, k.pk)
			s, err := bls.Sign(k.sk, k.pk, m)
			check(err)
			if agg == nil {
				agg = s
			} else {
				agg.Aggregate(s)
			}
			mm := append([]byte{byte(i)}, m...)
			u, err := bls.UnsafeSign(k.sk, mm)
			check(err)
			us = append(us, u)
			bin = append(bin, k.x.Bytes(), mm)
		}
		apk, err := bls.AggregateApk(pks)
		check(err)
		put("bls.agg", hexes(in...), hexes(apk.Marshal(), agg.Marshal(), agg.Compress()))
		b, err := bls.UnsafeBatch(us...)
		check(err)
		put("bls.batch", hexes(bin...), hexes(b.Marshal(), b.Compress()))
	}
	for n := 0; n < 8; n++ {
		x := t.RandScalar()
		m := msgs[n%len(msgs)]
		s := blsag.Sign(m, t.decoys(n, mulBase(x)), x)
		out := [][]byte{s.I.Bytes(), s.C.Bytes()}
		for i := range s.S {
			out = append(out, s.S[i].Bytes(), s.PubKeys[i].Bytes())
		}
		put("blsag", hexes(m, x.Bytes()), hexes(out...))
	}
	for n := 1; n < 8; n++ {
		x, y := t.RandScalar(), t.RandScalar()
		m := msgs[n%len(msgs)]
		d := mlsag.NewDualKey()
		d.SetPrimaryKey(x)
		d.SetCommToZero(y)
		d.SetMsg(m)
		for _, v := range t.dualRing(n) {
			d.AddDecoy(libPubKeys(v))
		}
		s, im, err := d.Prove()
		check(err)
		e, err := encSig(s, true)
		check(err)
		e2, err := encSig(s, false)
		check(err)
		put("mlsag", hexes(m, x.Bytes()), hexes(im.Bytes(), e, e2))
	}
	for _, m := range []int{1, 2, 3, 4, 5, 8, 11, 16, 1, 2} {
		v := t.values(m)
		p, err := rangeproof.Prove(scalars(v), false)
		check(err)
		e, err := encRP(&p, true)
		check(err)
		e2, err := encRP(&p, false)
		check(err)
		out := [][]byte{e, e2}
		for i := range p.V {
			out = append(out, p.V[i].BlindingFactor.Bytes())
		}
		var in [][]byte
		for i := range v {
			in = append(in, v[i].Bytes())
		}
		put("rangeproof", hexes(in...), hexes(out...))
	}
	for _, seed := range [][]byte{[]byte(rpSeed), append([]byte(rpSeed), 1), {}, []byte("x"), t.Bytes(64)} {
		g := generator.New(seed)
		g.Compute(1024)
		h := sha256.New()
		for i := range g.Bases {
			h.Write(g.Bases[i].Bytes())
		}
		put("generators", hexes(seed), hexes(g.Bases[0].Bytes(), g.Bases[1].Bytes(), g.Bases[63].Bytes(), g.Bases[1023].Bytes(), h.Sum(nil)))
	}
	for i := 0; i < 12; i++ {
		seed := t.Bytes(i)
		ped := pedersen.New(seed)
		v := t.EdgeScalar()
		c := ped.CommitToScalar(v)
		put("commit", hexes(seed, v.Bytes()), hexes(c.BlindingFactor.Bytes(), c.Value.Bytes()))
		vecs := [][]sc{t.edgeScalars(i), t.edgeScalars(3), t.edgeScalars(1)}[:1+i%3]
		c = ped.CommitToVectors(vecs...)
		in := [][]byte{seed}
		for _, v := range vecs {
			var b []byte
			for k := range v {
				b = append(b, v[k].Bytes()...)
			}
			in = append(in, b)
		}
		put("commitvec", hexes(in...), hexes(c.BlindingFactor.Bytes(), c.Value.Bytes()))
	}
	for k, n := range []int{1, 2, 4, 8, 16, 64} {
		seed := []byte{byte(k)}
		c := goldIPP(seed, n)
		p, err := innerproduct.Generate(c.G, c.H, c.a, c.b, c.f, c.Q)
		check(err)
		var b bytes.Buffer
		check(p.Encode(&b))
		put("innerproduct", hexes(seed, []byte{byte(n)}), hexes(b.Bytes()))
	}
	for i := 0; i < 8; i++ {
		parts := [][]byte{t.Bytes(i), t.Bytes(32), t.Bytes(i * 20)}
		var h fiatshamir.HashCacher
		h.Append(parts...)
		s := h.Derive()
		put("transcript", hexes(parts...), hexes(s.Bytes(), h.Result()))
	}
	for _, n := range []int{0, 1, 3, 4, 7, 8, 31, 32, 33, 63, 64, 71, 72, 73, 100, 127, 128, 129, 135, 136, 137, 255, 256, 257, 1000} {
		in := t.Bytes(n)
		var out [][]byte
		for _, d := range digestFns {
			b, err := d.f(in)
			check(err)
			out = append(out, b)
		}
		c, err := hash.Checksum(in)
		check(err)
		out = append(out, binary.BigEndian.AppendUint32(nil, c))
		put("digest", hexes(in), hexes(out...))
	}
	for n := 1; n <= 40; n += 1 + n/6 {
		var h [][]byte
		for i := 0; i < n; i++ {
			h = append(h, t.Bytes(32))
		}
		tr, err := merkletree.NewTree(payloads(h))
		check(err)
		put("merkle", hexes(h...), hexes(tr.MerkleRoot))
	}
	if len(t.violations) > 0 {
		panic(fmt.Sprint(t.violations))
	}
}

func goldenRecords(t *T) {
	f, err := os.Open(filepath.Join(dataDir, "golden.jsonl"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	r := bufio.NewReader(f)
	for n := 0; ; n++ {
		line, err := r.ReadBytes('\n')
		if err == io.EOF {
			break
		}
		if n%t.Shards != t.Shard {
			continue
		}
		var g rec
		if json.Unmarshal(line, &g) != nil {
			fmt.Fprintln(os.Stderr, "bad record", n)
			os.Exit(3)
		}
		t.Case(fmt.Sprintf("record %d (%s)", n, g.Kind), func() {
			t.golden(g)
			t.Seen(g.Kind, line)
		})
	}
	t.Sample("records of the first version")
}

func (t *T) eq(got, want []byte, what string) bool {
	return t.Check(bytes.Equal(got, want), "%s is now %s, recorded was %s", what, hx(got), hx(want))
}

func (t *T) ptOf(b []byte) pt {
	p, err := ptFrom(b)
	if err != nil {
		panic(err)
	}
	return p
}

func (t *T) golden(g rec) {
	in, out := unhex(g.In), unhex(g.Out)
	switch g.Kind {
	case "bls.key":
		k := t.newKey(new(big.Int).SetBytes(in[0]))
		t.eq(k.pk.Marshal(), out[0], "the public key")
		tx, err := k.pk.MarshalText()
		t.Check(err == nil, "%v", err)
		t.eq(tx, out[1], "the text of the public key")
		t.eq(bls.NewApk(k.pk).Marshal(), out[2], "the aggregated key of one key")
		pk, err := bls.UnmarshalPk(out[0])
		if t.Check(err == nil, "a recorded public key does not decode: %v", err) {
			t.eq(pk.Marshal(), out[0], "the encoding of a decoded public key")
			t.eq(bls.NewApk(pk).Marshal(), out[2], "the aggregated key of a decoded key")
		}
		p2 := &bls.PublicKey{}
		err = p2.UnmarshalText(out[1])
		if t.Check(err == nil, "the recorded text of a public key does not decode: %v", err) {
			t.eq(p2.Marshal(), out[0], "the encoding of a key decoded from text")
		}
		apk, err := bls.UnmarshalApk(out[2])
		if t.Check(err == nil, "a recorded aggregated key does not decode: %v", err) {
			t.eq(apk.Marshal(), out[2], "the encoding of a decoded aggregated key")
		}
	case "bls.sign":
		k := t.newKey(new(big.Int).SetBytes(in[0]))
		s, err := bls.Sign(k.sk, k.pk, in[1])
		u, err2 := bls.UnsafeSign(k.sk, in[1])
		if !t.Check(err == nil && err2 == nil, "signing fails: %v %v", err, err2) {
			return
		}
		t.eq(s.Marshal(), out[0], "the signature")
		t.eq(s.Compress(), out[1], "the compressed signature")
		t.eq(u.Marshal(), out[2], "the unsafe signature")
		t.eq(u.Compress(), out[3], "the compressed unsafe signature")
		apk := bls.NewApk(k.pk)
		for _, b := range out[:2] {
			s, err := bls.UnmarshalSignature(b)
			if t.Check(err == nil, "a recorded signature does not decode: %v", err) {
				err = bls.Verify(apk, in[1], s)
				t.Check(err == nil, "a recorded signature is not valid: %v", err)
				t.Check(bls.Verify(apk, append([]byte{1}, in[1]...), s) != nil, "a recorded signature is valid for another message")
				t.eq(s.Marshal(), out[0], "the encoding of a decoded signature")
			}
		}
		w := &bls.UnsafeSignature{}
		err = w.Unmarshal(out[2])
		if t.Check(err == nil, "a recorded unsafe signature does not decode: %v", err) {
			err = bls.VerifyUnsafe(k.pk, in[1], w)
			t.Check(err == nil, "a recorded unsafe signature is not valid: %v", err)
		}
		err = w.Decompress(out[3])
		if t.Check(err == nil, "a recorded compressed unsafe signature does not decode: %v", err) {
			t.eq(w.Marshal(), out[2], "the encoding of a decompressed unsafe signature")
		}
		g2 := new(bn256.G2).ScalarBaseMult(k.x)
		err = bls.VerifyCompressed([]*bn256.G2{g2}, in[1:], out[3], false)
		t.Check(err == nil, "a recorded compressed signature is not valid: %v", err)
	case "bls.agg":
		var pks []*bls.PublicKey
		var agg *bls.Signature
		for _, x := range in[1:] {
			k := t.newKey(new(big.Int).SetBytes(x))
			pks = append(pks, k.pk)
			s, err := bls.Sign(k.sk, k.pk, in[0])
			if !t.Check(err == nil, "%v", err) {
				return
			}
			if agg == nil {
				agg = s
			} else {
				agg.Aggregate(s)
			}
		}
		apk, err := bls.AggregateApk(pks)
		if !t.Check(err == nil, "%v", err) {
			return
		}
		t.eq(apk.Marshal(), out[0], "the aggregated key")
		t.eq(agg.Marshal(), out[1], "the aggregated signature")
		t.eq(agg.Compress(), out[2], "the compressed aggregated signature")
		a, err := bls.UnmarshalApk(out[0])
		s, err2 := bls.UnmarshalSignature(out[2])
		if t.Check(err == nil && err2 == nil, "a recorded aggregate does not decode: %v %v", err, err2) {
			err = bls.Verify(a, in[0], s)
			t.Check(err == nil, "a recorded aggregate is not valid: %v", err)
		}
	case "bls.batch":
		var pks []*bls.PublicKey
		var us []*bls.UnsafeSignature
		var msgs [][]byte
		var g2s []*bn256.G2
		for i := 0; i < len(in); i += 2 {
			k := t.newKey(new(big.Int).SetBytes(in[i]))
			u, err := bls.UnsafeSign(k.sk, in[i+1])
			if !t.Check(err == nil, "%v", err) {
				return
			}
			pks, us, msgs, g2s = append(pks, k.pk), append(us, u), append(msgs, in[i+1]), append(g2s, new(bn256.G2).ScalarBaseMult(k.x))
		}
		b, err := bls.UnsafeBatch(us...)
		if !t.Check(err == nil, "%v", err) {
			return
		}
		t.eq(b.Marshal(), out[0], "the batch signature")
		t.eq(b.Compress(), out[1], "the compressed batch signature")
		u := &bls.UnsafeSignature{}
		err = u.Unmarshal(out[0])
		if t.Check(err == nil, "a recorded batch signature does not decode: %v", err) {
			err = bls.VerifyUnsafeBatch(pks, msgs, u)
			t.Check(err == nil, "a recorded batch signature is not valid: %v", err)
		}
		err = bls.VerifyCompressed(g2s, msgs, out[1], false)
		t.Check(err == nil, "a recorded compressed batch signature is not valid: %v", err)
	case "blsag":
		s := blsag.RingSignature{I: t.ptOf(out[0]), C: scFrom(out[1])}
		for i := 2; i < len(out); i += 2 {
			s.S, s.PubKeys = append(s.S, scFrom(out[i])), append(s.PubKeys, t.ptOf(out[i+1]))
		}
		t.Check(blsag.Verify(in[0], s), "a recorded ring signature is not valid")
		t.Check(!blsag.Verify(append([]byte{1}, in[0]...), s), "a recorded ring signature is valid for another message")
		now := blsag.Sign(in[0], nil, scFrom(in[1]))
		t.eq(now.I.Bytes(), out[0], "the key image")
	case "mlsag":
		for with, b := range [][]byte{out[2], out[1]} {
			s := &mlsag.Signature{}
			err := s.Decode(bytes.NewReader(b), with == 1)
			if !t.Check(err == nil, "a recorded ring proof does not decode: %v", err) {
				return
			}
			e, err := encSig(s, with == 1)
			t.Check(err == nil, "%v", err)
			t.eq(e, b, "the encoding of a decoded ring proof")
			if with == 1 {
				s.Msg = in[0]
				ok, err := s.Verify([]pt{t.ptOf(out[0])})
				t.Check(ok, "a recorded ring proof is not valid: %v", err)
				s.Msg = append([]byte{1}, in[0]...)
				ok, _ = s.Verify([]pt{t.ptOf(out[0])})
				t.Check(!ok, "a recorded ring proof is valid for another message")
			}
		}
		x := scFrom(in[1])
		im := mlsag.CalculateKeyImage(x, mulBase(x))
		t.eq(im.Bytes(), out[0], "the key image")
	case "rangeproof":
		var p, short rangeproof.Proof
		err := p.Decode(bytes.NewReader(out[0]), true)
		err2 := short.Decode(bytes.NewReader(out[1]), false)
		if !t.Check(err == nil && err2 == nil, "a recorded range proof does not decode: %v %v", err, err2) {
			return
		}
		e, _ := encRP(&p, true)
		t.eq(e, out[0], "the encoding of a decoded range proof")
		e, _ = encRP(&short, false)
		t.eq(e, out[1], "the encoding of a decoded range proof without commitments")
		ok, err := rangeproof.Verify(p)
		t.Check(ok, "a recorded range proof of %d values is not valid: %v", len(in), err)
		short.V = p.V
		ok, err = rangeproof.Verify(short)
		t.Check(ok, "a recorded range proof with its commitments added is not valid: %v", err)
		for i := range in {
			c := rpCommit(new(big.Int).SetBytes(in[i]), bigSc(scFrom(out[2+i])))
			t.eq(p.V[i].Value.Bytes(), c.Bytes(), "a recorded commitment")
		}
		bad := p
		bad.V = append([]pedersen.Commitment{}, p.V...)
		bad.V[len(bad.V)-1].Value = t.RandPoint()
		ok, _ = rangeproof.Verify(bad)
		t.Check(!ok, "a recorded range proof is valid for another commitment")
	case "generators":
		g := generator.New(in[0])
		g.Compute(1024)
		h := sha256.New()
		for i := range g.Bases {
			h.Write(g.Bases[i].Bytes())
		}
		for k, i := range []int{0, 1, 63, 1023} {
			t.eq(g.Bases[i].Bytes(), out[k], fmt.Sprintf("generator %d", i))
		}
		t.eq(h.Sum(nil), out[4], "the digest of 1024 generators")
	case "commit":
		ped := pedersen.New(in[0])
		v, r := scFrom(in[1]), scFrom(out[0])
		c := add(mul(ped.BasePoint, v), mul(ped.BlindPoint, r))
		t.eq(c.Bytes(), out[1], "a commitment with the recorded blinding factor")
		now := ped.CommitToScalar(v)
		d := sub(now.Value, mul(ped.BlindPoint, now.BlindingFactor))
		e := sub(t.ptOf(out[1]), mul(ped.BlindPoint, r))
		t.eq(d.Bytes(), e.Bytes(), "the value part of a commitment")
		var b bytes.Buffer
		cc := pedersen.Commitment{Value: t.ptOf(out[1])}
		t.Check(pedersen.EncodeCommitments(&b, []pedersen.Commitment{cc, cc}) == nil, "encoding fails")
		t.eq(b.Bytes(), append([]byte{0, 0, 0, 2}, append(append([]byte{}, out[1]...), out[1]...)...), "the encoding of commitments")
	case "commitvec":
		ped := pedersen.New(in[0])
		var vecs [][]sc
		for _, b := range in[1:] {
			v := []sc{}
			for ; len(b) > 0; b = b[32:] {
				v = append(v, scFrom(b[:32]))
			}
			vecs = append(vecs, v)
		}
		now := ped.CommitToVectors(vecs...)
		d := sub(now.Value, mul(ped.BlindPoint, now.BlindingFactor))
		e := sub(t.ptOf(out[1]), mul(ped.BlindPoint, scFrom(out[0])))
		t.eq(d.Bytes(), e.Bytes(), "the value part of a vector commitment")
	case "innerproduct":
		c := goldIPP(in[0], int(in[1][0]))
		p, err := innerproduct.Generate(c.G, c.H, c.a, c.b, c.f, c.Q)
		if !t.Check(err == nil, "%v", err) {
			return
		}
		var b bytes.Buffer
		t.Check(p.Encode(&b) == nil, "encoding fails")
		t.eq(b.Bytes(), out[0], "the inner-product proof")
		q := &innerproduct.Proof{}
		err = q.Decode(bytes.NewReader(out[0]))
		if t.Check(err == nil, "a recorded inner-product proof does not decode: %v", err) {
			t.Check(c.lib(q), "a recorded inner-product proof is not valid")
		}
	case "transcript":
		var h fiatshamir.HashCacher
		h.Append(in...)
		s := h.Derive()
		t.eq(s.Bytes(), out[0], "the challenge")
		t.eq(h.Result(), out[1], "the transcript")
	case "digest":
		for i, d := range digestFns {
			b, err := d.f(in[0])
			t.Check(err == nil, "%v", err)
			t.eq(b, out[i], "the digest "+d.name)
		}
		c, err := hash.Checksum(in[0])
		t.Check(err == nil, "%v", err)
		t.eq(binary.BigEndian.AppendUint32(nil, c), out[len(digestFns)], "the checksum")
		t.Check(hash.CompareChecksum(in[0], binary.BigEndian.Uint32(out[len(digestFns)])), "a recorded checksum is not recognised")
	case "merkle":
		tr, err := merkletree.NewTree(payloads(in))
		if !t.Check(err == nil, "%v", err) {
			return
		}
		t.eq(tr.MerkleRoot, out[0], "the Merkle root")
	default:
		fmt.Fprintln(os.Stderr, "unknown kind", g.Kind)
		os.Exit(3)
	}
}

// goldenExchange hands artefacts of the independent implementations to the
// library and the reverse.
func goldenExchange(t *T) {
	for i := 0; i < t.N(4, 20); i++ {
		t.Case(fmt.Sprintf("exchange %d", i), func() {
			msg := t.Msg()
			// BLS, from exponents
			k := t.newKey(t.EdgeSecret())
			h := hashInt(msg)
			err := bls.Verify(t.apkOf(k.xt()), msg, t.sigOf(mulq(h, k.x, k.t)))
			t.Check(err == nil, "a signature by the formula is not valid: %v", err)
			err = bls.VerifyUnsafe(t.pkOf(k.x), msg, t.usigOf(mulq(h, k.x)))
			t.Check(err == nil, "an unsafe signature by the formula is not valid: %v", err)
			s, err := bls.Sign(k.sk, k.pk, msg)
			if t.Check(err == nil, "%v", err) {
				t.eq(s.Marshal(), g1Bytes(mulq(h, k.x, k.t)), "the signature (by the formula)")
				t.eq(expandG1(s.Compress()), s.Marshal(), "the compressed signature, expanded independently,")
			}
			t.Seen("bls", k.pb, msg)
			// ring signatures
			n := t.IntN(5)
			x := t.NonZeroScalar()
			var keys [][]pt
			for _, p := range t.decoys(n, mulBase(x)) {
				keys = append(keys, []pt{p})
			}
			j := t.IntN(n + 1)
			keys = append(keys[:j], append([][]pt{{mulBase(x)}}, keys[j:]...)...)
			im := []pt{keyImage(x)}
			rs := t.refRingProve(msg, keys, j, []sc{x}, im, variant{})
			ok, err := blsagScheme{}.verify(rs, im)
			t.Check(ok, "a ring signature by the independent prover is not valid: %v", err)
			var mix []pt
			for l := range keys {
				if l != j {
					mix = append(mix, keys[l][0])
				}
			}
			ls, lim := fromBlsag(msg, blsag.Sign(msg, mix, x))
			t.Check(refRingVerify(ls, lim, variant{}), "a ring signature is not valid for the independent verifier")
			t.Seen("blsag", ls.bytes(true))
			// ring proofs
			y := t.NonZeroScalar()
			dual := t.dualRing(n)
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(x)
			d.SetCommToZero(y)
			d.SetMsg(msg)
			for _, v := range dual {
				d.AddDecoy(libPubKeys(v))
			}
			sig, lim1, err := d.Prove()
			if t.Check(err == nil, "%v", err) {
				r, err := fromMlsag(sig)
				t.Check(err == nil && refRingVerify(r, []pt{lim1}, variant{}), "a ring proof is not valid for the independent verifier: %v", err)
				e, _ := encSig(sig, true)
				t.eq(e, r.bytes(true), "the encoding of a ring proof (by the format)")
			}
			own := append(append([][]pt{}, dual[:j]...), append([][]pt{{mulBase(x), mulBase(y)}}, dual[j:]...)...)
			rm := t.refRingProve(msg, own, j, []sc{x, y}, im, variant{})
			l := &mlsag.Signature{Msg: msg}
			err = l.Decode(bytes.NewReader(rm.bytes(true)), true)
			if t.Check(err == nil, "a ring proof by the format does not decode: %v", err) {
				ok, err := l.Verify(im)
				t.Check(ok, "a ring proof by the independent prover is not valid: %v", err)
			}
			t.Seen("mlsag", rm.bytes(true))
			// range proofs
			m := []int{1, 2, 1, 4}[(i+t.Shard)%4]
			w := t.witness(t.values(m))
			rp := w.prove()
			lp, err := rp.lib()
			if t.Check(err == nil, "a range proof by the format does not decode: %v", err) {
				ok, err := rangeproof.Verify(lp)
				t.Check(ok, "a range proof by the independent prover is not valid: %v", err)
				e, _ := encRP(&lp, true)
				t.eq(e, rp.bytes(true), "the encoding of a range proof (by the format)")
			}
			p, err := rangeproof.Prove(scalars(t.values(m)), false)
			if t.Check(err == nil, "%v", err) {
				r, err := fromRP(&p)
				if t.Check(err == nil, "%v", err) {
					err = r.verify()
					t.Check(err == nil, "a range proof is not valid for the independent verifier: %v", err)
				}
			}
			t.Seen("rangeproof", rp.bytes(true))
			// trees
			var hs [][]byte
			for k := 0; k < 1+t.IntN(30); k++ {
				hs = append(hs, t.Bytes(32))
			}
			tr, err := merkletree.NewTree(payloads(hs))
			if t.Check(err == nil, "%v", err) {
				t.eq(tr.MerkleRoot, refRoot(hs), "the Merkle root (by the pairing rule)")
			}
			t.Seen("tree", hs[0], len(hs))
		})
	}
	t.Sample("signatures, ring signatures and proofs, range proofs, trees")
}

package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/big"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// the system's own source: the harness's has a lock, which would order the
// goroutines and hide races from the detector
var sysRand = crand.Reader

func init() {
	props["C27"] = []string{"race.bls", "race.ring", "race.proof", "race.misc"}
	const rule = "goroutines started together on values nobody has read before, each running a random sequence of operations on them without any synchronisation of the harness's own, under the race detector; results compared with those of twins used by one goroutine; distinct = (pair of operations observed to overlap in time)"
	unit("race.bls", rule, 6, 32, raceBLS)
	unit("race.ring", rule, 3, 16, raceRing)
	unit("race.proof", rule, 4, 16, raceProof)
	unit("race.misc", rule, 3, 16, raceMisc)
	for _, n := range props["C27"] {
		units[n].Race = true
	}
	const plain = "the same without the race detector, several times as often, and with every operation also run by all goroutines at once; distinct = (pair of operations observed to overlap in time)"
	unit("par.bls", plain, 4, 16, raceBLS)
	unit("par.ring", plain, 4, 16, raceRing)
	unit("par.proof", plain, 4, 16, raceProof)
	unit("par.misc", plain, 4, 16, raceMisc)
	for _, n := range []string{"par.bls", "par.ring", "par.proof", "par.misc"} {
		units[n].Plain = true
		props["C27"] = append(props["C27"], n)
	}
}

// rop is an operation on shared values; it returns what is wrong with its result.
type rop struct {
	name string
	f    func(r *rand.Rand) string
}

type rspan struct {
	op         int
	start, end time.Duration
}

// stress runs ops from several goroutines at once, without synchronisation in between.
func (t *T) stress(group string, workers, iters int, ops []rop) {
	if !raceEnabled {
		t.stress1(group, workers, 3*iters, ops)
		for i := range ops { // all of them the same
			t.stress1(group+", "+ops[i].name+" only", workers, 1+iters/2, ops[i:i+1])
		}
		return
	}
	t.stress1(group, workers, iters, ops)
}

func (t *T) stress1(group string, workers, iters int, ops []rop) {
	type res struct {
		spans []rspan
		bad   []string
	}
	results := make([]res, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	base := time.Now()
	for w := 0; w < workers; w++ {
		r := rand.New(rand.NewPCG(t.Uint64(), t.Uint64()))
		first := t.IntN(len(ops))
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := &results[w]
			<-start
			for i := 0; i < iters; i++ {
				k := (first + i) % len(ops)
				if i > 0 && r.IntN(2) == 0 {
					k = r.IntN(len(ops))
				}
				if r.IntN(4) == 0 {
					runtime.Gosched()
				}
				if r.IntN(16) == 0 {
					time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
				}
				s := rspan{op: k, start: time.Since(base)}
				func() {
					defer func() {
						if p := recover(); p != nil {
							out.bad = append(out.bad, fmt.Sprintf("%s panics when run in parallel: %v", ops[k].name, p))
						}
					}()
					if m := ops[k].f(r); m != "" {
						out.bad = append(out.bad, fmt.Sprintf("%s run in parallel: %s", ops[k].name, m))
					}
				}()
				s.end = time.Since(base)
				out.spans = append(out.spans, s)
			}
		}()
	}
	close(start)
	wg.Wait()
	type ev struct {
		rspan
		w int
	}
	var all []ev
	for w := range results {
		for _, s := range results[w].spans {
			all = append(all, ev{s, w})
		}
		for _, b := range results[w].bad {
			t.Violate("%s: %s", group, b)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
	for i := range all {
		n := 0
		for j := i + 1; j < len(all) && all[j].start < all[i].end; j++ {
			if all[j].w != all[i].w {
				a, b := ops[all[i].op].name, ops[all[j].op].name
				if a > b {
					a, b = b, a
				}
				t.Seen("overlap "+group, a, b)
				n++
			}
		}
	}
}

func differ(a, b []byte) string {
	if !bytes.Equal(a, b) {
		return fmt.Sprintf("result %s, alone %s", hx(a), hx(b))
	}
	return ""
}

func raceBLS(t *T) {
	crand.Reader = sysRand
	for round := 0; round < t.N(10, 60); round++ {
		t.Case(fmt.Sprintf("bls round %d", round), func() {
			how := (round + t.Shard*3) % 10
			msg := append(t.Msg(), 1)
			msg2 := append([]byte{0xfe}, msg...)
			k1, k2 := t.newKey(nil), t.newKey(nil)
			x1, x2, t1, t2 := k1.x, k2.x, k1.t, k2.t
			h, h2 := hashInt(msg), hashInt(msg2)
			// shared values that nobody has read since they were made; the
			// exponents tell what they have to be
			var pk *bls.PublicKey
			var apk *bls.Apk
			var sig *bls.Signature
			var us, us2 *bls.UnsafeSignature
			var sigE, apkE, pkE, usE *big.Int
			pkE = x1
			apkE = mulq(x1, t1)
			sigE = mulq(h, x1, t1)
			usE = mulq(h, x1)
			pk = t.pkOf(x1)
			var err error
			us, err = bls.UnsafeSign(k1.sk, msg)
			t.Check(err == nil, "%v", err)
			us2, err = bls.UnsafeSign(k2.sk, msg2)
			t.Check(err == nil, "%v", err)
			sk := k1.sk
			switch how {
			case 0: // fresh from the operations that make them
				apk = bls.NewApk(k1.pk)
				sig, err = bls.Sign(k1.sk, k1.pk, msg)
				p2, s2, e2 := bls.GenKeyPair(&listReader{first: x1.FillBytes(make([]byte, 32)), rest: newDRBG("k")})
				t.Check(e2 == nil, "%v", e2)
				if got := secretOf(s2); got != nil && got.Cmp(x1) == 0 { // otherwise it uses the entropy in another way
					pk, sk = p2, s2
				}
			case 1: // aggregates
				apk, err = bls.AggregateApk([]*bls.PublicKey{k1.pk, k2.pk})
				apkE = addq(mulq(x1, t1), mulq(x2, t2))
				sig, _ = bls.Sign(k1.sk, k1.pk, msg)
				o, _ := bls.Sign(k2.sk, k2.pk, msg)
				sig = sig.Aggregate(o)
				sigE = addq(mulq(h, x1, t1), mulq(h, x2, t2))
			case 2:
				apk = bls.NewApk(k1.pk)
				err = apk.Aggregate(k2.pk)
				apkE = addq(mulq(x1, t1), mulq(x2, t2))
				sig, _ = bls.Sign(k1.sk, k1.pk, msg)
				u, _ := bls.UnsafeSign(k2.sk, msg)
				_ = sig.Add(k2.pk, u)
				sigE = addq(mulq(h, x1, t1), mulq(h, x2, t2))
			case 3: // copies
				apk = bls.NewApk(k1.pk).Copy()
				sig, err = bls.Sign(k1.sk, k1.pk, msg)
				sig = sig.Copy()
			case 4: // decoded
				apk = t.apkOf(apkE)
				sig = t.sigOf(sigE)
				us = t.usigOf(usE)
			case 5: // decompressed
				apk = t.apkOf(apkE)
				sig = &bls.Signature{}
				err = sig.Decompress(t.sigOf(sigE).Compress())
				us = &bls.UnsafeSignature{}
				t.Check(us.Decompress(t.usigOf(usE).Compress()) == nil, "decompression fails")
			case 6: // sums
				pk = k1.pk.Aggregate(k2.pk)
				pkE = addq(x1, x2)
				apk = bls.NewApk(k1.pk)
				sig, err = bls.Sign(k1.sk, k1.pk, msg)
				u, _ := bls.UnsafeSign(k2.sk, msg)
				us = bls.UnsafeAggregate(us, u)
				usE = addq(mulq(h, x1), mulq(h, x2))
			case 7:
				apk = bls.NewApk(k1.pk)
				err = apk.AggregateBytes(k2.pk.Marshal())
				apkE = addq(mulq(x1, t1), mulq(x2, t2))
				sig, _ = bls.Sign(k1.sk, k1.pk, msg)
				o, _ := bls.Sign(k2.sk, k2.pk, msg)
				_ = sig.AggregateBytes(o.Marshal())
				sigE = addq(mulq(h, x1, t1), mulq(h, x2, t2))
			case 8:
				apk = bls.NewApk(k1.pk)
				sig, err = bls.Sign(k1.sk, k1.pk, msg)
				us, _ = bls.UnsafeBatch(us, t.usigOf(big.NewInt(9)), t.usigOf(big.NewInt(9)))
				usE = addq(usE, big.NewInt(18))
				tx, _ := k1.pk.MarshalText()
				pk = &bls.PublicKey{}
				_ = pk.UnmarshalText(tx)
			case 9: // doubled
				apk = bls.NewApk(k1.pk)
				_ = apk.Aggregate(k1.pk)
				apkE = addq(apkE, apkE)
				sig, err = bls.Sign(k1.sk, k1.pk, msg)
				sig = sig.Aggregate(sig)
				sigE = addq(sigE, sigE)
				us, _ = bls.UnsafeBatch(us)
			}
			if !t.Check(err == nil, "%v", err) {
				return
			}
			pkT := hashInt(g2Bytes(pkE))
			pkB, apkB, sigB, usB := g2Bytes(pkE), g2Bytes(apkE), g1Bytes(sigE), g1Bytes(usE)
			sigC := t.sigOf(sigE).Compress()
			usC := t.usigOf(usE).Compress()
			pk2 := t.pkOf(x2)
			sum := addq(mulq(usE), mulq(h2, x2))
			total := t.usigOf(sum)
			totalC := total.Compress()
			g2s := []*bn256.G2{new(bn256.G2).ScalarBaseMult(pkE), new(bn256.G2).ScalarBaseMult(x2)}
			for _, g := range g2s {
				_ = g.Marshal()
			}
			usValid := mod(usE).Cmp(mulq(h, pkE)) == 0
			msgs := [][]byte{msg, msg2}
			pks := []*bls.PublicKey{pk, pk2}
			apks := []*bls.Apk{apk, bls.NewApk(pk2)}
			sig2 := t.sigOf(addq(sigE, mulq(h2, x2, t2)))
			verdict := func(err error, want bool) string {
				if (err == nil) != want {
					return fmt.Sprintf("verdict %v, alone valid=%v", err, want)
				}
				return ""
			}
			ops := []rop{
				{"Signature.Marshal", func(*rand.Rand) string { return differ(sig.Marshal(), sigB) }},
				{"Signature.Compress", func(*rand.Rand) string { return differ(sig.Compress(), sigC) }},
				{"Signature.Copy", func(*rand.Rand) string { return differ(sig.Copy().Marshal(), sigB) }},
				{"UnsafeSignature.Marshal", func(*rand.Rand) string { return differ(us.Marshal(), usB) }},
				{"UnsafeSignature.Compress", func(*rand.Rand) string { return differ(us.Compress(), usC) }},
				{"PublicKey.Marshal", func(*rand.Rand) string { return differ(pk.Marshal(), pkB) }},
				{"PublicKey.MarshalText", func(*rand.Rand) string {
					b, err := pk.MarshalText()
					p := &bls.PublicKey{}
					if err != nil || p.UnmarshalText(b) != nil {
						return "fails"
					}
					return differ(p.Marshal(), pkB)
				}},
				{"Apk.Marshal", func(*rand.Rand) string { return differ(apk.Marshal(), apkB) }},
				{"Apk.Copy", func(*rand.Rand) string { return differ(apk.Copy().Marshal(), apkB) }},
				{"NewApk", func(*rand.Rand) string { return differ(bls.NewApk(pk).Marshal(), g2Bytes(mulq(pkE, pkT))) }},
				{"AggregateApk", func(*rand.Rand) string {
					a, err := bls.AggregateApk(pks)
					if err != nil {
						return err.Error()
					}
					return differ(a.Marshal(), g2Bytes(addq(mulq(pkE, pkT), mulq(x2, t2))))
				}},
				{"Apk.Aggregate of a shared key", func(*rand.Rand) string {
					a := apk.Copy()
					if err := a.Aggregate(pk); err != nil {
						return err.Error()
					}
					return differ(a.Marshal(), g2Bytes(addq(apkE, mulq(pkE, pkT))))
				}},
				{"PublicKey.Aggregate", func(*rand.Rand) string { return differ(pk.Aggregate(pk2).Marshal(), g2Bytes(addq(pkE, x2))) }},
				{"UnsafeAggregate", func(*rand.Rand) string {
					return differ(bls.UnsafeAggregate(us, us2).Marshal(), g1Bytes(addq(usE, mulq(h2, x2))))
				}},
				{"UnsafeBatch", func(*rand.Rand) string {
					s, err := bls.UnsafeBatch(us, us2, us)
					if err != nil {
						return err.Error()
					}
					return differ(s.Marshal(), g1Bytes(addq(usE, usE, mulq(h2, x2))))
				}},
				{"Signature.Aggregate of a shared one", func(*rand.Rand) string {
					s, err := bls.UnmarshalSignature(sigB)
					if err != nil {
						return err.Error()
					}
					return differ(s.Aggregate(sig).Marshal(), g1Bytes(addq(sigE, sigE)))
				}},
				{"Signature.Add of shared ones", func(*rand.Rand) string {
					s, err := bls.UnmarshalSignature(sigB)
					if err != nil {
						return err.Error()
					}
					if err := s.Add(pk, us); err != nil {
						return err.Error()
					}
					return differ(s.Marshal(), g1Bytes(addq(sigE, mulq(usE, pkT))))
				}},
				{"Sign", func(*rand.Rand) string {
					s, err := bls.Sign(sk, pk, msg)
					if err != nil {
						return err.Error()
					}
					return differ(s.Marshal(), g1Bytes(mulq(h, x1, pkT)))
				}},
				{"UnsafeSign", func(*rand.Rand) string {
					s, err := bls.UnsafeSign(sk, msg2)
					if err != nil {
						return err.Error()
					}
					return differ(s.Marshal(), g1Bytes(mulq(h2, x1)))
				}},
				{"Verify", func(*rand.Rand) string { return verdict(bls.Verify(apk, msg, sig), mulq(h, apkE).Cmp(mod(sigE)) == 0) }},
				{"Verify of another message", func(*rand.Rand) string { return verdict(bls.Verify(apk, msg2, sig), false) }},
				{"VerifyUnsafe", func(*rand.Rand) string { return verdict(bls.VerifyUnsafe(pk, msg, us), usValid) }},
				{"VerifyUnsafeBatch", func(*rand.Rand) string { return verdict(bls.VerifyUnsafeBatch(pks, msgs, total), usValid) }},
				{"VerifyBatch", func(*rand.Rand) string {
					return verdict(bls.VerifyBatch(apks, msgs, sig2), mulq(h, apkE).Cmp(mod(sigE)) == 0)
				}},
				{"VerifyCompressed", func(*rand.Rand) string { return verdict(bls.VerifyCompressed(g2s, msgs, totalC, false), usValid) }},
				{"decoding", func(*rand.Rand) string {
					p, err := bls.UnmarshalPk(pkB)
					if err != nil {
						return err.Error()
					}
					s, err := bls.UnmarshalSignature(sigC)
					if err != nil {
						return err.Error()
					}
					return differ(p.Marshal(), pkB) + differ(s.Marshal(), sigB)
				}},
				{"GenKeyPair", func(*rand.Rand) string {
					p, s, err := bls.GenKeyPair(nil)
					if err != nil {
						return err.Error()
					}
					x := secretOf(s)
					if x == nil {
						return ""
					}
					return differ(p.Marshal(), g2Bytes(x))
				}},
			}
			t.stress("bls", 8, t.N(7, 20), ops)
			t.Seen("round", how)
		})
	}
	t.Sample("27 operations on keys and signatures made in 10 ways")
}

func raceRing(t *T) {
	crand.Reader = sysRand
	for round := 0; round < t.N(5, 40); round++ {
		t.Case(fmt.Sprintf("ring round %d", round), func() {
			n := 1 + t.IntN(4)
			msg := append(make([]byte, 0, 64), t.Bytes(20)...)
			sk := t.RandScalar()
			mix := append(make([]pt, 0, n+4), t.decoys(n, mulBase(sk))...)
			rs := blsag.Sign(msg, mix, sk)
			x, y := t.RandScalar(), t.RandScalar()
			var held []mlsag.PubKeys
			for _, v := range t.dualRing(n) {
				held = append(held, libPubKeys(v))
			}
			first := mlsag.NewDualKey()
			first.SetPrimaryKey(x)
			first.SetCommToZero(y)
			first.SetMsg(msg)
			first.AddDecoys(held)
			sig, im, err := first.Prove()
			if !t.Check(err == nil, "%v", err) {
				return
			}
			twin, err := fromMlsag(sig)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			enc := twin.bytes(true)
			images := []pt{im}
			wrong := []pt{t.RandPoint()}
			wantKI := keyImage(x)
			pub := mulBase(x)
			ops := []rop{
				{"blsag.Sign", func(*rand.Rand) string {
					s := blsag.Sign(msg, mix, sk)
					r, im := fromBlsag(msg, s)
					if !refRingVerify(r, im, variant{}) {
						return "invalid signature"
					}
					if len(r.keys) != n+1 {
						return "wrong ring"
					}
					return ""
				}},
				{"blsag.Verify", func(*rand.Rand) string {
					if !blsag.Verify(msg, rs) {
						return "rejected"
					}
					return ""
				}},
				{"blsag.Verify of another message", func(*rand.Rand) string {
					if blsag.Verify(msg[1:], rs) {
						return "accepted"
					}
					return ""
				}},
				{"mlsag proving with shared decoys", func(r *rand.Rand) string {
					d := mlsag.NewDualKey()
					d.SetPrimaryKey(x)
					d.SetCommToZero(y)
					d.SetMsg(msg)
					d.AddDecoys(held)
					off := mulBase(scInt(int64(r.IntN(1000) + 1)))
					d.SubCommToZero(off)
					s, im, err := d.Prove()
					if err != nil {
						return err.Error()
					}
					q, err := fromMlsag(s)
					if err != nil {
						return err.Error()
					}
					if !refRingVerify(q, []pt{im}, variant{}) || len(q.keys) != n+1 {
						return "invalid proof"
					}
					return ""
				}},
				{"mlsag.Verify", func(*rand.Rand) string {
					if ok, err := sig.Verify(images); !ok {
						return fmt.Sprint("rejected ", err)
					}
					return ""
				}},
				{"mlsag.Verify of another key image", func(*rand.Rand) string {
					if ok, _ := sig.Verify(wrong); ok {
						return "accepted"
					}
					return ""
				}},
				{"mlsag.Encode", func(*rand.Rand) string {
					b, err := encSig(sig, true)
					if err != nil {
						return err.Error()
					}
					return differ(b, enc)
				}},
				{"mlsag.Decode", func(*rand.Rand) string {
					s := &mlsag.Signature{}
					if err := s.Decode(bytes.NewReader(enc), true); err != nil {
						return err.Error()
					}
					if !s.Equals(*sig, true) || !sig.Equals(*s, true) {
						return "decoded signature is not equal"
					}
					return ""
				}},
				{"CalculateKeyImage", func(*rand.Rand) string {
					p := mlsag.CalculateKeyImage(x, pub)
					return differ(p.Bytes(), wantKI.Bytes())
				}},
				{"keys of shared decoys", func(*rand.Rand) string {
					for i := range held {
						k := held[i]
						if k.Len() != 2 || !k.Equals(held[i]) {
							return "changed"
						}
						p := k.OutputKey()
						_ = p.Bytes()
						var w bytes.Buffer
						if err := k.Encode(&w); err != nil {
							return err.Error()
						}
					}
					return ""
				}},
			}
			t.stress("ring", 8, t.N(6, 16), ops)
		})
	}
	t.Sample("10 operations on shared rings, decoys and signatures")
}

func raceProof(t *T) {
	crand.Reader = sysRand
	rpG(1024) // the tables of the reference, before anything runs in parallel
	rpH(1024)
	for round := 0; round < t.N(2, 12); round++ {
		t.Case(fmt.Sprintf("range proof round %d", round), func() {
			m := 1 + (round+t.Shard)%2
			v := append(make([]sc, 0, 20), scalars(t.values(m))...)
			p, err := rangeproof.Prove(v, false)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			twin, err := fromRP(&p)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			enc := twin.bytes(true)
			bad := twin.clone()
			bad.T1 = t.RandPoint()
			q, err := bad.lib()
			if !t.Check(err == nil, "%v", err) {
				return
			}
			ic := t.ippCase(4)
			ip, err := innerproduct.Generate(ic.G, ic.H, ic.a, ic.b, ic.f, ic.Q)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			ipRef := refIPP(ic.G, ic.H, bigs(ic.a), bigs(ic.b), bigs(ic.f), ic.Q, nil)
			ped := pedersen.New([]byte("race"))
			ped.BaseVector.Compute(4)
			ped.GenData = t.spare(ped.GenData)
			pg := refGens([]byte("race"), 4)
			pg2 := refGens(append([]byte("race"), 1), 4)
			pg3 := refGens(append([]byte("race"), 2), 1)
			gen := generator.New([]byte("race"))
			next := refGens([]byte("race"), 1)[0]
			vec := []sc{t.RandScalar(), t.RandScalar(), t.RandScalar()}
			base := deriveP([]byte("blindPoint"))
			ops := []rop{
				{"Verify", func(*rand.Rand) string {
					if ok, err := rangeproof.Verify(p); !ok {
						return fmt.Sprint("rejected ", err)
					}
					return ""
				}},
				{"Prove", func(r *rand.Rand) string {
					n, err := rangeproof.Prove(v, r.IntN(2) == 0)
					if err != nil {
						return err.Error()
					}
					w, err := fromRP(&n)
					if err != nil {
						return err.Error()
					}
					if err := w.verify(); err != nil {
						return "invalid proof: " + err.Error()
					}
					return ""
				}},
				{"Verify of a wrong proof", func(*rand.Rand) string {
					if ok, _ := rangeproof.Verify(q); ok {
						return "accepted"
					}
					return ""
				}},
				{"Encode", func(*rand.Rand) string {
					b, err := encRP(&p, true)
					if err != nil {
						return err.Error()
					}
					return differ(b, enc)
				}},
				{"Decode and Equals", func(*rand.Rand) string {
					var n rangeproof.Proof
					if err := n.Decode(bytes.NewReader(enc), true); err != nil {
						return err.Error()
					}
					if !n.Equals(p, true) || !p.Equals(n, true) || p.Equals(q, true) {
						return "wrong equality"
					}
					return ""
				}},
				{"innerproduct.Generate", func(*rand.Rand) string {
					n, err := innerproduct.Generate(ic.G, ic.H, ic.a, ic.b, ic.f, ic.Q)
					if err != nil {
						return err.Error()
					}
					return differ(n.A.Bytes(), ipRef.a.Bytes()) + differ(n.B.Bytes(), ipRef.b.Bytes())
				}},
				{"innerproduct.Verify", func(*rand.Rand) string {
					if !ic.lib(ip) {
						return "rejected"
					}
					a, b, s := ip.VerifScalars()
					if len(a) != 2 || len(b) != 2 || len(s) != 4 {
						return "wrong scalars"
					}
					return ""
				}},
				{"CommitToScalar", func(*rand.Rand) string {
					c := ped.CommitToScalar(vec[0])
					w := add(mul(base, vec[0]), mulBase(c.BlindingFactor))
					return differ(c.Value.Bytes(), w.Bytes())
				}},
				{"CommitToVectors", func(*rand.Rand) string {
					c := ped.CommitToVectors(vec, vec, vec[:1])
					w := mulBase(c.BlindingFactor)
					for i := range vec {
						w = add(w, add(mul(pg[i], vec[i]), mul(pg2[i], vec[i])))
					}
					w = add(w, mul(pg3[0], vec[0]))
					return differ(c.Value.Bytes(), w.Bytes())
				}},
				{"new generators", func(*rand.Rand) string {
					g := generator.New([]byte("race"))
					g.Compute(3)
					return differ(g.Bases[2].Bytes(), pg[2].Bytes())
				}},
				{"Iterate", func(*rand.Rand) string {
					n := gen.Iterate()
					return differ(n.Bytes(), next.Bytes())
				}},
				{"BitCommit", func(*rand.Rand) string {
					b := rangeproof.BitCommit(big.NewInt(12345))
					if err := b.Debug(big.NewInt(12345)); err != nil {
						return err.Error()
					}
					return ""
				}},
			}
			t.stress("proof", 8, t.N(4, 10), ops)
			var near []rop // those which share the committer
			for _, o := range ops {
				switch o.name {
				case "CommitToScalar", "CommitToVectors", "new generators", "Iterate":
					near = append(near, o)
				}
			}
			t.stress("committer", 8, t.N(8, 30), near)
			if !raceEnabled { // proofs of different sizes, verified only
				var vo []rop
				for _, n := range []int{1, 2, 4} {
					p, err := rangeproof.Prove(scalars(t.values(n)), false)
					if !t.Check(err == nil, "%v", err) {
						return
					}
					twin, err := fromRP(&p)
					if !t.Check(err == nil, "%v", err) {
						return
					}
					bad := twin.clone()
					bad.V[n-1] = t.RandPoint()
					q, err := bad.lib()
					if !t.Check(err == nil, "%v", err) {
						return
					}
					vo = append(vo, rop{fmt.Sprintf("Verify of %d", n), func(*rand.Rand) string {
						if ok, err := rangeproof.Verify(p); !ok {
							return fmt.Sprint("rejected ", err)
						}
						return ""
					}}, rop{fmt.Sprintf("Verify of a wrong proof of %d", n), func(*rand.Rand) string {
						if ok, _ := rangeproof.Verify(q); ok {
							return "accepted"
						}
						return ""
					}})
				}
				for i := 0; i < t.N(6, 20); i++ {
					t.stress1("verifiers", 8, 3, vo) // started together, again and again
				}
			}
		})
	}
	t.Sample("12 operations on shared values, proofs and committers")
}

func raceMisc(t *T) {
	crand.Reader = sysRand
	for round := 0; round < t.N(30, 200); round++ {
		t.Case(fmt.Sprintf("digest, tree and vector round %d", round), func() {
			in := append(make([]byte, 0, 400), t.Bytes(t.IntN(300))...)
			var want [][]byte
			for _, d := range digestFns {
				want = append(want, d.ref(in))
			}
			sum := uint32(refXXH64(in) >> 32)
			n := 1 + t.IntN(9)
			var hs [][]byte
			var pl []merkletree.Payload
			for i := 0; i < n; i++ {
				h := t.Bytes(32)
				if round%3 == 1 { // of other lengths
					h = t.Bytes(1 + t.IntN(7))
				}
				hs = append(hs, h)
				pl = append(pl, &pay{h: h, buf: t.spare(h)})
			}
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			root := refRoot(hs)
			fs := fiatshamir.HashCacher{Cache: append(make([]byte, 0, 500), in...)}
			chal := refChallenge(in)
			a, b := t.edgeScalars(5), t.edgeScalars(5)
			dot := scBig(bdot(bigs(a), bigs(b)))
			var ps []pt
			for range a {
				ps = append(ps, t.RandPoint())
			}
			exp := msm(bigs(a), ps)
			ops := []rop{
				{"tree", func(*rand.Rand) string {
					x, err := merkletree.NewTree(pl)
					if err != nil {
						return err.Error()
					}
					return differ(x.MerkleRoot, root)
				}},
				{"VerifyTree", func(*rand.Rand) string {
					ok, err := merkletree.VerifyTree(tr)
					if !ok || err != nil {
						return fmt.Sprint("verdict ", ok, err)
					}
					return differ(tr.MerkleRoot, root)
				}},
				{"VerifyContent", func(r *rand.Rand) string {
					ok, err := tr.VerifyContent(pl[r.IntN(n)])
					if !ok || err != nil {
						return fmt.Sprint("verdict ", ok, err)
					}
					return ""
				}},
				{"VerifyContent of a stranger", func(r *rand.Rand) string {
					ok, err := tr.VerifyContent(&pay{h: []byte{byte(r.IntN(256)), 1, 2, 3, 4, 5, 6, 7, 8}})
					if ok || err != nil {
						return fmt.Sprint("verdict ", ok, err)
					}
					return ""
				}},
				{"VerifyNode of any node", func(r *rand.Rand) string {
					k := r.IntN(len(tr.Leaves))
					for x := tr.Leaves[k]; x != nil; x = x.Parent {
						h, err := merkletree.VerifyNode(x)
						if err != nil {
							return err.Error()
						}
						if m := differ(h, x.Hash); m != "" {
							return m
						}
					}
					return ""
				}},
				{"VerifyNode, CalculateNodeHash", func(*rand.Rand) string {
					x, err := merkletree.VerifyNode(tr.Root)
					y, err2 := merkletree.CalculateNodeHash(tr.Root)
					if err != nil || err2 != nil {
						return fmt.Sprint(err, err2)
					}
					return differ(x, root) + differ(y, root)
				}},
				{"Checksum", func(*rand.Rand) string {
					c, err := hash.Checksum(in)
					if err != nil || c != sum || !hash.CompareChecksum(in, sum) || hash.CompareChecksum(in, sum+1) {
						return fmt.Sprint("wrong ", c, err)
					}
					return ""
				}},
				{"RandEntropy", func(*rand.Rand) string {
					b, err := hash.RandEntropy(33)
					if err != nil || len(b) != 33 {
						return fmt.Sprint(len(b), err)
					}
					return ""
				}},
				{"transcript", func(*rand.Rand) string {
					s := fs.Derive()
					return differ(s.Bytes(), chal.Bytes()) + differ(fs.Result(), in)
				}},
				{"vectors", func(*rand.Rand) string {
					x, err := vector.InnerProduct(a, b)
					if err != nil {
						return err.Error()
					}
					_, _ = vector.Add(a, b)
					_, _ = vector.Sub(a, b)
					_, _ = vector.Hadamard(a, b)
					_ = vector.AddScalar(a, b[0])
					_ = vector.SubScalar(a, b[0])
					_ = vector.MulScalar(a, b[0])
					_ = vector.Neg(a)
					_, _, _ = vector.SplitScalars(a, 2)
					_, _, _ = vector.SplitPoints(ps, 2)
					return differ(x.Bytes(), dot.Bytes())
				}},
				{"multi-exponentiation", func(*rand.Rand) string {
					x, err := vector.Exp(a, ps, 5, 1)
					if err != nil {
						return err.Error()
					}
					return differ(x.Bytes(), exp.Bytes())
				}},
			}
			for i, d := range digestFns {
				ops = append(ops, rop{d.name, func(*rand.Rand) string {
					got, err := d.f(in)
					if err != nil {
						return err.Error()
					}
					return differ(got, want[i])
				}})
			}
			t.stress("misc", 8, t.N(25, 60), ops)
		})
	}
	t.Sample("15 operations on shared inputs, trees, transcripts and vectors")
}

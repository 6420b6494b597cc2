package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	unit("mem.large", "the memory monitor over larger inputs: lists of 4 to 40 keys and signatures, rings of 8 to 65 members, proofs of 4 to 16 values, vectors of 16 to 300 entries, trees of 13 to 130 payloads, messages of up to 1.1 MB; distinct = (operation, inputs)", 8, 32, memLarge)
	more = append(more, [2]string{"C28", "mem.large"})
}

func memLarge(t *T) {
	sizes := []int{4, 5, 6, 8, 9, 12, 16, 17, 33, 40}
	for i := 0; i < t.N(1, 8); i++ {
		n := sizes[(i*t.Shards+t.Shard)%len(sizes)]
		t.Case(fmt.Sprintf("lists of %d keys and signatures", n), func() {
			mk := func() (ks []*bkey, pks []*bls.PublicKey, apks []*bls.Apk, msgs [][]byte, us []*bls.UnsafeSignature, g2s []*bn256.G2, in []any) {
				ks = t.bkeys(n)
				pks, apks = make([]*bls.PublicKey, 0, n+8), make([]*bls.Apk, 0, n+8)
				msgs, us = make([][]byte, 0, n+8), make([]*bls.UnsafeSignature, 0, n+8)
				for j, k := range ks {
					pks = append(pks, k.pk)
					apks = append(apks, t.apkOf(k.x))
					m := t.spare(append(t.Msg(), byte(j)))
					if t.IntN(8) == 0 && j > 0 { // repeated
						m = t.spare(msgs[j-1])
					}
					msgs = append(msgs, m)
					us = append(us, t.usigOf(mulq(k.x, hashInt(m))))
					g2s = append(g2s, new(bn256.G2).ScalarBaseMult(k.x))
				}
				if t.IntN(2) == 0 {
					pks[n-1], ks[n-1] = pks[0], ks[0]
				}
				in = []any{pks, apks, msgs, us}
				for j := range ks {
					in = append(in, pks[j], apks[j], us[j])
				}
				return
			}
			_, pks, _, _, _, _, in := mk()
			t.memOp(fmt.Sprintf("AggregateApk of %d", n), in, true, false, func() []any {
				a, err := bls.AggregateApk(pks)
				return []any{a, errStr(err)}
			})
			_, _, _, _, us, _, in := mk()
			t.memOp(fmt.Sprintf("UnsafeBatch of %d", n), in, true, false, func() []any {
				s, err := bls.UnsafeBatch(us...)
				return []any{s, errStr(err)}
			})
			ks, pks, apks, msgs, us, g2s, in := mk()
			sum := new(big.Int)
			for j := range ks {
				sum = addq(sum, mulq(ks[j].x, hashInt(msgs[j])))
			}
			sg, ug := t.sigOf(sum), t.usigOf(sum)
			comp := t.spare(sg.Compress())
			in = append(in, sg, ug, comp, g2s)
			t.memOp(fmt.Sprintf("verification of a batch of %d", n), in, true, false, func() []any {
				return []any{errStr(bls.VerifyBatch(apks, msgs, sg)), errStr(bls.VerifyUnsafeBatch(pks, msgs, ug)),
					errStr(bls.VerifyCompressed(g2s, msgs, comp, true)), errStr(bls.VerifyCompressed(g2s, msgs, comp, false))}
			})
			_, pks, _, msgs, us, _, in = mk()
			t.memOp(fmt.Sprintf("aggregation of %d, one after the other", n), in, true, false, func() []any {
				a := bls.NewApk(pks[0])
				s := t.sigOf(big.NewInt(5))
				for j := 1; j < n; j++ {
					t.Check(a.Aggregate(pks[j]) == nil && s.Add(pks[j], us[j]) == nil, "aggregation fails")
				}
				return []any{a, s}
			})
		})
		rn := []int{8, 9, 16, 20, 33, 65, 7, 31}[(i*t.Shards+t.Shard)%8]
		t.Case(fmt.Sprintf("rings of %d members", rn+1), func() {
			sk := t.NonZeroScalar()
			msg := t.spare(append(t.Msg(), t.Bytes([]int{0, 4096, 70000}[t.IntN(3)])...))
			mix := t.spareP(t.decoys(rn, mulBase(sk)))
			t.memOp("blsag.Sign", []any{msg, mix, &sk}, false, false, func() []any {
				s := blsag.Sign(msg, mix, sk)
				return []any{&s}
			})
			msg = t.spare(t.Msg())
			mix = t.spareP(t.decoys(rn, mulBase(sk)))
			s := blsag.Sign(msg, mix, sk)
			s.S, s.PubKeys = t.spareS(s.S), t.spareP(s.PubKeys)
			t.memOp("blsag.Verify", []any{msg, &s}, true, false, func() []any { return []any{blsag.Verify(msg, s)} })
			held := make([]mlsag.PubKeys, 0, rn+9)
			for _, v := range t.dualRing(rn) {
				held = append(held, libPubKeys(v))
			}
			x, y := t.NonZeroScalar(), t.NonZeroScalar()
			p := t.RandPoint()
			in := []any{msg, &x, &y, &p}
			for k := range held {
				in = append(in, &held[k])
			}
			t.memOp("mlsag prover", in, false, false, func() []any {
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(x)
				d.SetCommToZero(y)
				d.SetMsg(msg)
				d.AddDecoys(held)
				d.SubCommToZero(p)
				sig, im, err := d.Prove()
				t.Check(err == nil, "%v", err)
				return []any{sig, &im}
			})
			r := t.randSig(rn, 2)
			sig, err := r.mlsag()
			if !t.Check(err == nil, "%v", err) {
				return
			}
			ims := t.spareP([]pt{t.RandPoint(), t.RandPoint()})
			t.memOp("mlsag Verify, Encode, Equals", []any{sig, ims}, true, false, func() []any {
				ok, err := sig.Verify(ims)
				b, err2 := encSig(sig, true)
				return []any{ok, errStr(err), b, errStr(err2), sig.Equals(*sig, true)}
			})
		})
		m := []int{4, 6, 7, 8, 4, 9, 5, 16}[(i*t.Shards+t.Shard)%8]
		t.Case(fmt.Sprintf("proofs of %d values", m), func() {
			v := t.spareS(scalars(t.values(m)))
			var pf rangeproof.Proof
			before := dumpAll([]any{v})
			pf, err := rangeproof.Prove(v, m%2 == 1)
			t.Check(dumpAll([]any{v})[0] == before[0], "Prove of %d values changes its input or the memory behind it", m)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			pf.V = append(append(make([]pedersen.Commitment, 0, 40), pf.V...), pf.V...)[:len(pf.V):40]
			pf.IPProof.L, pf.IPProof.R = t.spareP(pf.IPProof.L), t.spareP(pf.IPProof.R)
			d := dumpAll([]any{&pf})
			scribble(t, v)
			t.Check(dumpAll([]any{&pf})[0] == d[0], "a proof of %d values changes with the caller's list of values", m)
			ok, err := rangeproof.Verify(pf)
			t.Check(ok && err == nil, "a proof is rejected: %v", err)
			t.Check(dumpAll([]any{&pf})[0] == d[0], "Verify of a proof of %d values changes it or the memory behind it", m)
			b, err := encRP(&pf, true)
			t.Check(err == nil && pf.Equals(pf, true), "%v", err)
			t.Check(dumpAll([]any{&pf})[0] == d[0], "Encode or Equals of a proof of %d values changes it", m)
			t.Seen("proof", b)
		})
		vn := []int{16, 32, 64, 65, 100, 128, 256, 300}[(i*t.Shards+t.Shard)%8]
		t.Case(fmt.Sprintf("vectors of %d entries", vn), func() {
			var raw []pt
			for k := 0; k < vn; k++ {
				raw = append(raw, t.RandPoint())
			}
			mk := func() ([]sc, []sc, []pt) {
				return t.spareS(t.edgeScalars(vn)), t.spareS(t.edgeScalars(vn)), t.spareP(raw)
			}
			s := t.EdgeScalar()
			a, b, ps := mk()
			t.memOp("vector operations", []any{a, b, ps, &s}, true, false, func() []any {
				r1, e1 := vector.Add(a, b)
				r2, e2 := vector.Sub(a, b)
				r3, e3 := vector.Hadamard(a, b)
				ip, e4 := vector.InnerProduct(a, b)
				ex, e5 := vector.Exp(a, ps, vn, 1)
				return []any{r1, r2, r3, &ip, &ex, errStr(e1), errStr(e2), errStr(e3), errStr(e4), errStr(e5),
					vector.AddScalar(a, s), vector.SubScalar(a, s), vector.MulScalar(a, s), vector.Neg(a), vector.ScalarPowers(s, uint32(vn))}
			})
			vec := [][]sc{t.spareS(t.edgeScalars(vn)), t.spareS(t.edgeScalars(vn / 2)), t.spareS(t.edgeScalars(3))}
			seed := t.spare(t.Bytes(21))
			t.memOp("CommitToVectors", []any{vec, vec[0], vec[1], vec[2], seed}, false, false, func() []any {
				c := pedersen.New(seed).CommitToVectors(vec...)
				return []any{&c.Value}
			})
			if vn <= 64 && vn&(vn-1) == 0 {
				ic := t.ippCase(vn)
				ic.G, ic.H, ic.a, ic.b, ic.f = t.spareP(ic.G), t.spareP(ic.H), t.spareS(ic.a), t.spareS(ic.b), t.spareS(ic.f)
				t.memOp("innerproduct.Generate and Verify", []any{ic.G, ic.H, ic.a, ic.b, ic.f, &ic.Q, &ic.P}, true, false, func() []any {
					p, err := innerproduct.Generate(ic.G, ic.H, ic.a, ic.b, ic.f, ic.Q)
					if err != nil {
						return []any{errStr(err)}
					}
					return []any{p, ic.lib(p)}
				})
			}
		})
		tn := 13 + t.IntN(118)
		t.Case(fmt.Sprintf("trees of %d payloads", tn), func() {
			pl := make([]merkletree.Payload, 0, tn+8)
			in := []any{nil}
			var hs [][]byte
			for k := 0; k < tn; k++ {
				h := t.Bytes(32)
				if k > 0 && t.IntN(5) == 0 {
					h = append([]byte{}, hs[k-1]...)
				}
				hs = append(hs, h)
				pl = append(pl, &pay{h: h, buf: t.spare(h)})
				in = append(in, pl[k])
			}
			in[0] = pl
			order := append([]merkletree.Payload{}, pl...)
			t.memOp("NewTree, RebuildTreeUsing, VerifyTree", in, true, false, func() []any {
				tr, err := merkletree.NewTree(pl)
				if err != nil {
					return []any{errStr(err)}
				}
				err2 := tr.RebuildTreeUsing(pl)
				err3 := tr.RebuildTree()
				ok, err4 := merkletree.VerifyTree(tr)
				ok2, err5 := tr.VerifyContent(order[tn-1])
				return []any{tr.MerkleRoot, errStr(err2), errStr(err3), ok, errStr(err4), ok2, errStr(err5)}
			})
		})
		t.Case("long messages", func() {
			for _, l := range []int{4097, 70000, 1100000} {
				for _, d := range digestFns {
					in := t.spare(t.Bytes(l))
					t.memOp(fmt.Sprintf("%s of %d bytes", d.name, l), []any{in}, true, false, func() []any { r, err := d.f(in); return []any{r, errStr(err)} })
				}
			}
			k := t.bkeys(1)[0]
			m := t.spare(t.Bytes(70000))
			t.memOp("Sign of a long message", []any{m, k.sk, k.pk}, true, false, func() []any {
				s, err := bls.Sign(k.sk, k.pk, m)
				u, err2 := bls.UnsafeSign(k.sk, m)
				if err != nil || err2 != nil {
					return []any{errStr(err), errStr(err2)}
				}
				return []any{s, u, errStr(bls.Verify(bls.NewApk(k.pk), m, s))}
			})
		})
	}
	_ = bytes.Equal
	t.Sample("larger inputs of every operation")
}

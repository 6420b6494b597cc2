package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
)

func init() {
	unit("bls.long", "lists of 100 to 1100 keys and signatures of a few signers: aggregated keys, sums of signatures and batches, complete and with one entry missing or altered, against the sums of the exponents; distinct = (operation, size)", 8, 16, blsLong)
	more = append(more, [2]string{"C03", "bls.long"}, [2]string{"C04", "bls.long"})
}

func blsLong(t *T) {
	n := []int{100, 129, 160, 201, 257, 300, 513, 1100}[t.Shard%8]
	ks := t.bkeys(5)
	msg := append(t.Msg(), 1)
	m := hashInt(msg)
	pick := make([]*bkey, n)
	for i := range pick {
		pick[i] = ks[t.IntN(len(ks))]
	}
	t.Case(fmt.Sprintf("%d unsafe signatures", n), func() {
		us := make([]*bls.UnsafeSignature, n)
		per := map[*bkey]*bls.UnsafeSignature{}
		sum := new(big.Int)
		for i, k := range pick {
			if per[k] == nil || t.IntN(4) == 0 {
				s, err := bls.UnsafeSign(k.sk, msg)
				if !t.Check(err == nil, "%v", err) {
					return
				}
				per[k] = s
			}
			us[i] = per[k]
			sum = addq(sum, mulq(k.x, m))
		}
		b, err := bls.UnsafeBatch(us...)
		t.Check(err == nil && bytes.Equal(b.Marshal(), g1Bytes(sum)), "the batch of %d unsafe signatures is not their sum (%v)", n, err)
		t.Seen("UnsafeBatch", n)
	})
	t.Case(fmt.Sprintf("%d keys", n), func() {
		pks := make([]*bls.PublicKey, n)
		e := new(big.Int)
		for i, k := range pick {
			pks[i] = k.pk
			if t.IntN(2) == 0 {
				pks[i] = t.pkOf(k.x)
			}
			e = addq(e, mulq(k.x, k.t))
		}
		apk, err := bls.AggregateApk(pks)
		t.Check(err == nil && bytes.Equal(apk.Marshal(), g2Bytes(e)), "the aggregated key of %d keys is not the weighted sum (%v)", n, err)
		t.Check(bls.Verify(apk, msg, t.sigOf(mulq(e, m))) == nil, "the aggregate of %d is rejected", n)
		t.Check(bls.Verify(apk, msg, t.sigOf(mulq(addq(e, mulq(pick[n-1].x, pick[n-1].t, big.NewInt(-1))), m))) != nil, "the aggregate of %d is accepted without the last signature", n)
		t.Seen("AggregateApk", n)
	})
	if n > 300 {
		n = n/4 + 1
		pick = pick[:n]
	}
	t.Case(fmt.Sprintf("batch of %d", n), func() {
		pks, apks, g2s, msgs := make([]*bls.PublicKey, n), make([]*bls.Apk, n), make([]*bn256.G2, n), make([][]byte, n)
		apkOf, g2Of := map[*bkey]*bls.Apk{}, map[*bkey]*bn256.G2{}
		for _, k := range ks {
			apkOf[k], g2Of[k] = t.apkOf(k.x), new(bn256.G2).ScalarBaseMult(k.x)
		}
		sum := new(big.Int)
		for i, k := range pick {
			msgs[i] = append([]byte{byte(i), byte(i >> 8)}, msg...)
			pks[i], apks[i], g2s[i] = k.pk, apkOf[k], g2Of[k]
			sum = addq(sum, mulq(k.x, hashInt(msgs[i])))
		}
		check := func(what string, s *big.Int, want bool, how int) {
			var err error
			switch how % 3 {
			case 0:
				err = bls.VerifyBatch(apks, msgs, t.sigOf(s))
			case 1:
				err = bls.VerifyUnsafeBatch(pks, msgs, t.usigOf(s))
			case 2:
				err = bls.VerifyCompressed(g2s, msgs, t.sigOf(s).Compress(), how%2 == 0)
			}
			t.Check((err == nil) == want, "batch of %d, %s: %v", n, what, err)
			t.Seen("batch", n, what, how%3)
		}
		check("complete", sum, true, t.Shard)
		check("complete", sum, true, t.Shard+1)
		check("another sum", addq(sum, big.NewInt(1)), false, t.Shard+2)
		j := n - 1 - t.IntN(3)
		keep := msgs[j]
		msgs[j] = t.MutateMsg(keep)
		check("one message altered", sum, false, t.Shard)
		msgs[j] = keep
		msgs[j] = msgs[t.IntN(3)]
		check("one message repeated", sum, false, 1)
		msgs[j] = keep
		check("complete again", sum, true, 2)
	})
	t.Sample("lists of %d", n)
}

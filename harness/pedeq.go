package main

import (
	"fmt"
	"math/big"

	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

func init() {
	more = append(more, [2]string{"C19", "ped.equals"})
	unit("ped.equals", "pairs of commitments, with points and blinding factors equal, different, related or special in every combination; sums of commitments; distinct = (pair)", 2, 8, pedEquals)
}

func pedEquals(t *T) {
	for i := 0; i < t.N(150, 2000); i++ {
		t.Case(fmt.Sprintf("pairs of commitments %d", i), func() {
			p := pedersen.New(t.Bytes(t.IntN(20)))
			var x pedersen.Commitment
			switch i % 3 {
			case 0:
				x = p.CommitToScalar(t.EdgeScalar())
			case 1:
				x = p.CommitToVectors(t.edgeScalars(t.IntN(4)), t.edgeScalars(t.IntN(4)))
			case 2:
				x = pedersen.Commitment{Value: t.EdgePoint(), BlindingFactor: t.EdgeScalar()}
			}
			zeroP := mulBase(scInt(0))
			values := []pt{x.Value, zeroP, mulBase(scInt(1)), sub(zeroP, x.Value), add(x.Value, x.Value), add(x.Value, mulBase(scInt(1))), t.RandPoint(), t.EdgePoint()}
			b := x.BlindingFactor
			blinds := []sc{b, scInt(0), scInt(1), sSub(scInt(0), b), sAdd(b, scInt(1)), sAdd(b, scBig(new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(252))))), t.RandScalar(), t.EdgeScalar()}
			for vi, v := range values {
				for bi, f := range blinds {
					y := pedersen.Commitment{Value: v, BlindingFactor: f}
					// another representation of the same point
					y.Value = sub(add(y.Value, mulBase(scInt(5))), mulBase(scInt(5)))
					sv := string(v.Bytes()) == string(x.Value.Bytes())
					sb := bigSc(f).Cmp(bigSc(b)) == 0
					var got [4]bool
					if !t.NoPanic("Equals", func() {
						got = [4]bool{x.Equals(y), y.Equals(x), x.EqualValue(y), y.EqualValue(x)}
					}) {
						return
					}
					t.Check(got == [4]bool{sv && sb, sv && sb, sv, sv}, "point number %d (equal: %v) and blinding factor number %d (equal: %v): Equals %v %v, EqualValue %v %v", vi, sv, bi, sb, got[0], got[1], got[2], got[3])
					t.Seen("pair", x.Value.Bytes(), vi, bi)
				}
			}
		})
	}
	t.Sample("every combination of related points and blinding factors")
}

package main

import (
	"bufio"
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sync"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	unit("race.cold", "processes whose very first uses of the library happen in several goroutines at once, under the race detector: every goroutine goes through recorded artefacts and its own operations of one family, no value is shared; results compared with the records; distinct = (goroutine, first operations)", 8, 24, raceCold)
	units["race.cold"].Race = true
	more = append(more, [2]string{"C27", "race.cold"})
}

// coldFamilies: kinds of records which start together.
var coldFamilies = [][]string{
	{"rangeproof"},
	{"commit", "commitvec", "generators"},
	{"bls.sign", "bls.key"},
	{"mlsag", "blsag"},
	{"innerproduct", "transcript"},
	{"digest", "merkle"},
	{"bls.batch", "bls.agg"},
	{"prove", "rangeproof"},
}

// own are operations without a record.
func coldOwn(t *T, kind string) {
	switch kind {
	case "rangeproof", "prove":
		v := t.values(1)
		p, err := rangeproof.Prove(scalars(v), false)
		if !t.Check(err == nil, "Prove: %v", err) {
			return
		}
		ok, err := rangeproof.Verify(p)
		t.Check(ok, "the proof is rejected: %v", err)
	case "commit", "commitvec", "generators":
		for _, d := range []string{"", "dusk.BulletProof.vec1", "dusk.BulletProof.vec2", "x", "data of some length, longer than a block of thirty-two"} {
			g := generator.New([]byte(d))
			g.Compute(3)
			ped := pedersen.New([]byte(d))
			ped.BaseVector.Compute(2)
			s := t.RandScalar()
			_ = ped.CommitToScalar(s)
			_ = ped.CommitToVectors([]sc{s, s}, []sc{s})
		}
		s := []sc{t.RandScalar(), t.RandScalar()}
		_, _ = vector.InnerProduct(s, s)
		_ = vector.ScalarPowers(s[0], 5)
		_ = vector.ScalarPowersSum(s[0], 5)
	case "mlsag", "blsag":
		x, y := t.RandScalar(), t.RandScalar()
		s := blsag.Sign([]byte("m"), []pt{t.RandPoint(), t.RandPoint()}, x)
		t.Check(blsag.Verify([]byte("m"), s), "the ring signature is rejected")
		d := mlsag.NewDualKey()
		d.SetPrimaryKey(x)
		d.SetCommToZero(y)
		d.SetMsg([]byte("m"))
		for _, v := range t.dualRing(2) {
			d.AddDecoy(libPubKeys(v))
		}
		sig, im, err := d.Prove()
		if t.Check(err == nil, "Prove: %v", err) {
			ok, err := sig.Verify([]pt{im})
			t.Check(ok, "the ring proof is rejected: %v", err)
		}
	case "digest", "merkle":
		b, err := hash.RandEntropy(32)
		t.Check(err == nil && len(b) == 32, "RandEntropy: %v", err)
		_, _ = hash.Checksum(b)
	default:
		k := t.newKey(big.NewInt(int64(2 + t.IntN(1000))))
		if k == nil {
			return
		}
		s, err := bls.Sign(k.sk, k.pk, []byte("m"))
		if t.Check(err == nil, "Sign: %v", err) {
			err = bls.Verify(bls.NewApk(k.pk), []byte("m"), s)
			t.Check(err == nil, "Verify: %v", err)
		}
		c := s.Compress()
		t.Check(s.Decompress(c) == nil, "Decompress fails")
	}
}

func raceCold(t *T) {
	crand.Reader = sysRand
	f, err := os.Open(filepath.Join(dataDir, "golden.jsonl"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	byKind := map[string][]rec{}
	for r := bufio.NewReader(f); ; {
		line, err := r.ReadBytes('\n')
		if err == io.EOF {
			break
		}
		var g rec
		if json.Unmarshal(line, &g) != nil {
			fmt.Fprintln(os.Stderr, "bad record")
			os.Exit(3)
		}
		if g.Kind == "rangeproof" && len(g.In) > 2 || g.Kind == "innerproduct" && g.In[1] > "08" {
			continue // long under the race detector
		}
		byKind[g.Kind] = append(byKind[g.Kind], g)
	}
	const workers = 6
	subs := make([]*T, workers)
	plans := make([][]string, workers)
	for w := range subs {
		subs[w] = &T{
			Rand:  rand.New(rand.NewPCG(t.Uint64(), t.Uint64())),
			Shard: t.Shard, Shards: t.Shards, Tier: t.Tier, unit: t.unit, seed: t.seed,
			distinct: map[uint64]struct{}{}, events: map[string]int64{}, known: map[string]string{},
		}
		fam := coldFamilies[t.Shard%len(coldFamilies)]
		plans[w] = append(plans[w], fam[w%len(fam)], fam[(w+1)%len(fam)])
		if t.Shard >= len(coldFamilies) { // everything starts at once
			plans[w] = nil
		}
		for k := 0; k < t.N(4, 8); k++ {
			o := coldFamilies[t.IntN(len(coldFamilies))]
			plans[w] = append(plans[w], o[t.IntN(len(o))])
		}
	}
	t.Case("the first uses of the library happen at the same time", func() {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := range subs {
			s, plan := subs[w], plans[w]
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(tooMany); !ok {
							s.violations = append(s.violations, Violation{t.unit, t.Shard, "", fmt.Sprintf("panic in a goroutine: %v", p)})
						}
					}
				}()
				<-start
				for i, kind := range plan {
					rs := byKind[kind]
					own := (i+w)%2 == 0 || len(rs) == 0
					if own {
						coldOwn(s, kind)
					}
					if len(rs) > 0 {
						s.golden(rs[s.IntN(len(rs))])
					}
					if !own {
						coldOwn(s, kind)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for w, s := range subs {
			for _, v := range s.violations {
				t.Violate("goroutine %d (%v): %s", w, plans[w], v.What)
			}
			t.Seen("goroutine", fmt.Sprint(plans[w]))
		}
	})
	t.Sample("first operations %v", plans[0])
}

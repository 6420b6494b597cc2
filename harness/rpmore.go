package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/big"
	"math/bits"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

func init() {
	props["C14"] = append(props["C14"], "rp.bits", "rp.series")
	props["C18"] = append(props["C18"], "ped.lists")
	unit("ped.lists", "long lists of commitments through encode and decode, truncated, with an invalid point, with bytes following; distinct = list", 4, 16, pedLists)
	props["C17"] = append(props["C17"], "ped.flow")
	unit("rp.bits", "the decomposition into bits of every 2^a-2^b, of values with runs of equal bits and bytes and of random ones, compared with the value; where it differs the value is proved; distinct = value", 4, 16, rpBits)
	unit("rp.series", "long series of cheap honest proofs, verified by the library; distinct = proof", 8, 32, rpSeries)
	unit("ped.flow", "information flow from the random source into the blinding factor of commitments to scalars and to none, empty, zero and several vectors: the bytes drawn are changed piece by piece; distinct = (inputs, piece)", 4, 16, pedFlow)
}

func rpBits(t *T) {
	var list []uint64
	for a := 0; a < 65; a++ {
		for b := 0; b < 64; b++ {
			if (a+b)%t.Shards != t.Shard {
				continue
			}
			v := uint64(1)<<a - uint64(1)<<b
			list = append(list, v, v+1, v-1, bits.ReverseBytes64(v))
		}
	}
	for i := 0; i < t.N(6000, 60000); i++ {
		v := t.patternValue()
		if i%3 == 0 {
			v = t.Uint64() >> uint(t.IntN(64))
		}
		list = append(list, v)
	}
	one := scInt(1)
	var zero, minus sc
	zero.SetZero()
	minus.Neg(&one)
	for n := 0; n < len(list); n += 500 {
		t.Case(fmt.Sprintf("bits of values from number %d", n), func() {
			proved := 0
			for _, v := range list[n:min(n+500, len(list))] {
				big64 := new(big.Int).SetUint64(v)
				var bc rangeproof.BitCommitment
				if !t.NoPanic("BitCommit", func() { bc = rangeproof.BitCommit(big64) }) {
					return
				}
				ok := len(bc.AL) == 64 && len(bc.AR) == 64
				for i := 0; ok && i < 64; i++ {
					l, r := zero, minus
					if v>>uint(i)&1 == 1 {
						l, r = one, zero
					}
					ok = bc.AL[i].Equals(&l) && bc.AR[i].Equals(&r)
				}
				t.Seen("bits", v)
				if ok || proved > 3 {
					continue
				}
				// what counts is whether the value can be proved
				proved++
				p, err := rangeproof.Prove([]sc{scBig(new(big.Int).SetUint64(v))}, false)
				if t.Check(err == nil, "%x cannot be proved: %v", v, err) {
					t.Check(t.accepted(p, "an honest proof"), "an honest proof of %x is rejected", v)
				}
			}
		})
	}
	t.Sample("%d values cut into bits", len(list))
}

func rpSeries(t *T) {
	for k := 0; k < t.N(6, 60); k++ {
		for _, m := range []int{1, 1, 2} {
			t.Case(fmt.Sprintf("series %d of proofs over %d values", k, m), func() {
				for i := 0; i < 10; i++ {
					v := t.values(m)
					in := scalars(v)
					p, err := rangeproof.Prove(in, false)
					if !t.Check(err == nil, "proving %x fails: %v", v, err) {
						return
					}
					t.Check(t.accepted(p, "an honest proof"), "an honest proof of %x is rejected", v)
					t.Seen("proof", p.T2.Bytes())
				}
			})
		}
	}
	t.Sample("long series of proofs")
}

func pedFlow(t *T) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	type shape struct {
		name string
		do   func(p *pedersen.Pedersen) pedersen.Commitment
	}
	for i := 0; i < t.N(3, 20); i++ {
		seed := t.Bytes(t.IntN(40))
		var shapes []shape
		scalar := func(name string, s sc) {
			shapes = append(shapes, shape{"scalar " + name, func(p *pedersen.Pedersen) pedersen.Commitment { return p.CommitToScalar(s) }})
		}
		vectors := func(vs ...[]sc) {
			shapes = append(shapes, shape{fmt.Sprintf("vectors of lengths %v", lens(vs)), func(p *pedersen.Pedersen) pedersen.Commitment { return p.CommitToVectors(vs...) }})
		}
		scalar("0", scInt(0))
		scalar("1", scInt(1))
		scalar("-1", scBig(new(big.Int).Sub(groupL, big.NewInt(1))))
		scalar("2^64-1", scBig(new(big.Int).SetUint64(1<<64-1)))
		scalar("edge", t.EdgeScalar())
		scalar("random", t.RandScalar())
		vectors()
		vectors(nil)
		vectors([]sc{})
		vectors([]sc{}, []sc{})
		vectors([]sc{}, t.edgeScalars(2))
		vectors(t.edgeScalars(2), nil)
		vectors(make([]sc, 3))
		vectors(make([]sc, 1), make([]sc, 1))
		vectors(t.edgeScalars(1))
		vectors(t.edgeScalars(1), t.edgeScalars(1), t.edgeScalars(1))
		vectors(t.edgeScalars(1+t.IntN(9)), t.edgeScalars(1+t.IntN(9)))
		vectors(t.edgeScalars(64), t.edgeScalars(64))
		for _, sh := range shapes {
			t.Case(fmt.Sprintf("flow into the commitment to %s", sh.name), func() {
				p := pedersen.New(append([]byte{}, seed...))
				d := newDRBG("pedflow", t.seed, t.Shard, i)
				d.tape = &bytes.Buffer{}
				crand.Reader = d
				base := sh.do(p)
				crand.Reader = saved
				tape := append([]byte{}, d.tape.Bytes()...)
				if !t.Check(len(tape) >= 32, "the commitment is blinded with %d random bytes", len(tape)) {
					return
				}
				moved := 0
				for at := 0; at < len(tape); at += 8 {
					b := append([]byte{}, tape...)
					for j := at; j < at+8 && j < len(b); j++ {
						b[j] ^= byte(1 + t.IntN(255))
					}
					crand.Reader = &tapeReader{b: b, ext: newDRBG("ext", at)}
					c := sh.do(p)
					crand.Reader = saved
					if !c.BlindingFactor.Equals(&base.BlindingFactor) && !sameP(c.Value, base.Value) {
						moved++
					}
					t.Seen("piece", sh.name, seed, at, c.BlindingFactor.Bytes())
				}
				t.Check(moved >= 3, "%d of the %d pieces of 8 bytes drawn change the blinding factor and the commitment", moved, len(tape)/8)
				// and with the real source
				a, b := sh.do(p), sh.do(p)
				t.Check(!a.BlindingFactor.Equals(&b.BlindingFactor) && !sameP(a.Value, b.Value), "two commitments share a blinding factor")
			})
		}
	}
	t.Sample("bytes drawn for commitments changed piece by piece")
}

// pedLists takes long lists of commitments through their encoding.
func pedLists(t *T) {
	sizes := [][]int{{1025, 255}, {256, 257, 4097}, {2049, 65}, {20001}}[t.Shard%4]
	if t.Tier == "thorough" {
		sizes = []int{1 + t.IntN(5000), 65537, 1 + t.IntN(70000)}
	}
	for _, n := range sizes {
		t.Case(fmt.Sprintf("a list of %d commitments", n), func() {
			comms := make([]pedersen.Commitment, n)
			p, step := t.RandPoint(), t.RandPoint()
			for i := range comms {
				comms[i].Value = p
				p = add(p, step)
			}
			var buf bytes.Buffer
			err := pedersen.EncodeCommitments(&buf, comms)
			if !t.Check(err == nil && buf.Len() == 4+32*n, "encoding %d commitments gives %d bytes, %v", n, buf.Len(), err) {
				return
			}
			enc := buf.Bytes()
			rest := []byte("rest")
			r := bytes.NewReader(append(append([]byte{}, enc...), rest...))
			got, err := pedersen.DecodeCommitments(r)
			if !t.Check(err == nil && len(got) == n, "decoding %d commitments gives %d, %v", n, len(got), err) {
				return
			}
			for i := range got {
				if !t.Check(got[i].EqualValue(comms[i]), "commitment %d of %d changes on its way", i, n) {
					break
				}
			}
			t.Check(r.Len() == len(rest), "%d bytes after %d commitments are consumed", len(rest)-r.Len(), n)
			_, err = pedersen.DecodeCommitments(bytes.NewReader(enc[:len(enc)-1-t.IntN(32)]))
			t.Check(err != nil, "a truncated list of %d commitments is accepted", n)
			bad := append([]byte{}, enc...)
			k := t.IntN(n)
			for i := range 32 {
				bad[4+32*k+i] = 0xff
			}
			_, err = pedersen.DecodeCommitments(bytes.NewReader(bad))
			t.Check(err != nil, "an invalid point as commitment %d of %d is accepted", k, n)
			t.Seen("list", n, p.Bytes())
		})
	}
	t.Sample("lists of %v commitments", sizes)
}

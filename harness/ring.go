package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	props["C06"] = []string{"blsag.sign"}
	props["C07"] = []string{"blsag.verify", "blsag.forge", "blsag.large"}
	props["C08"] = []string{"mlsag.prove", "mlsag.refuse"}
	props["C09"] = []string{"mlsag.verify", "mlsag.forge", "mlsag.large"}
	props["C10"] = []string{"link.images", "link.verify"}
	props["C11"] = []string{"ring.entropy", "ring.position", "ring.flow"}
	props["C12"] = []string{"mlsag.codec", "mlsag.hostile", "mlsag.equals"}
	props["C13"] = []string{"mlsag.history"}

	unit("blsag.sign", "generated messages, decoy lists (sizes 0..40, duplicates, signer's key, identity) and secrets; each signature is compared with the ring asked for and the independent verifier; distinct = (message, ring, secret)", 8, 32, blsagSign)
	unit("blsag.verify", "alterations of every element of honest signatures (library and reference prover), verdict compared with the independent verifier; distinct = (signature, alteration)", 8, 32, func(t *T) { ringAlter(t, blsagScheme{}) })
	unit("blsag.forge", "signatures closed by a dishonest prover under a weakened verification equation (each commitment, row and message binding left out in turn) have to be rejected; distinct = (ring size, signer row, weakened part)", 8, 32, func(t *T) { ringForge(t, blsagScheme{}) })
	unit("mlsag.prove", "generated messages, key pairs, decoys and offsets; each proof is compared with the ring asked for and the independent verifier, also after decoding; distinct = (message, ring, keys)", 8, 32, mlsagProve)
	unit("mlsag.refuse", "zero keys and decoys with another number of keys have to be refused with an error; distinct = (kind, position)", 2, 8, mlsagRefuse)
	unit("mlsag.verify", "alterations of every element of honest proofs (library and reference prover, 1 to 4 keys), verdict compared with the independent verifier; distinct = (signature, alteration)", 8, 32, func(t *T) { ringAlter(t, mlsagScheme{}) })
	unit("mlsag.forge", "proofs closed by a dishonest prover under a weakened verification equation (each commitment of each key, key image, row and message binding left out in turn) have to be rejected; distinct = (ring size, signer row, weakened part)", 8, 32, func(t *T) { ringForge(t, mlsagScheme{}) })
	unit("blsag.large", "rings of 12 to 300 members: honest signatures accepted, alterations of selected members (ends, middle, around powers of two) rejected; distinct = (ring size, member, alteration)", 8, 32, func(t *T) { ringLarge(t, blsagScheme{}) })
	unit("mlsag.large", "the same for proofs, with up to 12 keys per member; distinct = (ring size, member, alteration)", 8, 32, func(t *T) { ringLarge(t, mlsagScheme{}) })
	unit("link.images", "histories of signatures and proofs of several secrets (related ones included) over both schemes, messages, rings and prover objects; all pairs compared; distinct = (secret, scheme, message)", 8, 32, linkImages)
	unit("link.verify", "every key image but the right one offered to the verifiers, and dishonest provers choosing their own key image; distinct = (signature, image)", 8, 32, linkVerify)
	unit("ring.entropy", "signatures made under a constant and under known random sources; nonces recovered from responses with the known secret; repetition and bit statistics over all shards; distinct = nonce or response", 8, 32, ringEntropy)
	unit("ring.position", "positions of the signer over repeated and varied inputs, chi-square over positions and consecutive pairs of all shards together; distinct = (scheme, ring size, position pair)", 8, 32, ringPosition)
	unit("ring.flow", "the same signing call repeated with single bytes of its random tape changed; nonces, responses and position recovered with the known secret must not always change together; distinct = (scheme, shape, tape byte)", 8, 32, ringFlow)
	units["ring.entropy"].Finish = finishEntropy
	units["ring.position"].Finish = finishPosition
	unit("mlsag.codec", "signatures of generated shapes through encode and decode with chunked readers and writers failing at every byte; distinct = (shape, chunking or failure point)", 8, 32, mlsagCodec)
	unit("mlsag.hostile", "truncations at every byte, non-canonical and invalid elements, inconsistent and huge counts, random bytes; allocation measured; distinct = (encoding, alteration)", 8, 32, mlsagHostile)
	unit("mlsag.equals", "pairs of signatures differing in exactly one element, count or key; distinct = (shape, difference)", 4, 16, mlsagEquals)
	unit("mlsag.history", "random histories of prover calls and caller-side changes next to a model; every issued signature is re-encoded and re-verified after later steps; distinct = (history prefix)", 8, 32, mlsagHistory)
}

// decoys generates decoy keys.
func (t *T) decoys(n int, own pt) []pt {
	var d []pt
	for i := 0; i < n; i++ {
		switch t.IntN(12) {
		case 0:
			d = append(d, own)
		case 1:
			if i > 0 {
				d = append(d, d[t.IntN(i)])
				continue
			}
			d = append(d, t.RandPoint())
		case 2:
			d = append(d, t.EdgePoint())
		default:
			d = append(d, t.RandPoint())
		}
	}
	return d
}

func (t *T) ringSize(i int) int {
	fixed := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17}
	if i < len(fixed) {
		return fixed[i]
	}
	if i == len(fixed) {
		// one large ring per process
		big := []int{31, 32, 63, 64, 100, 127, 128, 255, 256, 300}
		return big[t.Shard%len(big)]
	}
	return t.IntN(t.N(12, 24))
}

func blsagSign(t *T) {
	for i := 0; i < t.N(300, 3000); i++ {
		n := t.ringSize(i)
		if t.Shard == 0 && i == 20 {
			n = 40
		}
		if t.Shard == 1 && i == 20 {
			n = 300 // more members than a byte can count
		}
		x := t.RandScalar()
		if i%4 == 3 {
			x = t.EdgeScalar()
		}
		own := mulBase(x)
		mix := t.decoys(n, own)
		msg := t.Msg()
		if i == 21 {
			msg = t.Bytes([]int{65536, 65537, 1 << 17, 1<<18 + 1, 32769, 65535, 1<<20 + 1, 100000}[t.Shard%8])
		}
		t.Case(fmt.Sprintf("blsag ring of %d decoys, x=%x msg=%s", n, bigSc(x), hx(msg)), func() {
			want := append([]pt{}, mix...)
			arg := append([]pt{}, mix...)
			if n == 0 && t.IntN(2) == 0 {
				arg = nil
			}
			sig := blsag.Sign(append([]byte{}, msg...), arg, x)
			t.Check(blsag.Verify(msg, sig), "honest ring signature with %d decoys is rejected", n)
			t.Check(len(sig.PubKeys) == n+1 && len(sig.S) == n+1, "ring of %d decoys: signature has %d keys and %d responses", n, len(sig.PubKeys), len(sig.S))
			found := -1
			for j := range sig.PubKeys {
				if !sameP(sig.PubKeys[j], own) || len(sig.PubKeys) != n+1 {
					continue
				}
				rest := append(append([]pt{}, sig.PubKeys[:j]...), sig.PubKeys[j+1:]...)
				same := true
				for k := range rest {
					if !sameP(rest[k], want[k]) {
						same = false
						break
					}
				}
				if same {
					found = j
					break
				}
			}
			t.Check(found >= 0, "the ring is not the decoys in their order with the signer's key inserted once")
			t.Check(sameP(sig.I, keyImage(x)), "the key image is not the secret times the hash of the public key")
			r, im := fromBlsag(msg, sig)
			t.Check(refRingVerify(r, im, variant{}), "the signature does not satisfy the scheme's equations")
			for k := range want {
				t.Check(sameP(arg[k], want[k]), "Sign changed the decoys of its caller")
			}
			t.Seen("signed", msg, n, sig.C.Bytes())
			t.Sample("%d decoys, signer at %d, message %s", n, found, hx(msg))
		})
	}
}

// ringAlter compares verdicts on altered signatures.
func ringAlter(t *T, s ringScheme) {
	for i := 0; i < t.N(8, 80); i++ {
		n := 1 + t.IntN(5)
		if i == 0 {
			n = 1
		}
		nk, ni := s.shape(t)
		msg := t.Msg()
		if i%3 == 0 {
			msg = t.Bytes(300 + t.IntN(500))
		}
		if i == 2 {
			// longer than any buffer or chunk somebody may put in front of the hash
			msg = t.Bytes([]int{4096, 4097, 32769, 65535, 65536, 65537, 1<<17 + 3, 1 << 18}[t.Shard%8])
		}
		var xs []sc
		j := t.IntN(n)
		var keys [][]pt
		for r := 0; r < n; r++ {
			var v []pt
			for k := 0; k < nk; k++ {
				v = append(v, t.RandPoint())
			}
			keys = append(keys, v)
		}
		var images []pt
		for k := 0; k < nk; k++ {
			x := t.RandScalar()
			if t.IntN(6) == 0 {
				x = t.NonZeroScalar()
			}
			xs = append(xs, x)
			keys[j][k] = mulBase(x)
			if k < ni {
				images = append(images, keyImage(x))
			}
		}
		t.Case(fmt.Sprintf("%s alteration %d: %d members with %d keys, %d images, msg=%s", s.name(), i, n, nk, ni, hx(msg)), func() {
			base := t.refRingProve(msg, keys, j, xs, images, variant{})
			var other rsig
			var otherIm []pt
			// a second signature of the same ring, and the library's own
			if s.name() == "blsag" {
				var mix []pt
				for r := range keys {
					if r != j {
						mix = append(mix, keys[r][0])
					}
				}
				other, otherIm = fromBlsag(msg, blsag.Sign(msg, mix, xs[0]))
			} else if nk == 2 {
				d := mlsag.NewDualKey()
				for r := range keys {
					if r != j {
						d.AddDecoy(libPubKeys(keys[r]))
					}
				}
				d.SetPrimaryKey(xs[0])
				d.SetCommToZero(xs[1])
				d.SetMsg(msg)
				l, im, err := d.Prove()
				if !t.Check(err == nil, "Prove: %v", err) {
					return
				}
				other, err = fromMlsag(l)
				t.Check(err == nil, "encoding: %v", err)
				otherIm = []pt{im}
			} else {
				other = t.refRingProve(append(msg, 1), keys, j, xs, images, variant{})
				otherIm = images
			}
			judge := func(what string, r rsig, im []pt) {
				want := refRingVerify(r, im, variant{})
				var ok bool
				var err error
				if !t.NoPanic(s.name()+" verification of "+what, func() { ok, err = s.verify(r, im) }) {
					return
				}
				if err == errShape {
					return
				}
				t.Check(ok == want, "%s: verdict %v, the scheme says %v", what, ok, want)
				t.Check(ok == (err == nil), "%s: verdict %v together with error %v", what, ok, err)
				t.Seen(fmt.Sprintf("verdict-%v", want), what, r.c.Bytes(), len(r.r), len(r.keys))
			}
			judge("honest signature of the reference prover", base, images)
			judge("honest signature of the library", other, otherIm)
			if !refRingVerify(base, images, variant{}) {
				t.Violate("reference prover is broken")
			}
			for which, b := range []rsig{base, other} {
				im := images
				o, oim := other, otherIm
				if which == 1 {
					im, o, oim = otherIm, base, images
				}
				alter := func(what string, f func(r *rsig, im *[]pt)) {
					r := b.clone()
					m := append([]pt{}, im...)
					f(&r, &m)
					judge(fmt.Sprintf("%d/%s", which, what), r, m)
				}
				one := scInt(1)
				mutS := func(x sc) sc {
					switch t.IntN(5) {
					case 0:
						return sAdd(x, one)
					case 1:
						return sSub(scInt(0), x)
					case 2:
						return scInt(0)
					case 3:
						return sAdd(x, scBig(new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(252)))))
					}
					return t.RandScalar()
				}
				mutP := func(p pt) pt {
					var z pt
					z.SetZero()
					var base pt
					base.SetBase()
					switch t.IntN(6) {
					case 0:
						return add(p, base)
					case 1:
						return sub(z, p)
					case 2:
						return z
					case 3:
						return base
					case 4:
						return add(p, p)
					}
					return t.RandPoint()
				}
				for k := 0; k < 3; k++ {
					alter("challenge", func(r *rsig, _ *[]pt) { r.c = mutS(r.c) })
				}
				for row := range b.r {
					for k := range b.r[row] {
						alter(fmt.Sprintf("response %d.%d", row, k), func(r *rsig, _ *[]pt) { r.r[row][k] = mutS(r.r[row][k]) })
						alter(fmt.Sprintf("key %d.%d", row, k), func(r *rsig, _ *[]pt) { r.keys[row][k] = mutP(r.keys[row][k]) })
						alter(fmt.Sprintf("undefined key %d.%d", row, k), func(r *rsig, _ *[]pt) { r.keys[row][k] = pt{} })
						alter(fmt.Sprintf("response %d.%d of the other signature", row, k), func(r *rsig, _ *[]pt) { r.r[row][k] = o.r[row][k] })
					}
				}
				for k := range im {
					alter(fmt.Sprintf("image %d", k), func(r *rsig, m *[]pt) { (*m)[k] = mutP((*m)[k]) })
					alter(fmt.Sprintf("image %d negated", k), func(r *rsig, m *[]pt) { var z pt; z.SetZero(); (*m)[k] = sub(z, (*m)[k]) })
					alter(fmt.Sprintf("undefined image %d", k), func(r *rsig, m *[]pt) { (*m)[k] = pt{} })
					alter(fmt.Sprintf("image %d of another key", k), func(r *rsig, m *[]pt) { (*m)[k] = keyImage(t.RandScalar()) })
				}
				if s.name() == "mlsag" {
					alter("no images", func(r *rsig, m *[]pt) { *m = nil })
					alter("image dropped", func(r *rsig, m *[]pt) { *m = (*m)[:len(*m)-1] })
					alter("image added", func(r *rsig, m *[]pt) { *m = append(*m, t.RandPoint()) })
					alter("image repeated", func(r *rsig, m *[]pt) { *m = append(*m, (*m)[0]) })
					alter("identity image added", func(r *rsig, m *[]pt) { var z pt; z.SetZero(); *m = append(*m, z) })
					if len(xs) > len(im) {
						alter("right image of the next key added", func(r *rsig, m *[]pt) { *m = append(*m, keyImage(xs[len(*m)])) })
					}
					alter("many images", func(r *rsig, m *[]pt) {
						for len(*m) <= nk {
							*m = append(*m, t.RandPoint())
						}
					})
					if len(im) > 1 {
						alter("images swapped", func(r *rsig, m *[]pt) { (*m)[0], (*m)[1] = (*m)[1], (*m)[0] })
					}
					if nk > 1 {
						for row := range b.r {
							alter(fmt.Sprintf("keys of member %d swapped", row), func(r *rsig, m *[]pt) { r.keys[row][0], r.keys[row][1] = r.keys[row][1], r.keys[row][0] })
							alter(fmt.Sprintf("keys and responses of member %d swapped", row), func(r *rsig, m *[]pt) {
								r.keys[row][0], r.keys[row][1] = r.keys[row][1], r.keys[row][0]
								r.r[row][0], r.r[row][1] = r.r[row][1], r.r[row][0]
							})
							alter(fmt.Sprintf("last key of member %d missing", row), func(r *rsig, m *[]pt) { r.keys[row] = r.keys[row][:nk-1] })
							alter(fmt.Sprintf("key of member %d added", row), func(r *rsig, m *[]pt) { r.keys[row] = append(r.keys[row], t.RandPoint()) })
						}
						alter("last key and response of all missing", func(r *rsig, m *[]pt) {
							for row := range r.r {
								r.r[row] = r.r[row][:nk-1]
								r.keys[row] = r.keys[row][:nk-1]
							}
						})
						alter("last response of all missing", func(r *rsig, m *[]pt) {
							for row := range r.r {
								r.r[row] = r.r[row][:nk-1]
							}
						})
					}
					alter("response of all added", func(r *rsig, m *[]pt) {
						for row := range r.r {
							r.r[row] = append(r.r[row], t.RandScalar())
						}
					})
					alter("key and response of all added", func(r *rsig, m *[]pt) {
						for row := range r.r {
							r.r[row] = append(r.r[row], t.RandScalar())
							r.keys[row] = append(r.keys[row], t.RandPoint())
						}
					})
				}
				for k := 0; k < 6; k++ {
					alter("message", func(r *rsig, _ *[]pt) { r.msg = t.MutateMsg(r.msg) })
				}
				if len(msg) > 40 {
					for k := 0; k < 6; k++ {
						alter("message bit", func(r *rsig, _ *[]pt) { r.msg[t.IntN(len(r.msg))] ^= 1 << t.IntN(8) })
					}
				}
				alter("empty message", func(r *rsig, _ *[]pt) { r.msg = nil })
				alter("other signature's challenge", func(r *rsig, _ *[]pt) { r.c = o.c })
				alter("other signature's responses", func(r *rsig, _ *[]pt) { r.r = o.clone().r })
				alter("other signature's ring", func(r *rsig, _ *[]pt) { r.keys = o.clone().keys })
				alter("other signature's image", func(r *rsig, m *[]pt) { *m = append([]pt{}, oim...) })
				if n > 1 {
					for row := 0; row < n; row++ {
						k := (row + 1) % n
						alter(fmt.Sprintf("members %d and %d swapped", row, k), func(r *rsig, _ *[]pt) { r.keys[row], r.keys[k] = r.keys[k], r.keys[row] })
						alter(fmt.Sprintf("members and responses %d and %d swapped", row, k), func(r *rsig, _ *[]pt) {
							r.keys[row], r.keys[k] = r.keys[k], r.keys[row]
							r.r[row], r.r[k] = r.r[k], r.r[row]
						})
						alter(fmt.Sprintf("responses %d and %d swapped", row, k), func(r *rsig, _ *[]pt) { r.r[row], r.r[k] = r.r[k], r.r[row] })
						alter(fmt.Sprintf("member %d missing", row), func(r *rsig, _ *[]pt) {
							r.keys = append(r.keys[:row:row], r.keys[row+1:]...)
							r.r = append(r.r[:row:row], r.r[row+1:]...)
						})
						alter(fmt.Sprintf("key of %d missing", row), func(r *rsig, _ *[]pt) { r.keys = append(r.keys[:row:row], r.keys[row+1:]...) })
						alter(fmt.Sprintf("response of %d missing", row), func(r *rsig, _ *[]pt) { r.r = append(r.r[:row:row], r.r[row+1:]...) })
					}
					alter("ring rotated", func(r *rsig, _ *[]pt) {
						r.keys = append(r.keys[1:], r.keys[0])
						r.r = append(r.r[1:], r.r[0])
					})
					cs := b.chain(im)
					alter("ring rotated with its challenge", func(r *rsig, _ *[]pt) {
						// the same chain entered one member later: a valid signature over the rotated ring
						r.c = cs[1]
						r.keys = append(r.keys[1:], r.keys[0])
						r.r = append(r.r[1:], r.r[0])
					})
					alter("entered elsewhere", func(r *rsig, _ *[]pt) { r.c = cs[1] })
				}
				newRow := func() (ks []pt, rs []sc) {
					for k := 0; k < nk; k++ {
						ks = append(ks, t.RandPoint())
						rs = append(rs, t.RandScalar())
					}
					return
				}
				ks, rs := newRow()
				alter("member added", func(r *rsig, _ *[]pt) { r.keys = append(r.keys, ks); r.r = append(r.r, rs) })
				alter("member added in front", func(r *rsig, _ *[]pt) { r.keys = append([][]pt{ks}, r.keys...); r.r = append([][]sc{rs}, r.r...) })
				alter("key added", func(r *rsig, _ *[]pt) { r.keys = append(r.keys, ks) })
				alter("response added", func(r *rsig, _ *[]pt) { r.r = append(r.r, rs) })
				alter("no ring", func(r *rsig, _ *[]pt) { r.keys = nil })
				alter("no responses", func(r *rsig, _ *[]pt) { r.r = nil })
				alter("nothing", func(r *rsig, _ *[]pt) { r.r, r.keys = nil, nil })
				alter("nothing at all", func(r *rsig, m *[]pt) { *r = rsig{}; *m = []pt{{}} })
				alter("doubled", func(r *rsig, _ *[]pt) {
					// running the chain twice around is a valid signature over the doubled ring
					r.keys = append(r.keys, b.clone().keys...)
					r.r = append(r.r, b.clone().r...)
				})
			}
			t.Sample("%s ring of %d members, %d keys, %d images, signer %d: every element altered in turn", s.name(), n, nk, ni, j)
		})
	}
}

// ringLarge alters selected members of large rings, and of wide ones.
func ringLarge(t *T, s ringScheme) {
	shapes := [][3]int{{12, 1, 1}, {17, 1, 1}, {33, 1, 1}, {65, 1, 1}, {100, 1, 1}, {129, 1, 1}, {257, 1, 1}, {300, 1, 1}}
	if s.name() == "mlsag" {
		shapes = [][3]int{{12, 2, 1}, {17, 2, 2}, {33, 2, 1}, {65, 2, 1}, {100, 1, 1}, {129, 2, 1}, {257, 2, 1}, {3, 12, 12}}
	}
	list := [][3]int{shapes[t.Shard%8]}
	if t.Tier == "thorough" {
		list = append(list, [3]int{1 + t.IntN(280), 1, 1}, [3]int{2, 40, 39}, [3]int{1 + t.IntN(60), 1 + t.IntN(9), 1})
		if s.name() == "blsag" {
			list = list[:2]
		}
	}
	for _, sh := range list {
		n, nk, ni := sh[0], sh[1], sh[2]
		t.Case(fmt.Sprintf("%s ring of %d members with %d keys, %d images", s.name(), n, nk, ni), func() {
			msg := t.Msg()
			j := t.IntN(n)
			var keys [][]pt
			g := t.RandPoint()
			for r := 0; r < n; r++ {
				var v []pt
				for k := 0; k < nk; k++ {
					g = add(g, mulBase(scInt(1)))
					v = append(v, g)
				}
				keys = append(keys, v)
			}
			var xs []sc
			var images []pt
			for k := 0; k < nk; k++ {
				x := t.RandScalar()
				xs = append(xs, x)
				keys[j][k] = mulBase(x)
				if k < ni {
					images = append(images, keyImage(x))
				}
			}
			base := t.refRingProve(msg, keys, j, xs, images, variant{})
			judge := func(what string, row int, want bool, r rsig, im []pt) {
				var ok bool
				var err error
				if !t.NoPanic(s.name()+" verification of "+what, func() { ok, err = s.verify(r, im) }) {
					return
				}
				t.Check(ok == want && ok == (err == nil), "%s (member %d of %d): verdict %v, error %v", what, row, n, ok, err)
				t.Seen(fmt.Sprintf("verdict-%v", want), what, n, nk, row)
			}
			judge("honest signature", 0, true, base, images)
			rows := map[int]bool{}
			for _, r := range []int{0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n - 2, n - 1, j, t.IntN(n)} {
				if r >= 0 && r < n {
					rows[r] = true
				}
			}
			for row := 0; row < n; row++ {
				if !rows[row] {
					continue
				}
				k := t.IntN(nk)
				r := base.clone()
				r.r[row][k] = sAdd(r.r[row][k], scInt(1))
				judge("response altered", row, false, r, images)
				r = base.clone()
				r.keys[row][k] = add(r.keys[row][k], mulBase(scInt(1)))
				judge("key altered", row, false, r, images)
				if n > 1 {
					o := (row + 1) % n
					r = base.clone()
					r.keys[row], r.keys[o] = r.keys[o], r.keys[row]
					r.r[row], r.r[o] = r.r[o], r.r[row]
					judge("member exchanged with the next", row, false, r, images)
					r = base.clone()
					r.keys = append(r.keys[:row], r.keys[row+1:]...)
					r.r = append(r.r[:row], r.r[row+1:]...)
					judge("member removed", row, false, r, images)
				}
				if nk > 1 {
					o := (k + 1) % nk
					r = base.clone()
					r.keys[row][k], r.keys[row][o] = r.keys[row][o], r.keys[row][k]
					r.r[row][k], r.r[row][o] = r.r[row][o], r.r[row][k]
					judge("keys of a member exchanged", row, false, r, images)
				}
			}
			for k := range images {
				im := append([]pt{}, images...)
				im[k] = add(im[k], mulBase(scInt(1)))
				judge("key image altered", k, false, base, im)
			}
			r := base.clone()
			r.msg = t.MutateMsg(r.msg)
			judge("message altered", 0, false, r, images)
			r = base.clone()
			r.c = sAdd(r.c, scInt(1))
			judge("challenge altered", 0, false, r, images)
			t.Sample("%s ring of %d with %d keys: %d members altered", s.name(), n, nk, len(rows))
		})
	}
}

// ringForge offers signatures which only satisfy weakened equations.
func ringForge(t *T, s ringScheme) {
	for i := 0; i < t.N(9, 100); i++ {
		n := 1 + (i % 4)
		nk, ni := s.shape(t)
		msg := t.Msg()
		t.Case(fmt.Sprintf("%s forgeries %d: %d members with %d keys, %d images", s.name(), i, n, nk, ni), func() {
			mk := func() ([][]pt, []sc, []pt, int) {
				j := t.IntN(n)
				var keys [][]pt
				for r := 0; r < n; r++ {
					var v []pt
					for k := 0; k < nk; k++ {
						v = append(v, t.RandPoint())
					}
					keys = append(keys, v)
				}
				var xs []sc
				var im []pt
				for k := 0; k < nk; k++ {
					x := t.RandScalar()
					xs = append(xs, x)
					keys[j][k] = mulBase(x)
					if k < ni {
						im = append(im, keyImage(x))
					}
				}
				return keys, xs, im, j
			}
			offer := func(what string, r rsig, im []pt, v variant) {
				if !refRingVerify(r, im, v) {
					t.Violate("the forger does not close its own equations: %s", what)
					return
				}
				if refRingVerify(r, im, variant{}) {
					return // happens to be valid
				}
				var ok bool
				var err error
				t.NoPanic(what, func() { ok, err = s.verify(r, im) })
				t.Check(!ok, "forgery accepted: %s", what)
				t.Check(err != nil, "forgery rejected without an error: %s", what)
				t.Seen("forgery", what, n, nk, ni)
			}
			for k := 0; k < nk; k++ {
				keys, xs, im, j := mk()
				// key k unknown: its commitment is left out for all rows or just for the signer's
				for _, all := range []bool{true, false} {
					v := variant{noL: func(row, i int) bool { return i == k && (all || row == j) }}
					kk := rsig{keys: keys}.clone().keys
					kk[j][k] = t.RandPoint()
					m := append([]pt{}, im...)
					if k < ni { // the key image fits the secret used with that key
						m[k] = mul(deriveP(kk[j][k].Bytes()), xs[k])
					}
					offer(fmt.Sprintf("key %d not known to the signer (all=%v)", k, all), t.refRingProve(msg, kk, j, xs, m, v), m, v)
				}
			}
			for k := 0; k < ni; k++ {
				keys, xs, im, j := mk()
				for _, all := range []bool{true, false} {
					v := variant{noR: func(row, i int) bool { return i == k && (all || row == j) }}
					for _, bad := range []pt{t.RandPoint(), keyImage(t.RandScalar()), mul(im[k], scInt(2)), add(im[k], mulBase(scInt(1)))} {
						m := append([]pt{}, im...)
						m[k] = bad
						offer(fmt.Sprintf("key image %d chosen freely (all=%v)", k, all), t.refRingProve(msg, keys, j, xs, m, v), m, v)
					}
				}
			}
			// the zero value of a point, which absorbs whatever is added to it
			for k := 0; k < nk; k++ {
				keys, xs, im, j := mk()
				keys[j][k] = pt{}
				xs[k] = t.RandScalar()
				if k < ni {
					im[k] = mul(deriveP(keys[j][k].Bytes()), xs[k])
				}
				r := t.refRingProve(msg, keys, j, xs, im, variant{})
				var ok bool
				t.NoPanic("undefined key", func() { ok, _ = s.verify(r, im) })
				t.Check(!ok, "forgery accepted: key %d of member %d is no group element", k, j)
				t.Seen("undefined key", n, nk, k, j)
				if n > 1 { // of another member
					keys, xs, im, j := mk()
					o := (j + 1 + t.IntN(n-1)) % n
					keys[o][k] = pt{}
					r := t.refRingProve(msg, keys, j, xs, im, variant{})
					t.NoPanic("undefined key", func() { ok, _ = s.verify(r, im) })
					t.Check(!ok, "accepted: key %d of decoy %d is no group element", k, o)
				}
			}
			for k := 0; k < ni; k++ {
				keys, xs, im, j := mk()
				im[k] = pt{}
				r := t.refRingProve(msg, keys, j, xs, im, variant{})
				var ok bool
				t.NoPanic("undefined image", func() { ok, _ = s.verify(r, im) })
				t.Check(!ok, "forgery accepted: key image %d is no group element", k)
				t.Seen("undefined image", n, nk, k)
			}
			for row := 0; row < n; row++ {
				keys, xs, im, j := mk()
				v := variant{msg: func(r int, m []byte) []byte {
					if r == row {
						return append([]byte{0x55}, m...)
					}
					return m
				}}
				offer(fmt.Sprintf("another message at member %d", row), t.refRingProve(msg, keys, j, xs, im, v), im, v)
				if n > 1 && row != j {
					v = variant{skip: row + 1}
					offer(fmt.Sprintf("member %d outside the chain", row), t.refRingProve(msg, keys, j, xs, im, v), im, v)
				}
				if n > 1 {
					// only one row binds the message
					v = variant{msg: func(r int, m []byte) []byte {
						if r == row {
							return m
						}
						return nil
					}}
					if len(msg) > 0 {
						offer(fmt.Sprintf("message bound at member %d only", row), t.refRingProve(msg, keys, j, xs, im, v), im, v)
					}
				}
			}
			if len(msg) > 1 {
				keys, xs, im, j := mk()
				for _, cut := range []int{0, 1, 32, 64, len(msg) - 1} {
					if cut < len(msg) {
						v := variant{msg: func(r int, m []byte) []byte { return m[:cut] }}
						offer(fmt.Sprintf("only %d bytes of the message bound", cut), t.refRingProve(msg, keys, j, xs, im, v), im, v)
					}
				}
			}
			{
				keys, xs, im, j := mk()
				v := variant{noL: func(int, int) bool { return true }, noR: func(int, int) bool { return true }}
				offer("no commitment bound", t.refRingProve(msg, keys, j, xs, im, v), im, v)
				// open chain: random challenge and responses
				r := t.refRingProve(msg, keys, j, xs, im, variant{})
				r.c = t.RandScalar()
				var ok bool
				t.NoPanic("open chain", func() { ok, _ = s.verify(r, im) })
				t.Check(!ok, "an open chain is accepted")
				// everything zero
				z := r.clone()
				z.c = scInt(0)
				for a := range z.r {
					for b := range z.r[a] {
						z.r[a][b] = scInt(0)
						z.keys[a][b].SetZero()
					}
				}
				zi := make([]pt, ni)
				for k := range zi {
					zi[k].SetZero()
				}
				t.NoPanic("zeros", func() { ok, _ = s.verify(z, zi) })
				t.Check(ok == refRingVerify(z, zi, variant{}), "all-zero signature: verdict %v", ok)
			}
			t.Sample("%s ring of %d: forgeries for %d keys, %d images, each row", s.name(), n, nk, ni)
		})
	}
}

// dual is a dual-key prover with what it was given.
func (t *T) dualRing(n int) [][]pt {
	var ks [][]pt
	for i := 0; i < n; i++ {
		v := []pt{t.RandPoint(), t.RandPoint()}
		if t.IntN(10) == 0 {
			v[0] = t.EdgePoint()
		}
		if t.IntN(10) == 0 {
			v[1] = t.EdgePoint()
		}
		if i > 0 && t.IntN(8) == 0 {
			v = append([]pt{}, ks[t.IntN(i)]...)
		}
		ks = append(ks, v)
	}
	return ks
}

func rowKey(v []pt) string {
	var b []byte
	for _, k := range v {
		b = append(b, k.Bytes()...)
	}
	return string(b)
}

// sameRing compares rings as multisets.
func sameRing(a, b [][]pt) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[string]int{}
	for _, v := range a {
		m[rowKey(v)]++
	}
	for _, v := range b {
		m[rowKey(v)]--
	}
	for _, c := range m {
		if c != 0 {
			return false
		}
	}
	return true
}

func mlsagProve(t *T) {
	for i := 0; i < t.N(160, 1500); i++ {
		n := t.ringSize(i)
		if t.Shard == 1 && i == 12 {
			n = 280
		}
		x, y := t.RandScalar(), t.RandScalar()
		if i%3 == 2 {
			x, y = t.NonZeroScalar(), t.NonZeroScalar()
		}
		if i%7 == 6 {
			y = x
		}
		ring := t.dualRing(n)
		if n > 0 && t.IntN(6) == 0 {
			ring[t.IntN(n)] = []pt{mulBase(x), mulBase(y)} // the prover's own pair as a decoy
		}
		if n > 0 && t.IntN(6) == 0 {
			ring[t.IntN(n)][0] = mulBase(x)
		}
		msg := t.Msg()
		if i == 21 {
			msg = t.Bytes([]int{65536, 65537, 1 << 17, 1<<18 + 1, 32769, 65535, 1<<20 + 1, 100000}[t.Shard%8])
		}
		t.Case(fmt.Sprintf("mlsag ring of %d decoys, msg=%s", n, hx(msg)), func() {
			d := mlsag.NewDualKey()
			var want [][]pt
			offset := t.IntN(3)
			var p pt
			if offset > 0 {
				p = t.EdgePoint()
			}
			cut := n
			if offset == 2 {
				cut = t.IntN(n + 1) // decoys added after the subtraction keep their key
			}
			addAll := func(rows [][]pt) {
				if t.IntN(2) == 0 {
					var l []mlsag.PubKeys
					for _, r := range rows {
						l = append(l, libPubKeys(r))
					}
					d.AddDecoys(l)
					return
				}
				for _, r := range rows {
					d.AddDecoy(libPubKeys(r))
				}
			}
			order := t.IntN(3)
			setKeys := func() {
				a := d.SetPrimaryKey(x)
				b := d.SetCommToZero(y)
				t.Check(sameP(a, mulBase(x)) && sameP(b, mulBase(y)), "the public keys returned for the secrets are wrong")
				if len(msg) > 0 || i%2 == 0 {
					d.SetMsg(append([]byte{}, msg...))
				}
			}
			if order == 0 {
				setKeys()
			}
			addAll(ring[:cut])
			for _, r := range ring[:cut] {
				v := append([]pt{}, r...)
				if offset > 0 {
					v[1] = sub(v[1], p)
				}
				want = append(want, v)
			}
			if order == 1 {
				setKeys()
			}
			if offset > 0 {
				d.SubCommToZero(p)
				if t.IntN(3) == 0 { // the same offset once more
					d.SubCommToZero(p)
					for k := range want {
						want[k][1] = sub(want[k][1], p)
					}
				}
			}
			addAll(ring[cut:])
			want = append(want, ring[cut:]...)
			if order == 2 {
				setKeys()
			}
			want = append(want, []pt{mulBase(x), mulBase(y)})
			sig, im, err := d.Prove()
			if !t.Check(err == nil && sig != nil, "Prove with %d decoys: %v", n, err) {
				return
			}
			t.Check(sameP(im, keyImage(x)), "the key image is not the primary key's")
			t.Check(bytes.Equal(sig.Msg, msg), "the signature carries another message")
			ok, err := sig.Verify([]pt{im})
			t.Check(ok && err == nil, "honest proof with %d decoys is rejected: %v", n, err)
			r, err := fromMlsag(sig)
			if !t.Check(err == nil, "encoding: %v", err) {
				return
			}
			t.Check(sameRing(r.keys, want), "the ring (%d members) is not the decoys (%d) and the prover's pair once", len(r.keys), n)
			t.Check(refRingVerify(r, []pt{im}, variant{}), "the proof does not satisfy the scheme's equations")
			// a verifier with the encoding, the ring and the message
			for _, with := range []bool{true, false} {
				var b bytes.Buffer
				t.Check(sig.Encode(&b, with) == nil, "Encode fails")
				dec := &mlsag.Signature{}
				err = dec.Decode(&b, with)
				if !t.Check(err == nil, "Decode (keys=%v): %v", with, err) {
					continue
				}
				if !with {
					dec.PubKeys = sig.PubKeys
				}
				dec.Msg = append([]byte{}, msg...)
				ok, err = dec.Verify([]pt{im})
				t.Check(ok && err == nil, "decoded proof (keys=%v) is rejected: %v", with, err)
			}
			t.Seen("proved", msg, n, offset, r.c.Bytes())
			t.Sample("%d decoys, offset mode %d, message %s: ring of %d verified", n, offset, hx(msg), len(r.keys))
		})
	}
}

func mlsagRefuse(t *T) {
	for i := 0; i < t.N(6, 40); i++ {
		n := t.IntN(6)
		ring := t.dualRing(n)
		msg := t.Msg()
		build := func() *mlsag.DualKey {
			d := mlsag.NewDualKey()
			for _, r := range ring {
				d.AddDecoy(libPubKeys(r))
			}
			d.SetMsg(msg)
			return d
		}
		refuse := func(what string, d *mlsag.DualKey) {
			t.Case(fmt.Sprintf("%s, %d decoys", what, n), func() {
				var sig *mlsag.Signature
				var err error
				t.NoPanic("Prove with "+what, func() { sig, _, err = d.Prove() })
				t.Check(err != nil, "Prove succeeds with %s", what)
				t.Check(sig == nil, "Prove returns a signature together with an error")
				t.Seen(what, i, n)
				if d2 := d; what == "zero primary key" || what == "zero commitment key" || what == "no keys" {
					// with keys set it works
					d2.SetPrimaryKey(scInt(5))
					d2.SetCommToZero(scInt(6))
					s, im, err := d2.Prove()
					if t.Check(err == nil, "after a refusal: %v", err) {
						ok, err := s.Verify([]pt{im})
						t.Check(ok, "after a refusal the proof is rejected: %v", err)
						r, _ := fromMlsag(s)
						t.Check(sameRing(r.keys, append(append([][]pt{}, ring...), []pt{mulBase(scInt(5)), mulBase(scInt(6))})), "after a refusal the ring is wrong")
					}
				}
			})
		}
		d := build()
		refuse("no keys", d)
		d = build()
		d.SetPrimaryKey(scInt(0))
		d.SetCommToZero(t.RandScalar())
		refuse("zero primary key", d)
		d = build()
		d.SetPrimaryKey(t.RandScalar())
		d.SetCommToZero(scInt(0))
		refuse("zero commitment key", d)
		for _, k := range []int{0, 1, 3, 4} {
			for pos := 0; pos <= n; pos++ {
				d = mlsag.NewDualKey()
				var bad []pt
				for j := 0; j < k; j++ {
					bad = append(bad, t.RandPoint())
				}
				for j, r := range ring {
					if j == pos {
						d.AddDecoy(libPubKeys(bad))
					}
					d.AddDecoy(libPubKeys(r))
				}
				if pos == n {
					d.AddDecoy(libPubKeys(bad))
				}
				if t.IntN(2) == 0 {
					t.NoPanic("SubCommToZero", func() { d.SubCommToZero(t.RandPoint()) })
				}
				d.SetPrimaryKey(t.RandScalar())
				d.SetCommToZero(t.RandScalar())
				d.SetMsg(msg)
				refuse(fmt.Sprintf("a decoy of %d keys at %d", k, pos), d)
			}
		}
	}
	t.Sample("zero keys, and decoys of 0, 1, 3 and 4 keys at every position")
}

func linkImages(t *T) {
	for i := 0; i < t.N(4, 40); i++ {
		x := t.RandScalar()
		secrets := []sc{x, sAdd(x, scInt(1)), sSub(scInt(0), x), sMul(x, scInt(2)), sInv(x), t.RandScalar(), scInt(1), scInt(2), scInt(-1)}
		t.Case(fmt.Sprintf("linking history %d", i), func() {
			type obs struct {
				who    int
				scheme string
				im     pt
			}
			var hist []obs
			provers := map[int]*mlsag.DualKey{}
			var shared *mlsag.DualKey
			for k := 0; k < t.N(24, 60); k++ {
				who := t.IntN(len(secrets))
				s := secrets[who]
				n := t.IntN(4)
				msg := t.Msg()
				var im pt
				scheme := ""
				switch t.IntN(4) {
				case 0:
					scheme = "blsag"
					sig := blsag.Sign(msg, t.decoys(n, mulBase(s)), s)
					im = sig.I
					t.Check(blsag.Verify(msg, sig), "honest signature is rejected")
				case 1, 2:
					scheme = "mlsag"
					d := provers[who]
					if d == nil || t.IntN(2) == 0 {
						d = mlsag.NewDualKey()
						provers[who] = d
					}
					if t.IntN(3) == 0 { // a prover which changes its keys
						if shared == nil {
							shared = mlsag.NewDualKey()
						}
						d = shared
					}
					for _, r := range t.dualRing(n) {
						d.AddDecoy(libPubKeys(r))
					}
					d.SetPrimaryKey(s)
					d.SetCommToZero(t.RandScalar())
					d.SetMsg(msg)
					sig, kim, err := d.Prove()
					if !t.Check(err == nil, "Prove: %v", err) {
						continue
					}
					im = kim
					ok, err := sig.Verify([]pt{kim})
					t.Check(ok, "honest proof is rejected: %v", err)
				case 3:
					scheme = "calc"
					// with keys of others before and after
					o := secrets[t.IntN(len(secrets))]
					O, own := mulBase(o), mulBase(s)
					want := mul(deriveP(O.Bytes()), s)
					t.Check(sameP(mlsag.CalculateKeyImage(s, mulBase(o)), want), "the image of a secret and a given public key is not the secret times the hash of that key")
					im = mlsag.CalculateKeyImage(s, mulBase(s))
					t.Check(sameP(mlsag.CalculateKeyImage(o, mulBase(s)), mul(deriveP(own.Bytes()), o)), "the image of a secret and a given public key is not the secret times the hash of that key")
				}
				t.Check(sameP(im, keyImage(s)), "%s: the key image is not the secret times the hash of the public key", scheme)
				hist = append(hist, obs{who, scheme, im})
				t.Seen(scheme, who, msg)
			}
			for a := range hist {
				for b := 0; b < a; b++ {
					same := sameP(hist[a].im, hist[b].im) && hist[a].im.Equals(&hist[b].im)
					t.Check(same == (hist[a].who == hist[b].who), "key images of secrets %d (%s) and %d (%s): equal=%v", hist[a].who, hist[a].scheme, hist[b].who, hist[b].scheme, same)
				}
			}
			t.Sample("%d signatures of %d secrets, %d pairs compared", len(hist), len(secrets), len(hist)*(len(hist)-1)/2)
		})
	}
}

func linkVerify(t *T) {
	for i := 0; i < t.N(6, 60); i++ {
		for _, s := range []ringScheme{blsagScheme{}, mlsagScheme{}} {
			n := 1 + t.IntN(4)
			nk, ni := s.shape(t)
			t.Case(fmt.Sprintf("%s: other images, ring of %d", s.name(), n), func() {
				msg := t.Msg()
				j := t.IntN(n)
				var keys [][]pt
				var xs []sc
				var im []pt
				for r := 0; r < n; r++ {
					var v []pt
					for k := 0; k < nk; k++ {
						v = append(v, t.RandPoint())
					}
					keys = append(keys, v)
				}
				for k := 0; k < nk; k++ {
					xs = append(xs, t.RandScalar())
					keys[j][k] = mulBase(xs[k])
					if k < ni {
						im = append(im, keyImage(xs[k]))
					}
				}
				honest := t.refRingProve(msg, keys, j, xs, im, variant{})
				ok, err := s.verify(honest, im)
				t.Check(ok, "honest signature is rejected: %v", err)
				for k := 0; k < ni; k++ {
					var z, g pt
					z.SetZero()
					g.SetBase()
					cands := []pt{sub(z, im[k]), add(im[k], im[k]), add(im[k], g), z, g, deriveP(keys[j][k].Bytes()), keys[j][k], mul(im[k], sInv(xs[k])), t.RandPoint(), keyImage(sAdd(xs[k], scInt(1))), {}, mul(deriveP(t.Bytes(32)), xs[k]), mulBase(xs[k])}
					for r := range keys {
						if r != j {
							cands = append(cands, keys[r][k], deriveP(keys[r][k].Bytes()), mul(deriveP(keys[r][k].Bytes()), xs[k]))
						}
					}
					for ci, c := range cands {
						if defined(c) && sameP(c, im[k]) {
							continue
						}
						m := append([]pt{}, im...)
						m[k] = c
						var ok bool
						t.NoPanic("Verify", func() { ok, _ = s.verify(honest, m) })
						t.Check(!ok, "accepted with another key image (candidate %d)", ci)
						t.Seen("image", s.name(), ci, honest.c.Bytes())
						// a prover who commits to the image of its choice from the start
						for mode := 0; mode < 3; mode++ {
							v := variant{}
							switch mode {
							case 1:
								v.noR = func(row, i int) bool { return i == k }
							case 2:
								v.noR = func(row, i int) bool { return i == k && row == j }
							}
							r := t.refRingProve(msg, keys, j, xs, m, v)
							t.NoPanic("Verify", func() { ok, _ = s.verify(r, m) })
							t.Check(!ok, "a prover gets its own key image accepted (candidate %d, mode %d)", ci, mode)
							t.Seen("chosen", s.name(), ci, mode, r.c.Bytes())
							if t.Tier == "quick" && ci > 4 {
								break
							}
						}
					}
				}
				t.Sample("%s ring of %d, %d images: candidates rejected", s.name(), n, ni)
			})
		}
	}
}

// constReader hands out the same byte for ever: whatever order things are drawn
// in, everything drawn from it is the same.
type constReader byte

func (c constReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(c)
	}
	return len(b), nil
}

type ringRun struct {
	pos    int
	nonces []sc
	decoy  []sc // responses of the decoys
	real   []sc // responses of the signer
	all    []byte
	chals  []sc
	order  string // the members in order
}

// observe signs and recovers the secret randomness.
func observe(t *T, scheme string, msg []byte, ring [][]pt, xs []sc, d *mlsag.DualKey) (ringRun, bool) {
	return observeSet(t, scheme, msg, ring, xs, d, true)
}

// observeSet leaves a prover as it was set before when set is false.
func observeSet(t *T, scheme string, msg []byte, ring [][]pt, xs []sc, d *mlsag.DualKey, set bool) (ringRun, bool) {
	var r rsig
	var im []pt
	own := []pt{mulBase(xs[0])}
	if scheme == "blsag" {
		var mix []pt
		for _, v := range ring {
			mix = append(mix, v[0])
		}
		r, im = fromBlsag(msg, blsag.Sign(msg, mix, xs[0]))
		xs = xs[:1]
	} else {
		own = append(own, mulBase(xs[1]))
		if d == nil {
			d = mlsag.NewDualKey()
			for _, v := range ring {
				d.AddDecoy(libPubKeys(v))
			}
		}
		if set {
			d.SetPrimaryKey(xs[0])
			d.SetCommToZero(xs[1])
			d.SetMsg(msg)
		}
		sig, kim, err := d.Prove()
		if !t.Check(err == nil, "Prove: %v", err) {
			return ringRun{}, false
		}
		if r, err = fromMlsag(sig); !t.Check(err == nil, "encoding: %v", err) {
			return ringRun{}, false
		}
		im = []pt{kim}
	}
	run := ringRun{pos: -1, all: append(r.bytes(true), im[0].Bytes()...)}
	for i := range r.keys {
		run.order += rowKey(r.keys[i]) + ","
		if rowKey(r.keys[i]) == rowKey(own) {
			run.pos = i
		}
	}
	if !t.Check(run.pos >= 0, "the signer is not in the ring") {
		return run, false
	}
	if len(r.r) != len(r.keys) {
		t.Violate("%d responses for %d members", len(r.r), len(r.keys))
		return run, false
	}
	cs := r.chain(im)
	run.chals = cs
	for i := range r.r {
		if i != run.pos {
			run.decoy = append(run.decoy, r.r[i]...)
			continue
		}
		run.real = r.r[i]
		for k, s := range r.r[i] {
			run.nonces = append(run.nonces, sAdd(s, sMul(cs[i], xs[k])))
		}
	}
	return run, true
}

func h64(b []byte) uint64 {
	return mix(binary.LittleEndian.Uint64(b) ^ mix(binary.LittleEndian.Uint64(b[16:])))
}

func ringEntropy(t *T) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	for _, scheme := range []string{"blsag", "mlsag"} {
		// 1. nothing but the system's source
		for i := 0; i < t.N(5, 40); i++ {
			n := t.IntN(9)
			if i == 0 {
				n = 0
			}
			ring := t.dualRing(n)
			xs := []sc{t.RandScalar(), t.RandScalar()}
			msg := t.Msg()
			t.Case(fmt.Sprintf("%s under a constant source, %d decoys", scheme, n), func() {
				// rand.Int has to end with this byte for every bound used here
				crand.Reader = constReader(1)
				a, ok1 := observe(t, scheme, msg, ring, xs, nil)
				crand.Reader = saved
				for k := 0; k < 3; k++ {
					_, _ = observe(t, scheme, t.Msg(), ring, xs, nil) // other activity in between
					crand.Reader = constReader(1)
					b, ok2 := observe(t, scheme, append([]byte{}, msg...), ring, xs, nil)
					crand.Reader = saved
					if ok1 && ok2 {
						t.Check(bytes.Equal(a.all, b.all), "two signatures made with the same output of the system's source differ (positions %d and %d): something else is used as randomness", a.pos, b.pos)
					}
				}
				// everything drawn comes from the source: other output, other values
				crand.Reader = newDRBG("a", t.Uint64())
				c, ok3 := observe(t, scheme, msg, ring, xs, nil)
				crand.Reader = saved
				if ok1 && ok3 {
					old := map[sc]bool{}
					for _, s := range append(append([]sc{}, a.nonces...), a.decoy...) {
						old[s] = true
					}
					for _, s := range append(append([]sc{}, c.nonces...), c.decoy...) {
						t.Check(!old[s], "a nonce or response does not depend on the system's source")
					}
				}
				t.Seen("constant", scheme, a.all)
			})
		}
		// 2. freshness
		crand.Reader = saved
		seen := map[sc]string{}
		diffs := map[sc]bool{}
		fresh := func(kind string, s sc) {
			if o, ok := seen[s]; ok {
				t.Violate("%s: a %s repeats an earlier %s (%x)", scheme, kind, o, bigSc(s))
			}
			seen[s] = kind
			b := s.Bytes()
			t.Collect(scheme+"/scalars", h64(b))
			t.Collect(scheme+"/"+kind, binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:]), binary.LittleEndian.Uint64(b[16:]), binary.LittleEndian.Uint64(b[24:]))
			t.Seen(kind, scheme, b)
		}
		ring := t.dualRing(1 + t.IntN(3))
		xs := []sc{t.RandScalar(), t.RandScalar()}
		msg := t.Msg()
		prover := mlsag.NewDualKey()
		for _, v := range ring {
			prover.AddDecoy(libPubKeys(v))
		}
		var prev []sc
		for i := 0; i < t.N(60, 600); i++ {
			t.Case(fmt.Sprintf("%s freshness %d", scheme, i), func() {
				var d *mlsag.DualKey
				set := true
				m, rg, x := msg, ring, xs
				switch i % 4 {
				case 0: // all the same
				case 1:
					d = prover
					switch k := i / 4; {
					case k > 0 && k%3 != 0: // proving again, nothing set in between
						set = false
					case k > 0: // only one thing set again
						set = false
						switch k % 2 {
						case 0:
							d.SetMsg(msg)
						case 1:
							d.SetPrimaryKey(xs[0])
						}
					}
				case 2:
					m = t.Msg()
				case 3:
					rg = t.dualRing(t.IntN(4))
					x = []sc{t.RandScalar(), t.RandScalar()}
				}
				if i >= 8 && i < 26 {
					// everything the same, with rings of every small size
					rg, m, x, d, set = ring, msg, xs, nil, true
					if k := (i - 8) / 2; k <= len(ring) {
						rg = ring[:k]
					} else {
						rg = append(append([][]pt{}, ring...), t.dualRing(k-len(ring))...)
					}
				}
				if i == 5 {
					// more responses than a byte can number
					rg, d, set = t.dualRing([]int{300, 40, 70, 130, 260, 20, 520, 33}[t.Shard%8]), nil, true
				}
				run, ok := observeSet(t, scheme, m, rg, x, d, set)
				if !ok {
					return
				}
				for _, s := range run.nonces {
					fresh("nonce", s)
				}
				for _, s := range run.decoy {
					fresh("decoy response", s)
				}
				for _, s := range run.real {
					fresh("signer response", s)
				}
				for _, s := range run.chals {
					fresh("challenge", s)
				}
				for _, p := range prev {
					for _, s := range run.nonces {
						df := sSub(s, p)
						t.Check(!diffs[df], "%s: nonces follow a constant step", scheme)
						diffs[df] = true
					}
				}
				prev = run.nonces
				// no nonce or response is a simple function of public or other values
				for _, s := range run.nonces {
					for _, c := range run.chals {
						t.Check(!sameS(s, c), "%s: a nonce equals a challenge", scheme)
					}
					for _, c := range x {
						t.Check(!sameS(s, c), "%s: a nonce equals a secret", scheme)
					}
				}
			})
		}
	}
	t.Sample("nonces recovered as response + challenge*secret; all distinct, all bits balanced")
}

// ringFlow perturbs the output of the random source piece by piece and notes
// which secrets change: secrets which always change together are not independent.
func ringFlow(t *T) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	for i := 0; i < t.N(6, 60); i++ {
		scheme := []string{"blsag", "mlsag"}[i%2]
		n := (i/2 + t.Shard) % 6
		ring := make([][]pt, n)
		for k := range ring {
			ring[k] = []pt{t.RandPoint(), t.RandPoint()}
		}
		xs := []sc{t.RandScalar(), t.RandScalar()}
		msg := t.Msg()
		t.Case(fmt.Sprintf("flow of randomness, %s with %d decoys", scheme, n), func() {
			d := newDRBG("ringflow", t.seed, t.Shard, i)
			d.tape = &bytes.Buffer{}
			crand.Reader = d
			base, ok := observe(t, scheme, msg, ring, xs, nil)
			crand.Reader = saved
			if !ok {
				return
			}
			tape := append([]byte{}, d.tape.Bytes()...)
			secrets := append(append([]sc{}, base.nonces...), base.decoy...)
			name := func(k int) string {
				if k < len(base.nonces) {
					return fmt.Sprintf("nonce %d", k)
				}
				return fmt.Sprintf("response %d of the decoys", k-len(base.nonces))
			}
			if !t.Check(len(tape) >= 32*len(secrets), "%d bytes drawn from the system's source for %d secret scalars", len(tape), len(secrets)) {
				return
			}
			// changed[a][b]: a changed while b did not
			changed := make([][]bool, len(secrets))
			for k := range changed {
				changed[k] = make([]bool, len(secrets))
			}
			any := make([]int, len(secrets))
			for at := t.IntN(8); at < len(tape); at += 8 {
				b := append([]byte{}, tape...)
				b[at] ^= 1 << t.IntN(8)
				crand.Reader = &tapeReader{b: b, ext: newDRBG("ext", t.seed, i, at)}
				o, ok := observe(t, scheme, msg, ring, xs, nil)
				crand.Reader = saved
				if !ok {
					return
				}
				if o.order != base.order || len(o.nonces) != len(base.nonces) || len(o.decoy) != len(base.decoy) {
					t.Seen("order changed", scheme, i, at)
					continue
				}
				now := append(append([]sc{}, o.nonces...), o.decoy...)
				diff := make([]bool, len(now))
				cnt := 0
				for k := range now {
					diff[k] = !sameS(now[k], secrets[k])
					if diff[k] {
						cnt++
						any[k]++
					}
				}
				for a := range diff {
					for b := range diff {
						if diff[a] && !diff[b] {
							changed[a][b] = true
						}
					}
				}
				t.Seen(fmt.Sprintf("changes %d secrets", cnt), scheme, i, at)
			}
			for a := range secrets {
				t.Check(any[a] >= 3, "%s: %s depends on %d of %d pieces of 8 bytes of the system's source", scheme, name(a), any[a], len(tape)/8)
				for b := range secrets {
					if a != b {
						t.Check(changed[a][b], "%s: %s is determined by the randomness of %s", scheme, name(a), name(b))
					}
				}
			}
		})
	}
}

func finishEntropy(bag map[string][][]uint64) (out []string) {
	for key, shards := range bag {
		if len(key) > 8 && key[len(key)-8:] == "/scalars" {
			seen := map[uint64]int{}
			for s, vs := range shards {
				for _, v := range vs {
					if o, ok := seen[v]; ok && o != s {
						out = append(out, key+": two processes with different entropy produced the same scalar")
						return
					}
					seen[v] = s
				}
			}
			continue
		}
		var ones [252]int
		n := 0
		for _, vs := range shards {
			for i := 0; i+3 < len(vs); i += 4 {
				n++
				for b := 0; b < 252; b++ {
					if vs[i+b/64]>>(b%64)&1 == 1 {
						ones[b]++
					}
				}
			}
		}
		if n < 50 {
			continue
		}
		for b, c := range ones {
			z := (float64(c) - float64(n)/2) / (math.Sqrt(float64(n)) / 2)
			if math.Abs(z) > 7.5 {
				out = append(out, fmt.Sprintf("%s: bit %d is set in %d of %d scalars: not full-range", key, b, c, n))
				return
			}
		}
	}
	return
}

func ringPosition(t *T) {
	// many signatures over few small rings, pooled over all shards
	for _, scheme := range []string{"blsag", "mlsag"} {
		for _, n := range []int{1, 2, 4} {
			ring := t.dualRing(n)
			for i := range ring { // distinct from the signer's, so that the position is defined
				ring[i] = []pt{t.RandPoint(), t.RandPoint()}
			}
			xs := []sc{t.RandScalar(), t.RandScalar()}
			msg := t.Msg()
			for _, mode := range []string{"same", "varied", "reused"} {
				if mode == "reused" && scheme == "blsag" {
					continue
				}
				prover := mlsag.NewDualKey()
				for _, v := range ring {
					prover.AddDecoy(libPubKeys(v))
				}
				t.Case(fmt.Sprintf("%s positions, %d decoys, %s inputs", scheme, n, mode), func() {
					count := t.N(60, 500)
					if mode == "same" {
						// enough to see the small bias of a wrongly written shuffle
						count = t.N(600, 5000)
					}
					for i := 0; i < count; i++ {
						var d *mlsag.DualKey
						rg, x, m := ring, xs, msg
						switch mode {
						case "varied":
							rg = nil
							for range ring {
								rg = append(rg, []pt{t.RandPoint(), t.RandPoint()})
							}
							x = []sc{t.RandScalar(), t.RandScalar()}
							m = t.Msg()
						case "reused":
							d = prover
						}
						p := position(t, scheme, m, rg, x, d)
						if p < 0 {
							return
						}
						t.Collect(fmt.Sprintf("%s/%d/%s", scheme, n+1, mode), uint64(p))
						t.Seen("position", scheme, n, mode, p)
					}
				})
			}
		}
		// large rings: the position is not confined to a prefix, nor is any part of
		// the ring preferred as it is when a random byte is reduced modulo 171
		for _, l := range []struct{ n, quick, thorough int }{{520, 5, 12}, {171, 50, 150}} {
			var ring [][]pt
			g := t.RandPoint()
			for i := 0; i < l.n-1; i++ {
				g = add(g, mulBase(scInt(1)))
				ring = append(ring, []pt{g, g})
			}
			xs := []sc{t.RandScalar(), t.RandScalar()}
			t.Case(fmt.Sprintf("%s positions in a ring of %d", scheme, l.n), func() {
				for i := 0; i < t.N(l.quick, l.thorough); i++ {
					p := position(t, scheme, []byte{1}, ring, xs, nil)
					if p < 0 {
						return
					}
					t.Collect(fmt.Sprintf("%s/%d/large", scheme, l.n), uint64(p))
					t.Seen("position", scheme, l.n, p)
				}
			})
		}
	}
	t.Sample("positions pooled over all shards")
}

func position(t *T, scheme string, msg []byte, ring [][]pt, xs []sc, d *mlsag.DualKey) int {
	own := []pt{mulBase(xs[0]), mulBase(xs[1])}
	if scheme == "blsag" {
		var mix []pt
		for _, v := range ring {
			mix = append(mix, v[0])
		}
		sig := blsag.Sign(msg, mix, xs[0])
		for i := range sig.PubKeys {
			if sig.PubKeys[i].Equals(&own[0]) {
				return i
			}
		}
		t.Violate("the signer is not in the ring")
		return -1
	}
	if d == nil {
		d = mlsag.NewDualKey()
		for _, v := range ring {
			d.AddDecoy(libPubKeys(v))
		}
	}
	d.SetPrimaryKey(xs[0])
	d.SetCommToZero(xs[1])
	d.SetMsg(msg)
	sig, _, err := d.Prove()
	if !t.Check(err == nil, "Prove: %v", err) {
		return -1
	}
	for i := range sig.PubKeys {
		k := sig.PubKeys[i].OutputKey()
		if k.Equals(&own[0]) {
			return i
		}
	}
	t.Violate("the signer is not in the ring")
	return -1
}

func finishPosition(bag map[string][][]uint64) (out []string) {
	for key, shards := range bag {
		var scheme, mode string
		var n int
		parts := bytes.Split([]byte(key), []byte("/"))
		scheme, mode = string(parts[0]), string(parts[2])
		fmt.Sscan(string(parts[1]), &n)
		if mode == "large" {
			// quarters; the first 256 against the rest; halves
			half := make([]int, 2)
			cnt := make([]int, 4)
			tot, low := 0, 0
			for _, vs := range shards {
				for _, v := range vs {
					cnt[int(v)*4/n]++
					half[int(v)*2/n]++
					tot++
					if v < 256 {
						low++
					}
				}
			}
			if p := chi2p(cnt); p < 1e-8 || (n > 256 && low == tot && tot >= 30) || (n%2 == 0 && chi2p(half) < 1e-8) || (n%2 == 1 && halfp(half, n) < 1e-7) {
				out = append(out, fmt.Sprintf("%s: positions in a ring of %d fall %v into quarters (p=%.2g), %d of %d below 256", scheme, n, cnt, p, low, tot))
			}
			continue
		}
		cnt := make([]int, n)
		pairs := make([]int, n*n)
		seqs := map[string]int{}
		for s, vs := range shards {
			seq := ""
			for i, v := range vs {
				cnt[v]++
				if i > 0 {
					pairs[int(vs[i-1])*n+int(v)]++
				}
				if i < 60 {
					seq += fmt.Sprint(v, ",")
				}
			}
			if o, ok := seqs[seq]; ok && len(vs) >= 40 {
				out = append(out, fmt.Sprintf("%s: processes %d and %d with different entropy used the same sequence of positions", key, o, s))
			}
			seqs[seq] = s
		}
		if p := chi2p(cnt); p < 1e-9 {
			out = append(out, fmt.Sprintf("%s: positions %v are not uniform (p=%.2g)", key, cnt, p))
		}
		if p := chi2p(pairs); p < 1e-9 {
			out = append(out, fmt.Sprintf("%s: consecutive positions %v are not independent (p=%.2g)", key, pairs, p))
		}
	}
	return
}

// halfp is the p-value of the split into halves of an odd ring, whose lower one has one position more.
func halfp(half []int, n int) float64 {
	low := float64(n+1) / 2 / float64(n)
	tot := float64(half[0] + half[1])
	z := (float64(half[0]) - low*tot) / math.Sqrt(tot*low*(1-low))
	return math.Erfc(math.Abs(z) / math.Sqrt2)
}

// chi2p is the p-value of a chi-square test against the uniform distribution.
func chi2p(cnt []int) float64 {
	n := 0
	for _, c := range cnt {
		n += c
	}
	if n == 0 || len(cnt) < 2 {
		return 1
	}
	e := float64(n) / float64(len(cnt))
	x := 0.0
	for _, c := range cnt {
		x += (float64(c) - e) * (float64(c) - e) / e
	}
	return gammaQ(float64(len(cnt)-1)/2, x/2)
}

// gammaQ is the regularised upper incomplete gamma function.
func gammaQ(a, x float64) float64 {
	if x <= 0 {
		return 1
	}
	lg, _ := math.Lgamma(a)
	if x < a+1 {
		sum, term := 1/a, 1/a
		for n := 1; n < 1000; n++ {
			term *= x / (a + float64(n))
			sum += term
			if term < sum*1e-15 {
				break
			}
		}
		return 1 - sum*math.Exp(-x+a*math.Log(x)-lg)
	}
	b := x + 1 - a
	c := 1 / 1e-300
	d := 1 / b
	h := d
	for i := 1; i < 1000; i++ {
		an := -float64(i) * (float64(i) - a)
		b += 2
		d = an*d + b
		if math.Abs(d) < 1e-300 {
			d = 1e-300
		}
		c = b + an/c
		if math.Abs(c) < 1e-300 {
			c = 1e-300
		}
		d = 1 / d
		del := d * c
		h *= del
		if math.Abs(del-1) < 1e-15 {
			break
		}
	}
	return math.Exp(-x+a*math.Log(x)-lg) * h
}

func (t *T) randSig(n, k int) rsig {
	s := rsig{c: t.EdgeScalar()}
	for i := 0; i < n; i++ {
		var r []sc
		var p []pt
		for j := 0; j < k; j++ {
			r = append(r, t.EdgeScalar())
			p = append(p, t.EdgePoint())
		}
		s.r = append(s.r, r)
		s.keys = append(s.keys, p)
	}
	return s
}

func encSig(l *mlsag.Signature, keys bool) ([]byte, error) {
	var b bytes.Buffer
	err := l.Encode(&b, keys)
	return b.Bytes(), err
}

func mlsagCodec(t *T) {
	for i := 0; i < t.N(80, 800); i++ {
		n, k := 1+t.IntN(5), 1+t.IntN(4)
		large := i == 1
		if large {
			n, k = []int{256, 17, 65, 3, 1025, 129, 1, 2}[t.Shard%8], []int{2, 2, 3, 40, 1, 2, 257, 64}[t.Shard%8]
		}
		s := t.randSig(n, k)
		if i%4 == 0 { // a real one
			d := mlsag.NewDualKey()
			for _, r := range t.dualRing(n - 1) {
				d.AddDecoy(libPubKeys(r))
			}
			d.SetPrimaryKey(t.RandScalar())
			d.SetCommToZero(t.RandScalar())
			l, _, err := d.Prove()
			if err == nil {
				s, _ = fromMlsag(l)
			}
			k = 2
		}
		t.Case(fmt.Sprintf("mlsag codec: %d members with %d keys", n, k), func() {
			l, err := s.mlsag()
			if !t.Check(err == nil, "%v", err) {
				return
			}
			for _, with := range []bool{true, false} {
				want := s.bytes(with)
				got, err := encSig(l, with)
				t.Check(err == nil && bytes.Equal(got, want), "encoding (keys=%v) is not challenge, counts, responses, keys: %v", with, err)
				for _, chunk := range []int{1, 2, 31, 33, 1 << 20, -1} {
					if large && chunk > 0 && chunk < 33 {
						continue
					}
					for _, noEOF := range []bool{true, false} {
						r := &chunkReader{b: append([]byte{}, want...), failAt: -1, noEOF: noEOF, chunk: func() int {
							if chunk < 0 {
								return 1 + t.IntN(40)
							}
							return chunk
						}}
						dec := &mlsag.Signature{}
						err := dec.Decode(r, with)
						if !t.Check(err == nil, "decoding in chunks of %d (keys=%v): %v", chunk, with, err) {
							continue
						}
						b2, err := encSig(dec, with)
						t.Check(err == nil && bytes.Equal(b2, want), "decoded signature encodes differently (chunks of %d, keys=%v)", chunk, with)
						t.Check(dec.Equals(*l, with) && l.Equals(*dec, with), "decoded signature is not equal (keys=%v)", with)
						t.Check(dec.Equals(*l, false), "decoded signature is not equal without keys")
						t.Check(r.pos == len(want), "the decoder consumed %d of %d bytes", r.pos, len(want))
						t.Seen("decode", n, k, chunk, with, s.c.Bytes())
					}
				}
				// something follows in the stream
				rd := bytes.NewReader(append(append([]byte{}, want...), 1, 2, 3))
				dec := &mlsag.Signature{}
				err = dec.Decode(rd, with)
				t.Check(err == nil && rd.Len() == 3, "the decoder does not stop at the end of the signature: %v, %d left", err, rd.Len())
				// decoding over an earlier value
				old := t.randSig(1+t.IntN(4), 1+t.IntN(3))
				ol, err := old.mlsag()
				if t.Check(err == nil, "%v", err) {
					err = ol.Decode(bytes.NewReader(want), with)
					b2, _ := encSig(ol, with)
					t.Check(err == nil && bytes.Equal(b2, want), "decoding over another signature gives something else: %v", err)
				}
				for f := 0; f < len(want); f++ {
					if f > 120 && t.Tier == "quick" && f%7 != 0 {
						continue
					}
					if large && f > 300 && f < len(want)-40 {
						continue
					}
					w := &failWriter{limit: f, short: f%2 == 0}
					err := l.Encode(w, with)
					t.Check(err != nil, "a write failure after %d of %d bytes is not reported (keys=%v)", f, len(want), with)
					t.Check(bytes.HasPrefix(want, w.got), "what was written before a failure is no prefix of the encoding")
					r := &chunkReader{b: append([]byte{}, want...), failAt: f, chunk: func() int { return 1 + t.IntN(64) }}
					dec := &mlsag.Signature{}
					err = dec.Decode(r, with)
					t.Check(err != nil, "a read failure after %d of %d bytes is not reported (keys=%v)", f, len(want), with)
					// faults after which everything works again
					t.Check(l.Encode(&failWriter{limit: f, short: f%2 == 0, once: true}, with) != nil, "a single write failure after %d of %d bytes is not reported (keys=%v)", f, len(want), with)
					r = &chunkReader{b: append([]byte{}, want...), failAt: f, once: true, chunk: func() int { return 1 + t.IntN(64) }}
					t.Check((&mlsag.Signature{}).Decode(r, with) != nil, "a single read failure after %d of %d bytes is not reported (keys=%v)", f, len(want), with)
					t.Seen("fault", n, k, f, with)
				}
				w := &failWriter{limit: len(want)}
				t.Check(l.Encode(w, with) == nil && bytes.Equal(w.got, want), "encoding fails although everything could be written")
			}
			t.Sample("%d members with %d keys: 24 chunkings, every failure point", n, k)
		})
	}
	t.Case("signature without responses", func() {
		for _, with := range []bool{true, false} {
			zero := &mlsag.Signature{}
			b, err := encSig(zero, with)
			t.Check(err == nil, "encoding a signature without responses: %v", err)
			for _, dec := range []*mlsag.Signature{{}, {PubKeys: []mlsag.PubKeys{libPubKeys([]pt{t.RandPoint()})}}} {
				err = dec.Decode(bytes.NewReader(b), with)
				t.Check(err == nil, "what was encoded for a signature without responses does not decode: %v", err)
				t.Check(dec.Equals(*zero, with) && zero.Equals(*dec, with), "a signature without responses changes by encoding and decoding")
				b2, err := encSig(dec, with)
				t.Check(err == nil && bytes.Equal(b, b2), "the decoded signature without responses encodes differently")
				for f := range b {
					t.Check((&mlsag.Signature{}).Decode(bytes.NewReader(b[:f]), with) != nil, "%d bytes of a signature without responses are accepted", f)
					t.Check(zero.Encode(&failWriter{limit: f}, with) != nil, "a write failure after %d bytes is not reported", f)
				}
				t.Seen("empty", with, len(dec.PubKeys))
			}
		}
	})
	for i := 0; i < t.N(6, 40); i++ {
		t.Case("PubKeys and Responses codecs", func() {
			n := t.IntN(6)
			var ks []pt
			var rs mlsag.Responses
			var kb, rb []byte
			for j := 0; j < n; j++ {
				ks = append(ks, t.EdgePoint())
				rs.AddResponse(t.EdgeScalar())
				kb = append(kb, ks[j].Bytes()...)
				rb = append(rb, rs[j].Bytes()...)
			}
			p := libPubKeys(ks)
			var b bytes.Buffer
			t.Check(p.Encode(&b) == nil && bytes.Equal(b.Bytes(), kb), "keys encode differently")
			t.Check(p.Len() == n && rs.Len() == n, "wrong number of keys or responses")
			var p2 mlsag.PubKeys
			err := p2.Decode(bytes.NewReader(kb), uint32(n))
			t.Check(err == nil && p2.Equals(p) && p.Equals(p2) && p2.Len() == n, "keys do not round-trip: %v", err)
			b.Reset()
			t.Check(rs.Encode(&b) == nil && bytes.Equal(b.Bytes(), rb), "responses encode differently")
			var r2 mlsag.Responses
			err = r2.Decode(bytes.NewReader(rb), uint32(n))
			t.Check(err == nil && r2.Equals(rs) && rs.Equals(r2) && r2.Len() == n, "responses do not round-trip: %v", err)
			// over an earlier value, whose copies stay as they are
			was := []pt{t.RandPoint(), t.RandPoint()}
			p4 := libPubKeys(was)
			p5 := p4
			err = p4.Decode(bytes.NewReader(kb), uint32(n))
			t.Check(err == nil && p4.Equals(p) && p4.Len() == n, "keys decoded over others are %d, not %d: %v", p4.Len(), n, err)
			t.Check(p5.Equals(libPubKeys(was)), "decoding changes keys copied before")
			r4 := mlsag.Responses{t.RandScalar(), t.RandScalar()}
			r5, wasR := r4, append(mlsag.Responses{}, r4...)
			err = r4.Decode(bytes.NewReader(rb), uint32(n))
			t.Check(err == nil && r4.Equals(rs) && r4.Len() == n, "responses decoded over others are %d, not %d: %v", r4.Len(), n, err)
			t.Check(r5.Equals(wasR), "decoding changes responses copied before")
			for f := 0; f < len(kb); f++ {
				t.Check(p.Encode(&failWriter{limit: f}) != nil, "keys: a write failure is not reported")
				t.Check(rs.Encode(&failWriter{limit: f}) != nil, "responses: a write failure is not reported")
				t.Check(p.Encode(&failWriter{limit: f, once: true}) != nil, "keys: a single write failure is not reported")
				t.Check(rs.Encode(&failWriter{limit: f, once: true}) != nil, "responses: a single write failure is not reported")
				once := func(b []byte) *chunkReader {
					return &chunkReader{b: append([]byte{}, b...), failAt: f, once: true, chunk: func() int { return 1 + t.IntN(64) }}
				}
				t.Check((&mlsag.PubKeys{}).Decode(once(kb), uint32(n)) != nil, "keys: a single read failure is not reported")
				t.Check((&mlsag.Responses{}).Decode(once(rb), uint32(n)) != nil, "responses: a single read failure is not reported")
				var p3 mlsag.PubKeys
				t.Check(p3.Decode(bytes.NewReader(kb[:f]), uint32(n)) != nil, "truncated keys are accepted")
				var r3 mlsag.Responses
				t.Check(r3.Decode(bytes.NewReader(rb[:f]), uint32(n)) != nil, "truncated responses are accepted")
			}
			for j := 0; j < n; j++ {
				q := append([]pt{}, ks...)
				q[j] = add(q[j], mulBase(scInt(1)))
				o := libPubKeys(q)
				t.Check(!p.Equals(o) && !o.Equals(p), "different keys are equal")
				r3 := append(mlsag.Responses{}, rs...)
				r3[j] = sAdd(r3[j], scInt(1))
				t.Check(!rs.Equals(r3) && !r3.Equals(rs), "different responses are equal")
			}
			if n > 0 {
				o := libPubKeys(ks[:n-1])
				t.Check(!p.Equals(o) && !o.Equals(p), "keys of different number are equal")
				t.Check(!rs.Equals(rs[:n-1]) && !rs[:n-1].Equals(rs), "responses of different number are equal")
			}
			t.Seen("vectors", n, kb)
		})
	}
}

// badPoints are encodings which are no canonical encoding of a group element.
func (t *T) badPoints() [][]byte {
	var out [][]byte
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	le := func(x *big.Int) []byte {
		b := x.FillBytes(make([]byte, 32))
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		return b
	}
	out = append(out, bytes.Repeat([]byte{0xff}, 32), le(p), le(new(big.Int).Add(p, big.NewInt(1))), le(new(big.Int).Sub(p, big.NewInt(1))), le(big.NewInt(1)))
	for i := 0; i < 4; i++ {
		k := t.RandPoint()
		b := append([]byte{}, k.Bytes()...)
		b[31] |= 0x80 // high bit
		out = append(out, b)
		b = append([]byte{}, k.Bytes()...)
		b[0] |= 1 // negative
		out = append(out, b)
		// value + p when it fits below 2^255 (never for a random point) or 2^256
		x := new(big.Int)
		for j := range k.Bytes() {
			x.Or(x, new(big.Int).Lsh(big.NewInt(int64(k.Bytes()[j])), uint(8*j)))
		}
		out = append(out, le(new(big.Int).Add(x, p)))
		// the negative representative
		out = append(out, le(new(big.Int).Sub(p, x)))
	}
	for len(out) < 30 {
		b := t.Bytes(32)
		b[31] &= 0x7f
		var x [32]byte
		copy(x[:], b)
		var q pt
		if !q.SetBytes(&x) || !bytes.Equal(q.Bytes(), b) {
			out = append(out, b)
		}
	}
	return out
}

// badScalars are encodings of numbers which are not reduced.
func (t *T) badScalars() [][]byte {
	var out [][]byte
	le := func(x *big.Int) []byte {
		b := x.FillBytes(make([]byte, 32))
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		return b
	}
	out = append(out, bytes.Repeat([]byte{0xff}, 32), le(groupL), le(new(big.Int).Add(groupL, big.NewInt(1))), le(new(big.Int).Lsh(groupL, 1)), le(new(big.Int).Lsh(big.NewInt(1), 255)), le(new(big.Int).Lsh(big.NewInt(1), 253)))
	for i := 0; i < 4; i++ {
		x := bigSc(t.RandScalar())
		out = append(out, le(new(big.Int).Add(x, groupL)), le(new(big.Int).Add(x, new(big.Int).Mul(groupL, big.NewInt(int64(2+t.IntN(12)))))))
	}
	return out
}

func mlsagHostile(t *T) {
	decode := func(what string, b []byte, with, want bool) {
		in := append([]byte{}, b...)
		var err error
		dec := &mlsag.Signature{}
		var used uint64
		t.NoPanic("Decode of "+what, func() {
			used = allocated(func() { err = dec.Decode(bytes.NewReader(b), with) })
		})
		t.Check((err == nil) == want, "%s (keys=%v): error %v", what, with, err)
		t.Check(used <= 65536+64*uint64(len(b)), "%s: %d bytes allocated for %d bytes of input", what, used, len(b))
		t.Check(bytes.Equal(in, b), "Decode changes its input")
		t.Seen(fmt.Sprintf("%v", want), what, with, b)
		if err == nil && want {
			// whatever was decoded can be verified and encoded without a panic
			t.NoPanic("Verify of decoded bytes", func() { _, _ = dec.Verify([]pt{t.RandPoint()}) })
		}
	}
	for i := 0; i < t.N(6, 60); i++ {
		n, k := 1+t.IntN(4), 1+t.IntN(3)
		s := t.randSig(n, k)
		with := i%2 == 0
		b := s.bytes(with)
		t.Case(fmt.Sprintf("mlsag hostile bytes around %d members with %d keys", n, k), func() {
			decode("valid", b, with, true)
			for f := 0; f < len(b); f++ {
				decode("truncation", b[:f], with, false)
			}
			for _, bad := range t.badPoints() {
				if with {
					pos := 40 + 32*n*k + 32*t.IntN(n*k)
					c := append([]byte{}, b...)
					copy(c[pos:], bad)
					decode("bad point", c, with, false)
				}
			}
			for e := 0; with && e < n*k; e++ {
				c := append([]byte{}, b...)
				copy(c[40+32*n*k+32*e:], bytes.Repeat([]byte{0xff}, 32))
				decode("bad point at each place", c, with, false)
			}
			for _, bad := range t.badScalars() {
				c := append([]byte{}, b...)
				copy(c, bad)
				decode("unreduced challenge", c, with, false)
				c = append([]byte{}, b...)
				copy(c[40+32*t.IntN(n*k):], bad)
				decode("unreduced response", c, with, false)
			}
			for e := 0; e < n*k; e++ {
				c := append([]byte{}, b...)
				copy(c[40+32*e:], t.badScalars()[1])
				decode("unreduced response at each place", c, with, false)
			}
			// counts
			for _, v := range []uint32{uint32(n) + 1, uint32(n) + 100, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 1} {
				c := append([]byte{}, b...)
				binary.BigEndian.PutUint32(c[32:], v)
				decode(fmt.Sprintf("%d members announced", v), c, with, false)
				c = append([]byte{}, b...)
				binary.BigEndian.PutUint32(c[36:], max(v, uint32(k)+1))
				decode(fmt.Sprintf("%d keys announced", v), c, with, false)
				binary.BigEndian.PutUint32(c[32:], v)
				decode("both announced", c, with, false)
				c = append([]byte{}, b...)
				binary.BigEndian.PutUint32(c[36:], 0)
				binary.BigEndian.PutUint32(c[32:], v)
				decode("members without keys", c, with, false)
			}
			c := append([]byte{}, b...)
			binary.BigEndian.PutUint32(c[36:], 0)
			decode("no keys announced", c, with, false)
		})
	}
	t.Case("random bytes", func() {
		for i := 0; i < t.N(200, 4000); i++ {
			b := t.Bytes(t.IntN(400))
			if len(b) > 40 {
				b[31] = 0
				copy(b[32:], []byte{0, 0, 0, byte(t.IntN(4)), 0, 0, 0, byte(t.IntN(4))})
			}
			var err error
			dec := &mlsag.Signature{}
			with := i%2 == 0
			t.NoPanic("Decode of random bytes", func() { err = dec.Decode(bytes.NewReader(b), with) })
			if err == nil {
				e, err2 := encSig(dec, with)
				t.Check(err2 == nil && (bytes.HasPrefix(b, e)), "bytes %s are accepted but encode to %s", hx(b), hx(e))
				t.NoPanic("Verify", func() { _, _ = dec.Verify([]pt{t.RandPoint()}) })
			}
			t.Seen("random", b)
		}
	})
	t.Case("nil receivers", func() {
		var s *mlsag.Signature
		var err error
		t.NoPanic("Decode into nil", func() { err = s.Decode(bytes.NewReader(make([]byte, 100)), true) })
		t.Check(err != nil, "decoding into nil succeeds")
		t.Seen("nil")
	})
	t.Sample("truncation at every byte, bad points and scalars at every place, counts up to 2^32-1")
}

func mlsagEquals(t *T) {
	for i := 0; i < t.N(60, 800); i++ {
		n, k := 1+t.IntN(4), 1+t.IntN(3)
		s := t.randSig(n, k)
		t.Case(fmt.Sprintf("equality: %d members with %d keys", n, k), func() {
			a, err := s.mlsag()
			if !t.Check(err == nil, "%v", err) {
				return
			}
			cmp := func(what string, o rsig, without, with bool) {
				b, err := o.mlsag()
				if !t.Check(err == nil, "%s: %v", what, err) {
					return
				}
				for _, m := range []bool{false, true} {
					want := without
					if m {
						want = with
					}
					var x, y bool
					t.NoPanic("Equals: "+what, func() { x, y = a.Equals(*b, m), b.Equals(*a, m) })
					t.Check(x == want && y == want, "%s (keys=%v): equality %v and %v, expected %v", what, m, x, y, want)
					t.Seen(what, n, k, m)
				}
			}
			cmp("same", s.clone(), true, true)
			o := s.clone()
			o.msg = []byte("other") // the message is not part of the encoding
			o = s.clone()
			o.c = sAdd(o.c, scInt(1))
			cmp("challenge", o, false, false)
			o = s.clone()
			o.c = sAdd(o.c, scBig(new(big.Int).Lsh(big.NewInt(1), 200)))
			cmp("challenge high bits", o, false, false)
			for r := 0; r < n; r++ {
				for j := 0; j < k; j++ {
					o = s.clone()
					o.r[r][j] = sAdd(o.r[r][j], scBig(new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(250)))))
					cmp(fmt.Sprintf("response %d.%d", r, j), o, false, false)
					o = s.clone()
					o.keys[r][j] = add(o.keys[r][j], mulBase(t.RandScalar()))
					cmp(fmt.Sprintf("key %d.%d", r, j), o, true, false)
				}
				o = s.clone()
				o.keys = append(o.keys[:r:r], o.keys[r+1:]...)
				cmp(fmt.Sprintf("keys of member %d missing", r), o, true, false)
				if n > 1 {
					o = s.clone()
					o.r = append(o.r[:r:r], o.r[r+1:]...)
					cmp(fmt.Sprintf("responses of member %d missing", r), o, false, false)
				}
			}
			o = s.clone()
			o.r = append(o.r, s.clone().r[0])
			o.keys = append(o.keys, s.clone().keys[0])
			cmp("member added", o, false, false)
			o = s.clone()
			o.keys = append(o.keys, s.clone().keys[0])
			cmp("keys added", o, true, false)
			o = s.clone()
			o.keys = nil
			cmp("no keys", o, true, false)
			o = s.clone()
			for r := range o.r {
				o.r[r] = append(o.r[r], t.RandScalar())
			}
			cmp("response of each added", o, false, false)
			// the same scalars in another shape
			if n != k {
				var flat []sc
				for _, v := range s.r {
					flat = append(flat, v...)
				}
				o = s.clone()
				o.r = nil
				for r := 0; r < k; r++ {
					o.r = append(o.r, flat[r*n:(r+1)*n])
				}
				cmp("transposed shape", o, false, false)
			}
		})
	}
	t.Sample("each element of each signature changed in turn, both directions")
}

func mlsagHistory(t *T) {
	for h := 0; h < t.N(160, 2000); h++ {
		t.Case(fmt.Sprintf("prover history %d", h), func() {
			d := mlsag.NewDualKey()
			var ring [][]pt // the model: decoys current in the prover
			var x, y sc
			msg := []byte{}
			type issued struct {
				sig  *mlsag.Signature
				im   pt
				enc  []byte
				msg  []byte
				step int
			}
			var out []issued
			var held []struct {
				keys mlsag.PubKeys
				want []byte
			}
			trace := ""
			bad := false // a decoy with another number of keys was added
			encK := func(p mlsag.PubKeys) []byte {
				var b bytes.Buffer
				_ = p.Encode(&b)
				return b.Bytes()
			}
			steps := t.N(26, 60)
			for step := 0; step < steps; step++ {
				op := t.IntN(14)
				if step > steps*3/4 && t.IntN(30) == 0 {
					op = 20
				}
				switch op {
				case 20: // from now on every attempt fails
					bad = true
					d.AddDecoy(libPubKeys([][]pt{{t.RandPoint()}, {t.RandPoint(), t.RandPoint(), t.RandPoint()}}[t.IntN(2)]))
					trace += "bad decoy;"
				case 0, 1:
					v := t.dualRing(1)[0]
					k := libPubKeys(v)
					d.AddDecoy(k)
					ring = append(ring, v)
					held = append(held, struct {
						keys mlsag.PubKeys
						want []byte
					}{k, encK(k)})
					trace += "decoy;"
				case 2:
					var l []mlsag.PubKeys
					for _, v := range t.dualRing(t.IntN(4)) {
						k := libPubKeys(v)
						l = append(l, k)
						ring = append(ring, v)
						held = append(held, struct {
							keys mlsag.PubKeys
							want []byte
						}{k, encK(k)})
					}
					d.AddDecoys(l)
					for i := range l { // the caller goes on using its slice
						l[i] = libPubKeys([]pt{t.RandPoint(), t.RandPoint()})
					}
					trace += fmt.Sprintf("decoys(%d);", len(l))
				case 3:
					p := t.EdgePoint()
					d.SubCommToZero(p)
					for i := range ring {
						if len(ring[i]) > 1 {
							ring[i] = append([]pt{}, ring[i]...)
							ring[i][1] = sub(ring[i][1], p)
						}
					}
					trace += "sub;"
				case 4:
					x = t.EdgeScalar()
					d.SetPrimaryKey(x)
					trace += "primary;"
				case 5:
					y = t.EdgeScalar()
					d.SetCommToZero(y)
					trace += "zero;"
				case 6:
					msg = t.Msg()
					d.SetMsg(append([]byte{}, msg...))
					trace += "msg;"
				case 7: // the caller's decoys are used again, as they are
					if len(held) > 0 {
						k := held[t.IntN(len(held))]
						d.AddDecoy(k.keys)
						ks, _ := keysOf(k.keys)
						ring = append(ring, ks)
						trace += "decoy again;"
					}
				case 8: // the caller extends keys it passed in
					if len(held) > 0 {
						i := t.IntN(len(held))
						held[i].keys.AddPubKey(t.RandPoint())
						ks := held[i].keys
						held[i].want = encK(ks)
						held = append(held[:i], held[i+1:]...)
						trace += "extend;"
					}
				case 9: // the caller changes a signature it got: the prover is not affected
					if len(out) > 0 {
						i := t.IntN(len(out))
						o := out[i]
						switch t.IntN(3) {
						case 0:
							for j := range o.sig.Msg {
								o.sig.Msg[j] ^= 0xff
							}
						case 1:
							for j := range o.sig.PubKeys {
								o.sig.PubKeys[j].AddPubKey(t.RandPoint())
							}
						case 2:
							o.sig.PubKeys[0] = libPubKeys([]pt{t.RandPoint(), t.RandPoint()})
							_ = o.sig.Decode(bytes.NewReader(t.randSig(1, 2).bytes(true)), true)
						}
						out = append(out[:i], out[i+1:]...)
						trace += "spoil;"
					}
				case 10: // keys taken from a signature are used as decoys
					if len(out) > 0 {
						o := out[t.IntN(len(out))]
						k := o.sig.PubKeys[t.IntN(len(o.sig.PubKeys))]
						ks, _ := keysOf(k)
						d.AddDecoy(k)
						ring = append(ring, ks)
						trace += "decoy from signature;"
					}
				default:
					valid := x.IsNonZeroI() != 0 && y.IsNonZeroI() != 0 && !bad
					scratch := append([]byte{}, msg...)
					if len(out)%2 == 0 { // otherwise proving again with what was set before
						d.SetMsg(scratch)
					}
					sig, im, err := d.Prove()
					trace += fmt.Sprintf("prove(%v);", err == nil)
					t.Check((err == nil) == valid, "history %s: Prove returns %v, expected success %v", trace, err, valid)
					if err != nil || sig == nil {
						break
					}
					for i := range scratch { // the caller reuses its buffer
						scratch[i] ^= 0xa5
					}
					t.Check(bytes.Equal(sig.Msg, msg), "history %s: the signature's message changed with the caller's buffer", trace)
					ok, err := sig.Verify([]pt{im})
					t.Check(ok, "history %s: proof is rejected: %v", trace, err)
					r, err := fromMlsag(sig)
					t.Check(err == nil, "history %s: %v", trace, err)
					want := append(append([][]pt{}, ring...), []pt{mulBase(x), mulBase(y)})
					t.Check(sameRing(r.keys, want), "history %s: ring has %d members, model %d (or other members)", trace, len(r.keys), len(want))
					t.Check(sameP(im, keyImage(x)), "history %s: wrong key image", trace)
					r.msg = msg
					t.Check(refRingVerify(r, []pt{im}, variant{}), "history %s: proof is not valid for the current message and keys", trace)
					enc, _ := encSig(sig, true)
					out = append(out, issued{sig, im, enc, append([]byte{}, msg...), step})
				}
				for i, o := range out {
					enc, err := encSig(o.sig, true)
					t.Check(err == nil && bytes.Equal(enc, o.enc), "history %s: signature %d issued at step %d changed", trace, i, o.step)
					t.Check(bytes.Equal(o.sig.Msg, o.msg), "history %s: message of signature %d changed", trace, i)
				}
				for i := range held {
					t.Check(bytes.Equal(encK(held[i].keys), held[i].want), "history %s: decoy %d of the caller changed", trace, i)
				}
				t.Seen("step", trace)
			}
			for i, o := range out {
				ok, err := o.sig.Verify([]pt{o.im})
				t.Check(ok, "history %s: signature %d is no longer valid: %v", trace, i, err)
			}
			t.Sample("%s", trace)
		})
	}
	// large rings in a prover which is used again
	for _, n := range [][]int{{63, 129}, {64, 3}, {65, 127}, {66, 100}, {128, 31}, {130, 32}, {255, 33}, {300, 70}}[t.Shard%8] {
		t.Case(fmt.Sprintf("prover used again with %d decoys", n), func() {
			d := mlsag.NewDualKey()
			ring := t.dualRing(n)
			for _, v := range ring {
				d.AddDecoy(libPubKeys(v))
			}
			var encs [][]byte
			var sigs []*mlsag.Signature
			for k := 0; k < 3; k++ {
				x, y, msg := t.NonZeroScalar(), t.NonZeroScalar(), t.Msg()
				d.SetPrimaryKey(x)
				d.SetCommToZero(y)
				d.SetMsg(msg)
				if k == 2 {
					p := t.RandPoint()
					d.SubCommToZero(p)
					v := t.dualRing(1)[0]
					d.AddDecoy(libPubKeys(v))
					for i := range ring {
						ring[i] = []pt{ring[i][0], sub(ring[i][1], p)}
					}
					ring = append(ring, v)
				}
				sig, im, err := d.Prove()
				if !t.Check(err == nil, "attempt %d: %v", k, err) {
					return
				}
				r, err := fromMlsag(sig)
				if !t.Check(err == nil, "%v", err) {
					return
				}
				want := append(append([][]pt{}, ring...), []pt{mulBase(x), mulBase(y)})
				t.Check(sameRing(r.keys, want), "attempt %d: ring has %d members, expected %d (or other members)", k, len(r.keys), len(want))
				t.Check(refRingVerify(r, []pt{im}, variant{}), "attempt %d: the proof is not valid", k)
				ok, err := sig.Verify([]pt{im})
				t.Check(ok, "attempt %d: the proof is rejected: %v", k, err)
				e, _ := encSig(sig, true)
				sigs, encs = append(sigs, sig), append(encs, e)
				for j := range sigs {
					e, _ := encSig(sigs[j], true)
					t.Check(bytes.Equal(e, encs[j]), "signature %d changed with attempt %d", j, k)
				}
				t.Seen("large", n, k)
			}
		})
	}
	// a failed attempt (decoys of another size) does not harm issued signatures
	t.Case("failed attempt", func() {
		d := mlsag.NewDualKey()
		for _, v := range t.dualRing(3) {
			d.AddDecoy(libPubKeys(v))
		}
		d.SetPrimaryKey(t.RandScalar())
		d.SetCommToZero(t.RandScalar())
		d.SetMsg([]byte("m"))
		sig, im, err := d.Prove()
		if !t.Check(err == nil, "Prove: %v", err) {
			return
		}
		enc, _ := encSig(sig, true)
		d.AddDecoy(libPubKeys([]pt{t.RandPoint()}))
		_, _, err = d.Prove()
		t.Check(err != nil, "a decoy with one key is accepted")
		enc2, _ := encSig(sig, true)
		ok, _ := sig.Verify([]pt{im})
		t.Check(bytes.Equal(enc, enc2) && ok, "a failed attempt changed an issued signature")
		t.Seen("failed")
	})
	_ = ristretto.Scalar{}
}

package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

func init() {
	props["C19"] = []string{"ped.commit", "ped.gens"}
	props["C20"] = []string{"ipp.prove", "ipp.alter", "ipp.shape"}
	props["C21"] = []string{"vec.ops"}
	props["C22"] = []string{"fs.history"}
	unit("ped.commit", "commitments to scalars and to 0..6 vectors of lengths 0..20, with generators computed, partly computed or cleared before; opened with the returned blinding factor; sums of commitments; distinct = (inputs)", 8, 32, pedCommit)
	unit("ped.gens", "random histories of Compute, Iterate and Clear over many seeds next to the chain model; distinct = (seed, history)", 4, 16, pedGens)
	unit("ipp.prove", "sizes 1..64, random and special vectors, factors and generators; library proofs through the library and the independent verifier, reference proofs through the library; distinct = (size, vectors)", 8, 32, ippProve)
	unit("ipp.alter", "every element of valid proofs, the point, Q, each generator and each factor altered; false inner products; verdict compared with the independent verifier; distinct = (proof, alteration)", 8, 32, ippAlter)
	unit("ipp.shape", "sizes that are no power of two, vectors of different lengths, rounds missing or in excess; distinct = (shape)", 2, 8, ippShape)
	unit("vec.ops", "all operations on lengths 0..40 with special and random scalars against big-integer arithmetic; lengths that do not match; results checked for shared memory; distinct = (operation, operands)", 8, 32, vecOps)
	unit("fs.history", "random histories of append, result, derive and clear, with callers changing their slices afterwards, next to a byte string; distinct = (transcript)", 8, 32, fsHistory)
}

func bigs(s []sc) []*big.Int {
	out := make([]*big.Int, len(s))
	for i := range s {
		out[i] = bigSc(s[i])
	}
	return out
}

func (t *T) edgeScalars(n int) []sc {
	s := make([]sc, n)
	switch t.IntN(16) {
	case 0: // all equal
		x := t.EdgeScalar()
		for i := range s {
			s[i] = x
		}
	case 1: // all zero
	case 2, 3: // entries of one width, often the largest of it
		w := t.width()
		neg := t.IntN(4) == 0
		for i := range s {
			x := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1))
			switch t.IntN(4) {
			case 0:
				x.And(x, bigSc(t.RandScalar()))
			case 1:
				x.Sub(x, big.NewInt(int64(t.IntN(5))))
				x.Abs(x)
			}
			if neg {
				x.Neg(x)
			}
			s[i] = scBig(x)
		}
	case 4: // powers
		x := t.EdgeScalar()
		y := scInt(1)
		for i := range s {
			s[i] = y
			y = sMul(y, x)
		}
	case 5: // steps
		x, y := t.EdgeScalar(), t.EdgeScalar()
		for i := range s {
			s[i] = x
			x = sAdd(x, y)
		}
	case 6: // pairs which cancel
		for i := range s {
			if i%2 == 1 {
				s[i] = sSub(scInt(0), s[i-1])
			} else {
				s[i] = t.EdgeScalar()
			}
		}
	case 7: // a single entry
		if n > 0 {
			s[t.IntN(n)] = t.NonZeroScalar()
		}
	case 8: // zeros at an end
		k := t.IntN(n + 1)
		for i := range s {
			if i < k {
				s[i] = t.NonZeroScalar()
			}
		}
		if t.IntN(2) == 0 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
		}
	default:
		for i := range s {
			s[i] = t.EdgeScalar()
		}
	}
	return s
}

// width is a number of bits near a limb or machine word.
func (t *T) width() uint {
	return []uint{1, 7, 8, 15, 16, 21, 25, 26, 29, 30, 31, 32, 33, 42, 51, 52, 56, 63, 64, 65, 96, 112, 127, 128, 129, 192, 224, 250, 251, 252}[t.IntN(30)]
}

func pedCommit(t *T) {
	var base pt
	base.SetBase()
	// long vectors
	for _, ls := range [][]int{{2100, 5}, {1025, 1025}, {513, 512, 2}, {4100}, {300, 2049}, {1, 1500}, {257, 0, 1100}, {0, 3000}}[t.Shard%8 : t.Shard%8+1] {
		t.Case(fmt.Sprintf("commitment to vectors of lengths %v", ls), func() {
			seed := t.Bytes(5)
			ped := pedersen.New(append([]byte{}, seed...))
			if t.Shard%2 == 0 {
				ped.BaseVector.Compute(uint32(1 + t.IntN(2*ls[0]+2)))
			}
			var vs [][]sc
			want := pt{}
			want.SetZero()
			for k, l := range ls {
				v := t.edgeScalars(l)
				vs = append(vs, v)
				s := append([]byte{}, seed...)
				if k > 0 {
					s = append(s, byte(k))
				}
				want = add(want, msm(bigs(v), refGens(s, l)))
				delete(rpGens, string(s))
			}
			for k := 0; k < 2; k++ {
				c := ped.CommitToVectors(vs...)
				t.Check(sameP(c.Value, add(want, mulBase(c.BlindingFactor))), "the commitment to vectors of lengths %v does not open", ls)
				t.Seen("long vectors", c.Value.Bytes())
			}
		})
	}
	for i := 0; i < t.N(200, 3000); i++ {
		seed := t.Msg()
		if len(seed) > 60 {
			seed = seed[:60]
		}
		t.Case(fmt.Sprintf("commitments over generators from %s", hx(seed)), func() {
			ped := pedersen.New(append([]byte{}, seed...))
			t.Check(sameP(ped.BlindPoint, base), "the blinding base is not the group's base")
			t.Check(sameP(ped.BasePoint, rpValueBase), "the value base is not the derived one")
			var sum pt
			sum.SetZero()
			sv, sb := new(big.Int), new(big.Int)
			for k := 0; k < 3; k++ {
				v := t.EdgeScalar()
				c := ped.CommitToScalar(v)
				t.Check(sameP(c.Value, rpCommit(bigSc(v), bigSc(c.BlindingFactor))), "the commitment to %x does not open with its blinding factor", bigSc(v))
				sum = add(sum, c.Value)
				sv, sb = badd(sv, bigSc(v)), badd(sb, bigSc(c.BlindingFactor))
				t.Seen("scalar", v.Bytes(), c.Value.Bytes())
			}
			t.Check(sameP(sum, rpCommit(sv, sb)), "the sum of commitments does not open to the sum of values")
			switch t.IntN(4) {
			case 0:
				ped.BaseVector.Compute(uint32(t.IntN(30)))
			case 1:
				ped.BaseVector.Compute(uint32(1 + t.IntN(3)))
				ped.BaseVector.Compute(uint32(t.IntN(3)))
			case 2:
				ped.BaseVector.Compute(uint32(t.IntN(10)))
				ped.BaseVector.Clear()
			}
			for k := 0; k < 3; k++ {
				nv := []int{0, 1, 2, 2, 3, 4, 6}[t.IntN(7)]
				many := i%40 == 7 && k == 0
				if many {
					// more vectors than a byte can number
					nv = []int{256, 257, 258, 300, 520}[t.IntN(5)]
				}
				var vs [][]sc
				for j := 0; j < nv; j++ {
					if many {
						v := []sc{}
						if j < 3 || j > nv-4 || j%256 < 3 {
							v = t.edgeScalars(1 + t.IntN(2))
						}
						vs = append(vs, v)
						continue
					}
					l := []int{0, 1, 2, 3, 5, 8, 20}[t.IntN(7)]
					if i%40 == 11 && k == 1 && j < 2 {
						l = []int{63, 64, 65, 128, 129, 256, 257, 300}[t.IntN(8)]
						if i == 11 && t.Shard%4 == 3 {
							l = []int{1025, 2100, 4200, 1500}[t.Shard/4%4]
						}
					}
					vs = append(vs, t.edgeScalars(l))
				}
				c := ped.CommitToVectors(vs...)
				want := mulBase(c.BlindingFactor)
				for j := range vs {
					s := append([]byte{}, seed...)
					for n := j; n > 0; n >>= 8 {
						s = append(s, byte(n))
					}
					want = add(want, msm(bigs(vs[j]), refGens(s, len(vs[j]))))
				}
				t.Check(sameP(c.Value, want), "the commitment to %d vectors of lengths %v does not open", nv, lens(vs))
				t.Seen("vectors", c.Value.Bytes())
				if t.IntN(4) == 0 {
					ped.BaseVector.Clear()
				}
			}
			// a value equal in another object
			p2 := pedersen.New(append([]byte{}, seed...))
			a, b := ped.CommitToVectors([]sc{scInt(3), scInt(4)}), p2.CommitToVectors([]sc{scInt(3), scInt(4)})
			t.Check(sameP(sub(a.Value, mulBase(a.BlindingFactor)), sub(b.Value, mulBase(b.BlindingFactor))), "the same vector is committed to differently by another object with the same seed")
		})
	}
	t.Sample("commitments opened with independent generators")
}

func lens(v [][]sc) []int {
	var l []int
	for _, x := range v {
		l = append(l, len(x))
	}
	return l
}

func pedGens(t *T) {
	first := map[string]string{}
	for i := 0; i < t.N(200, 3000); i++ {
		seed := t.Bytes(t.IntN(40))
		if i%4 == 1 {
			seed = append([]byte(rpSeed), t.Bytes(t.IntN(3))...)
		}
		if i%7 == 3 {
			seed = make([]byte, t.IntN(5))
		}
		hist := ""
		t.Case(fmt.Sprintf("generators from %s", hx(seed)), func() {
			g := generator.New(append([]byte{}, seed...))
			t.Check(len(g.Bases) == 0, "a new generator has bases")
			model := 0
			for s := 0; s < 8; s++ {
				switch t.IntN(4) {
				case 0:
					g.Clear()
					model = 0
					hist += "c"
				case 1:
					p := g.Iterate()
					t.Check(sameP(p, refGens(seed, model+1)[model]), "Iterate after %q gives another point than the chain", hist)
					hist += "i"
				default:
					n := t.IntN(6)
					g.Compute(uint32(n))
					model += n
					hist += fmt.Sprint(n)
				}
				want := refGens(seed, model)
				if !t.Check(len(g.Bases) == model, "%d bases after %q, not %d", len(g.Bases), hist, model) {
					return
				}
				for k := range want {
					t.Check(sameP(g.Bases[k], want[k]), "base %d after %q is not that of the chain", k, hist)
				}
				t.Seen("state", seed, hist)
			}
			seen := map[string]int{}
			for k, p := range refGens(seed, model) {
				if old, dup := seen[string(p.Bytes())]; dup {
					t.Violate("bases %d and %d are the same", old, k)
				}
				seen[string(p.Bytes())] = k
			}
			if model > 0 {
				b := string(g.Bases[0].Bytes())
				if other, ok := first[b]; ok {
					t.Check(other == string(seed), "seeds %x and %x give the same generators", other, seed)
				}
				first[b] = string(seed)
			}
		})
		delete(rpGens, string(seed))
	}
	// long chains
	long := []int{2050, 1500, 9000, 3000}[t.Shard%4]
	if t.Tier == "thorough" {
		long *= 5
	}
	t.Case(fmt.Sprintf("chain of %d generators", long), func() {
		seed := t.Bytes(1 + t.IntN(40))
		g := generator.New(append([]byte{}, seed...))
		for len(g.Bases) < long {
			k := min(1+t.IntN(1500), long-len(g.Bases))
			if t.Shard%4 > 1 { // at once
				k = long
			}
			was := len(g.Bases)
			g.Compute(uint32(k))
			if !t.Check(len(g.Bases) == was+k, "computing %d after %d gives %d bases", k, was, len(g.Bases)) {
				return
			}
		}
		for k, p := range refGens(seed, long) {
			if !t.Check(sameP(g.Bases[k], p), "base %d of a long chain is not that of the chain", k) {
				return
			}
			t.Seen("long chain", p.Bytes())
		}
		delete(rpGens, string(seed))
	})
	// the generators of the range proof do not collide over both vectors
	if t.Shard == 0 {
		t.Case("range proof generators", func() {
			seen := map[string]bool{}
			g, h := generator.New([]byte(rpSeed)), generator.New(append([]byte(rpSeed), 1))
			g.Compute(1024)
			h.Compute(1024)
			var base pt
			base.SetBase()
			for _, p := range append(append(append([]pt{}, g.Bases...), h.Bases...), base, rpValueBase) {
				t.Check(!seen[string(p.Bytes())], "two generators of the range proof are the same")
				seen[string(p.Bytes())] = true
				t.Seen("generator", p.Bytes())
			}
			G, H := rpG(1024), rpH(1024)
			for k := range G {
				t.Check(sameP(G[k], g.Bases[k]) && sameP(H[k], h.Bases[k]), "generator %d is not that of the chain", k)
			}
		})
	}
	t.Sample("histories of compute, iterate, clear")
}

type ippCase struct {
	n    int
	G, H []pt
	a, b []sc
	f    []sc
	Q    pt
	P    pt
}

func (t *T) ippCase(n int) ippCase {
	c := ippCase{n: n}
	for i := 0; i < n; i++ {
		c.G, c.H = append(c.G, t.RandPoint()), append(c.H, t.RandPoint())
	}
	c.a, c.b = t.edgeScalars(n), t.edgeScalars(n)
	if t.IntN(3) == 0 {
		c.b = append([]sc{}, c.a...)
	}
	c.f = make([]sc, n)
	switch t.IntN(3) {
	case 0:
		for i := range c.f {
			c.f[i] = scInt(1)
		}
	case 1:
		y := t.RandScalar()
		p := scInt(1)
		for i := range c.f {
			c.f[i] = p
			p = sMul(p, y)
		}
	default:
		for i := range c.f {
			c.f[i] = t.NonZeroScalar()
		}
	}
	c.Q = t.RandPoint()
	c.P = c.point(bdot(bigs(c.a), bigs(c.b)))
	return c
}

// point commits to the vectors and to the claimed inner product.
func (c ippCase) point(ip *big.Int) pt {
	p := msm(bigs(c.a), c.G)
	for i := range c.H {
		p = add(p, mul(c.H[i], sMul(c.b[i], c.f[i])))
	}
	return add(p, mul(c.Q, scBig(ip)))
}

func (c ippCase) open(ip *innerproduct.Proof) ippf {
	return ippf{ip.A, ip.B, ip.L, ip.R}
}

func libIPP(p ippf) *innerproduct.Proof {
	return &innerproduct.Proof{L: append([]pt{}, p.L...), R: append([]pt{}, p.R...), A: p.a, B: p.b}
}

func (c ippCase) lib(ip *innerproduct.Proof) bool {
	return ip.Verify(c.G, c.H, ip.L, ip.R, c.f, c.Q, c.P, c.n)
}

func (c ippCase) ref(ip ippf) bool {
	return refIPPVerify(c.G, c.H, bigs(c.f), c.Q, c.P, ip)
}

func ippProve(t *T) {
	for i := 0; i < t.N(60, 600); i++ {
		n := []int{1, 2, 4, 8, 1, 2, 4, 16, 2, 4, 8, 32, 4, 1}[i%14]
		if t.Tier == "thorough" && i%20 == 19 {
			n = 64
		}
		if i == 7 {
			n = []int{64, 64, 128, 64, 256, 32, 512, 16}[t.Shard%8]
		}
		if i == 14 && t.Shard%8 == 1 {
			n = 2048
		}
		c := t.ippCase(n)
		if i%5 == 2 {
			// factors that are zero or special
			c.f = t.edgeScalars(n)
			c.f[t.IntN(n)] = scInt(0)
			c.P = c.point(bdot(bigs(c.a), bigs(c.b)))
		}
		t.Case(fmt.Sprintf("inner product of size %d, a=%x b=%x", n, bigs(c.a)[:1], bigs(c.b)[:1]), func() {
			k := c
			ca, a := newScCanary(t, c.a)
			cb, b := newScCanary(t, c.b)
			cf, f := newScCanary(t, c.f)
			cg, G := newPtCanary(t, c.G)
			ch, H := newPtCanary(t, c.H)
			ip, err := innerproduct.Generate(G, H, a, b, f, c.Q)
			if !t.Check(err == nil && ip != nil, "no proof for size %d: %v", n, err) {
				return
			}
			for what, e := range map[string]error{"a": ca.intact(), "b": cb.intact(), "the factors": cf.intact(), "G": cg.intact(), "H": ch.intact()} {
				t.Check(e == nil, "the prover changes %s: %v", what, e)
			}
			t.Check(1<<len(ip.L) == n && len(ip.L) == len(ip.R), "%d and %d rounds for size %d", len(ip.L), len(ip.R), n)
			t.Check(k.lib(ip), "an honest proof of size %d is rejected", n)
			t.Check(k.ref(k.open(ip)), "an honest proof of size %d does not satisfy the protocol", n)
			for what, e := range map[string]error{"the factors": cf.intact(), "G": cg.intact(), "H": ch.intact()} {
				t.Check(e == nil, "the verifier changes %s: %v", what, e)
			}
			want := refIPP(c.G, c.H, bigs(c.a), bigs(c.b), bigs(c.f), c.Q, nil)
			t.Check(k.lib(libIPP(want)), "a proof of another implementation (size %d) is rejected", n)
			same := sameS(want.a, ip.A) && sameS(want.b, ip.B)
			for j := range want.L {
				same = same && len(ip.L) == len(want.L) && sameP(want.L[j], ip.L[j]) && sameP(want.R[j], ip.R[j])
			}
			t.Check(same, "the proof is not that of the protocol")
			// the scalars offered for other verifiers
			sq, isq, s := ip.VerifScalars()
			u := ippChal(ip.L, ip.R)
			ws := ippS(u)
			ok := len(sq) == len(u) && len(isq) == len(u) && len(s) == n
			for j := range u {
				ok = ok && bigSc(sq[j]).Cmp(bmul(u[j], u[j])) == 0 && bigSc(isq[j]).Cmp(binv(bmul(u[j], u[j]))) == 0
			}
			for j := range ws {
				ok = ok && bigSc(s[j]).Cmp(ws[j]) == 0
			}
			t.Check(ok, "the verification scalars of size %d are not those of the protocol", n)
			t.Seen(fmt.Sprintf("size %d", n), ip.A.Bytes(), ip.B.Bytes())
		})
	}
	t.Sample("sizes 1 to 512")
}

func ippAlter(t *T) {
	for i := 0; i < t.N(12, 100); i++ {
		n := []int{4, 1, 2, 8}[(i+t.Shard)%4]
		c := t.ippCase(n)
		if n == 1 || t.IntN(4) > 0 { // vectors without symmetry, so that every alteration matters
			for j := range c.a {
				c.a[j], c.b[j] = t.RandScalar(), t.RandScalar()
			}
			c.P = c.point(bdot(bigs(c.a), bigs(c.b)))
		}
		t.Case(fmt.Sprintf("alterations of an inner product proof of size %d", n), func() {
			o := refIPP(c.G, c.H, bigs(c.a), bigs(c.b), bigs(c.f), c.Q, nil)
			if !t.Check(c.lib(libIPP(o)), "a valid proof is rejected") {
				return
			}
			try := func(what string, k ippCase, p ippf) {
				var got bool
				t.NoPanic("Verify", func() { got = k.lib(libIPP(p)) })
				want := k.ref(p)
				t.Check(got == want, "%s: accepted=%v, the protocol says %v", what, got, want)
				t.Seen(fmt.Sprint(want), what, n, i)
			}
			cl := func() ippf {
				p := o
				p.L, p.R = append([]pt{}, o.L...), append([]pt{}, o.R...)
				return p
			}
			for e := 0; e < 3; e++ {
				p := cl()
				p.a, _ = t.alterScalar(t.IntN(7), p.a, t.RandScalar())
				try("a altered", c, p)
				p = cl()
				p.b, _ = t.alterScalar(t.IntN(7), p.b, t.RandScalar())
				try("b altered", c, p)
			}
			p := cl()
			p.a, p.b = p.b, p.a
			try("a and b swapped", c, p)
			p = cl()
			p.a, p.b = sMul(p.a, scInt(2)), sMul(p.b, sInv(scInt(2)))
			try("a and b scaled", c, p)
			for r := range o.L {
				for e := 0; e < 2; e++ {
					p := cl()
					p.L[r], _ = t.alterPoint(t.IntN(9), p.L[r], t.RandPoint())
					try(fmt.Sprintf("L[%d] altered", r), c, p)
					p = cl()
					p.R[r], _ = t.alterPoint(t.IntN(9), p.R[r], t.RandPoint())
					try(fmt.Sprintf("R[%d] altered", r), c, p)
				}
				p := cl()
				p.L[r], p.R[r] = p.R[r], p.L[r]
				try("L and R swapped", c, p)
			}
			for e := 0; e < 4; e++ {
				k := c
				k.P, _ = t.alterPoint(t.IntN(9), c.P, t.RandPoint())
				try("another point", k, cl())
				k = c
				k.Q, _ = t.alterPoint(t.IntN(9), c.Q, t.RandPoint())
				try("another Q", k, cl())
			}
			for j := 0; j < n; j++ {
				k := c
				k.G = append([]pt{}, c.G...)
				k.G[j] = t.RandPoint()
				try("another generator G", k, cl())
				k = c
				k.H = append([]pt{}, c.H...)
				k.H[j] = t.RandPoint()
				try("another generator H", k, cl())
				k = c
				k.f = append([]sc{}, c.f...)
				k.f[j] = sAdd(k.f[j], scInt(1))
				try("another factor", k, cl())
			}
			// a claimed inner product that is wrong
			k := c
			ip := bdot(bigs(c.a), bigs(c.b))
			for e := 0; e < 3; e++ {
				d := t.NonZeroScalar()
				k.P = c.point(badd(ip, bigSc(d)))
				q := refIPP(c.G, c.H, bigs(c.a), bigs(c.b), bigs(c.f), c.Q, nil)
				try("a wrong inner product", k, q)
			}
			// proof of other vectors for this point
			other := t.ippCase(n)
			try("a proof of other vectors", c, refIPP(c.G, c.H, bigs(other.a), bigs(other.b), bigs(c.f), c.Q, nil))
			// prover who ignores the factors
			ones := make([]*big.Int, n)
			for j := range ones {
				ones[j] = big.NewInt(1)
			}
			try("factors left out", c, refIPP(c.G, c.H, bigs(c.a), bigs(c.b), ones, c.Q, nil))
		})
	}
	t.Sample("each element, generator, factor altered")
}

func ippShape(t *T) {
	for _, n := range []int{0, 3, 5, 6, 7, 9, 12, 15, 17, 31, 33} {
		t.Case(fmt.Sprintf("size %d", n), func() {
			c := t.ippCase(n)
			var err error
			var ip *innerproduct.Proof
			t.NoPanic("Generate", func() { ip, err = innerproduct.Generate(c.G, c.H, c.a, c.b, c.f, c.Q) })
			t.Check(err != nil && ip == nil, "size %d is not refused", n)
			t.Seen("size", n)
		})
	}
	for i := 0; i < t.N(160, 2000); i++ {
		n := []int{1, 2, 4, 8}[i%4]
		c := t.ippCase(n)
		t.Case(fmt.Sprintf("lengths around %d", n), func() {
			good := refIPP(c.G, c.H, bigs(c.a), bigs(c.b), bigs(c.f), c.Q, nil)
			G, H, a, b, f := c.G, c.H, c.a, c.b, c.f
			grow := func(s []sc) []sc { return append(append([]sc{}, s...), t.RandScalar()) }
			growP := func(s []pt) []pt { return append(append([]pt{}, s...), t.RandPoint()) }
			which := t.IntN(10)
			switch which {
			case 0:
				H = H[:n-1]
			case 1:
				a = a[:n-1]
			case 2:
				b = b[:n-1]
			case 3:
				f = f[:n-1]
			case 4:
				H = growP(H)
			case 5:
				a = grow(a)
			case 6:
				b = grow(b)
			case 7:
				f = grow(f)
			case 8:
				G = growP(G)
			case 9:
				G = G[:n-1]
			}
			var err error
			t.NoPanic("Generate", func() { _, err = innerproduct.Generate(G, H, a, b, f, c.Q) })
			t.Check(err != nil, "vectors of lengths %d %d %d %d %d are not refused", len(G), len(H), len(a), len(b), len(f))
			if which != 1 && which != 2 && which != 5 && which != 6 {
				ok := true
				t.NoPanic("Verify", func() { ok = libIPP(good).Verify(G, H, good.L, good.R, f, c.Q, c.P, n) })
				t.Check(!ok, "verification with %d G, %d H, %d factors succeeds", len(G), len(H), len(f))
			}
			t.Seen("lengths", n, which)
			// rounds
			for _, d := range []func(p *innerproduct.Proof){
				func(p *innerproduct.Proof) { p.L = append(p.L, t.RandPoint()) },
				func(p *innerproduct.Proof) { p.R = append(p.R, t.RandPoint()) },
				func(p *innerproduct.Proof) { p.L, p.R = append(p.L, t.RandPoint()), append(p.R, t.RandPoint()) },
				func(p *innerproduct.Proof) {
					if len(p.L) > 0 {
						p.L = p.L[1:]
					} else {
						p.L = append(p.L, pt{})
					}
				},
				func(p *innerproduct.Proof) {
					if len(p.L) > 0 {
						p.L, p.R = p.L[1:], p.R[1:]
					} else {
						p.L, p.R = []pt{t.RandPoint()}, []pt{t.RandPoint()}
					}
				},
				func(p *innerproduct.Proof) {
					for k := 0; k < 40; k++ {
						p.L, p.R = append(p.L, t.RandPoint()), append(p.R, t.RandPoint())
					}
				},
			} {
				p := libIPP(good)
				d(p)
				ok := true
				t.NoPanic("Verify", func() { ok = c.lib(p) })
				t.Check(!ok, "a proof with %d L and %d R for size %d is accepted", len(p.L), len(p.R), n)
				if len(p.L) != len(p.R) {
					t.NoPanic("VerifScalars", func() { p.VerifScalars() })
				}
				t.Seen("rounds", n, len(p.L), len(p.R))
			}
			ok := true
			t.NoPanic("Verify", func() { ok = c.lib(&innerproduct.Proof{}) })
			t.Check(!ok || c.ref(ippf{}), "the empty proof is accepted")
		})
	}
	// the padding helper
	for n := uint32(1); n <= 1025; n++ {
		d := innerproduct.DiffNextPow2(n)
		p := n + d
		t.Check(p&(p-1) == 0 && p < 2*n, "padding of %d is %d", n, d)
	}
	for k := 11; k < 31; k++ {
		for _, n := range []uint32{1<<k - 1, 1 << k, 1<<k + 1, 1<<k + uint32(t.IntN(1<<k))} {
			d := innerproduct.DiffNextPow2(n)
			p := uint64(n) + uint64(d)
			t.Check(p&(p-1) == 0 && p < 2*uint64(n), "padding of %d is %d", n, d)
		}
	}
	t.Seen("padding", 1025)
	t.Sample("sizes and lengths refused")
}

func vecOps(t *T) {
	for i := 0; i < t.N(1500, 20000); i++ {
		n := i % 12
		if i%10 == 9 {
			n = t.IntN(41)
			if i%100 == 99 {
				n = []int{63, 64, 65, 127, 128, 129, 256, 500}[t.IntN(8)]
			}
		}
		a, b, s := t.edgeScalars(n), t.edgeScalars(n), t.EdgeScalar()
		switch i % 25 { // related operands
		case 1:
			b = append([]sc{}, a...)
		case 2:
			for j := range b {
				b[j] = sSub(scInt(0), a[j])
			}
		case 3:
			if n > 0 {
				s = a[t.IntN(n)]
			}
		case 4:
			if n > 0 {
				s = sSub(scInt(0), a[t.IntN(n)])
			}
		case 5:
			for j := range b {
				if a[j].IsNonZeroI() != 0 {
					b[j] = sInv(a[j])
				}
			}
		case 6: // widths on both sides
			wa, wb := t.width(), t.width()
			for j := range a {
				a[j] = scBig(new(big.Int).Rsh(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), wa), big.NewInt(1)), uint(t.IntN(2))))
				b[j] = scBig(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), wb), big.NewInt(int64(1+t.IntN(3)))))
			}
			if t.IntN(2) == 0 {
				for j := range a {
					b[j] = a[j]
				}
			}
		}
		A, B, S := bigs(a), bigs(b), bigSc(s)
		t.Case(fmt.Sprintf("vectors of length %d, scalar %x, a=%x", n, S, A), func() {
			ca, av := newScCanary(t, a)
			cb, bv := newScCanary(t, b)
			same := func(op string, got []sc, err error, want func(j int) *big.Int) {
				if !t.Check(err == nil && len(got) == n, "%s of length %d: length %d, error %v", op, n, len(got), err) {
					return
				}
				for j := range got {
					t.Check(bigSc(got[j]).Cmp(want(j)) == 0, "%s: element %d is %x, not %x", op, j, bigSc(got[j]), want(j))
				}
				// new memory: changing the result does not change the operands
				for j := range got {
					got[j] = scInt(77)
				}
				t.Check(ca.intact() == nil && cb.intact() == nil, "the result of %s shares memory with an operand, or an operand is changed: %v %v", op, ca.intact(), cb.intact())
				t.Seen(op, n, fmt.Sprint(A), fmt.Sprint(B), S)
			}
			g, err := vector.Add(av, bv)
			same("Add", g, err, func(j int) *big.Int { return badd(A[j], B[j]) })
			g, err = vector.Sub(av, bv)
			same("Sub", g, err, func(j int) *big.Int { return bsub(A[j], B[j]) })
			g, err = vector.Hadamard(av, bv)
			same("Hadamard", g, err, func(j int) *big.Int { return bmul(A[j], B[j]) })
			same("AddScalar", vector.AddScalar(av, s), nil, func(j int) *big.Int { return badd(A[j], S) })
			same("SubScalar", vector.SubScalar(av, s), nil, func(j int) *big.Int { return bsub(A[j], S) })
			same("MulScalar", vector.MulScalar(av, s), nil, func(j int) *big.Int { return bmul(A[j], S) })
			same("Neg", vector.Neg(av), nil, func(j int) *big.Int { return bsub(new(big.Int), A[j]) })
			same("FromScalar", vector.FromScalar(s, uint32(n)), nil, func(j int) *big.Int { return S })
			same("ScalarPowers", vector.ScalarPowers(s, uint32(n)), nil, func(j int) *big.Int { return bpow(S, j) })
			// an operand with itself
			g, err = vector.Add(av, av)
			same("Add to itself", g, err, func(j int) *big.Int { return badd(A[j], A[j]) })
			g, err = vector.Sub(av, av)
			same("Sub from itself", g, err, func(j int) *big.Int { return new(big.Int) })
			g, err = vector.Hadamard(av, av)
			same("Hadamard with itself", g, err, func(j int) *big.Int { return bmul(A[j], A[j]) })
			ip, err := vector.InnerProduct(av, bv)
			t.Check(err == nil && bigSc(ip).Cmp(bdot(A, B)) == 0, "InnerProduct of length %d is %x, not %x (%v)", n, bigSc(ip), bdot(A, B), err)
			sum := new(big.Int)
			for j := 0; j < n; j++ {
				sum = badd(sum, bpow(S, j))
			}
			sp := vector.ScalarPowersSum(s, uint64(n))
			t.Check(bigSc(sp).Cmp(sum) == 0, "ScalarPowersSum(%x, %d) is %x, not %x", S, n, bigSc(sp), sum)
			t.Seen("sums", n, fmt.Sprint(A), fmt.Sprint(B), S)
			// points
			if i%3 == 0 && n <= 12 {
				ps := make([]pt, n)
				for j := range ps {
					ps[j] = t.EdgePoint()
				}
				cp, pv := newPtCanary(t, ps)
				var want pt
				want.SetZero()
				for j := range ps {
					want = add(want, mul(ps[j], a[j]))
				}
				for _, nm := range [][2]int{{n, 1}, {0, 0}, {1, n}, {n / 2, 1}, {n / 2, 2}} {
					e, err := vector.Exp(av, pv, nm[0], nm[1])
					t.Check(err == nil && sameP(e, want), "Exp of length %d is not the sum of products (N=%d M=%d): %v", n, nm[0], nm[1], err)
				}
				for _, nm := range [][2]int{{n + 1, 1}, {1, n + 1}, {n + 1, n + 1}} {
					_, err := vector.Exp(av, pv, nm[0], nm[1])
					t.Check(err != nil, "Exp of length %d with N=%d M=%d is not refused", n, nm[0], nm[1])
				}
				t.Check(cp.intact() == nil && ca.intact() == nil, "Exp changes an operand")
				for _, k := range []int{n - 1, n + 1} {
					if k < 0 {
						continue
					}
					q := append(append([]pt{}, ps...), t.RandPoint())[:k]
					_, err := vector.Exp(av, q, 0, 0)
					t.Check(err != nil, "Exp of %d scalars and %d points is not refused", n, k)
				}
				for k := 0; k <= n+2; k++ {
					l, r, err := vector.SplitPoints(pv, uint32(k))
					if k >= n {
						t.Check(err != nil, "splitting %d points at %d is not refused", n, k)
						continue
					}
					ok := err == nil && len(l) == k && len(r) == n-k
					for j := range l {
						ok = ok && sameP(l[j], ps[j])
					}
					for j := range r {
						ok = ok && sameP(r[j], ps[k+j])
					}
					t.Check(ok, "splitting %d points at %d: %v", n, k, err)
				}
				t.Seen("points", n, want.Bytes())
			}
			for k := 0; k <= n+2; k++ {
				l, r, err := vector.SplitScalars(av, uint32(k))
				if k >= n {
					t.Check(err != nil, "splitting %d scalars at %d is not refused", n, k)
					continue
				}
				ok := err == nil && len(l) == k && len(r) == n-k
				for j := range l {
					ok = ok && sameS(l[j], a[j])
				}
				for j := range r {
					ok = ok && sameS(r[j], a[k+j])
				}
				t.Check(ok, "splitting %d scalars at %d: %v", n, k, err)
			}
			// other lengths
			for _, k := range []int{n + 1, n - 1, n + 17, 0} {
				if k < 0 || k == n {
					continue
				}
				c := t.edgeScalars(k)
				for _, pair := range [][2][]sc{{av, c}, {c, av}} {
					_, e1 := vector.Add(pair[0], pair[1])
					_, e2 := vector.Sub(pair[0], pair[1])
					_, e3 := vector.Hadamard(pair[0], pair[1])
					_, e4 := vector.InnerProduct(pair[0], pair[1])
					t.Check(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "operands of lengths %d and %d are not refused: Add %v, Sub %v, Hadamard %v, InnerProduct %v", len(pair[0]), len(pair[1]), e1, e2, e3, e4)
				}
				t.Seen("refused", n, k)
			}
			t.Check(ca.intact() == nil && cb.intact() == nil, "an operand is changed: %v %v", ca.intact(), cb.intact())
		})
	}
	// very long ones
	for _, n := range [][]int{{65535, 200003}, {65536, 70001}, {65537, 131073}, {32769, 100000}}[t.Shard%4] {
		t.Case(fmt.Sprintf("%d powers", n), func() {
			s := t.RandScalar()
			S := bigSc(s)
			// (S^n - 1) / (S - 1)
			want := bmul(bsub(bpow(S, n), big.NewInt(1)), binv(bsub(S, big.NewInt(1))))
			ps := vector.ScalarPowersSum(s, uint64(n))
			t.Check(bigSc(ps).Cmp(want) == 0, "ScalarPowersSum(%x, %d) is wrong", S, n)
			p := vector.ScalarPowers(s, uint32(n))
			ok := len(p) == n
			for _, j := range []int{0, 1, 2, n / 2, n - 2, n - 1, t.IntN(n), t.IntN(n)} {
				ok = ok && bigSc(p[j]).Cmp(bpow(S, j)) == 0
			}
			t.Check(ok, "ScalarPowers(%x, %d) is wrong", S, n)
			t.Check(bigSc(vector.ScalarPowersSum(scInt(1), uint64(n))).Cmp(big.NewInt(int64(n))) == 0, "ScalarPowersSum(1, %d) is wrong", n)
			t.Seen("very long", n, S)
		})
	}
	// long ones
	t.Case("long powers", func() {
		for _, n := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 1027} {
			s := t.EdgeScalar()
			S := bigSc(s)
			p := vector.ScalarPowers(s, uint32(n))
			ok := len(p) == n
			w, sum := big.NewInt(1), new(big.Int)
			for j := 0; ok && j < n; j++ {
				ok = bigSc(p[j]).Cmp(w) == 0
				sum = badd(sum, w)
				w = bmul(w, S)
			}
			t.Check(ok, "ScalarPowers(%x, %d) is wrong", S, n)
			ps := vector.ScalarPowersSum(s, uint64(n))
			t.Check(bigSc(ps).Cmp(sum) == 0, "ScalarPowersSum(%x, %d) is wrong", S, n)
			a, b := make([]sc, n), make([]sc, n)
			for j := range a {
				a[j], b[j] = t.RandScalar(), t.RandScalar()
			}
			ip, err := vector.InnerProduct(a, b)
			t.Check(err == nil && bigSc(ip).Cmp(bdot(bigs(a), bigs(b))) == 0, "InnerProduct of length %d is wrong", n)
			h, err := vector.Hadamard(a, b)
			ok = err == nil && len(h) == n
			for j := 0; ok && j < n; j++ {
				ok = bigSc(h[j]).Cmp(bmul(bigSc(a[j]), bigSc(b[j]))) == 0
			}
			t.Check(ok, "Hadamard of length %d is wrong", n)
			t.Seen("long", n, S)
		}
	})
	// long sums of multiples, with special scalars among them
	for _, n := range [][]int{{64, 1027}, {129, 600}, {201, 300}, {256, 257}, {400, 65}, {513, 33}, {1100, 100}, {2060, 40}}[t.Shard%8] {
		t.Case(fmt.Sprintf("multi-exponentiation of %d", n), func() {
			a := t.edgeScalars(n)
			for j := range a {
				switch t.IntN(4) {
				case 0:
					a[j] = t.RandScalar()
				case 1:
					a[j] = scInt(int64(t.IntN(300)))
				}
			}
			a[n-1] = scInt(int64(1 + t.IntN(255)))
			ps := make([]pt, n)
			ps[0] = t.RandPoint()
			for j := 1; j < n; j++ {
				ps[j] = add(ps[j-1], mulBase(scInt(int64(j))))
			}
			got, err := vector.Exp(a, ps, n, 1)
			t.Check(err == nil && sameP(got, msm(bigs(a), ps)), "Exp of %d scalars and points is wrong: %v", n, err)
			z, y := t.edgeScalars(n), t.edgeScalars(n)
			ip, err := vector.InnerProduct(z, y)
			t.Check(err == nil && bigSc(ip).Cmp(bdot(bigs(z), bigs(y))) == 0, "InnerProduct of length %d is wrong", n)
			t.Seen("long sum", n, a[0].Bytes())
		})
	}
	t.Sample("all operations against big integers")
}

func fsHistory(t *T) {
	seenChal := map[string]string{}
	// long transcripts
	for _, total := range [][]int{{65535, 300000}, {65536, 65537}, {131071, 131073}, {262144, 262147}, {1 << 20, 1<<20 + 1}, {100001, 3000000}, {524287, 524289}, {1<<21 + 3, 4096}}[t.Shard%8] {
		t.Case(fmt.Sprintf("transcript of %d bytes", total), func() {
			data := t.Bytes(total)
			for _, pieces := range []int{1, 3, 40} {
				var h fiatshamir.HashCacher
				at := 0
				for k := 0; k < pieces; k++ {
					n := (total - at) / (pieces - k)
					if k < pieces-1 && n > 1 {
						n = 1 + t.IntN(2*n)
					}
					n = min(n, total-at)
					if k == pieces-1 {
						n = total - at
					}
					h.Append(append([]byte{}, data[at:at+n]...))
					at += n
				}
				t.Check(bytes.Equal(h.Result(), data), "the transcript of %d bytes in %d pieces is not what was appended", total, pieces)
				t.Check(sameS(h.Derive(), refChallenge(data)), "the challenge of %d bytes is not the reduced digest of what was appended", total)
				// a later append counts
				h.Append([]byte{7})
				t.Check(sameS(h.Derive(), refChallenge(append(append([]byte{}, data...), 7))), "the challenge after a byte more than %d is not the reduced digest", total)
				h.Clear()
				h.Append([]byte("x"))
				t.Check(bytes.Equal(h.Result(), []byte("x")) && sameS(h.Derive(), refChallenge([]byte("x"))), "after clearing %d bytes the transcript is not what was appended since", total+1)
				t.Seen("long", total, pieces, data[:8])
			}
		})
	}
	for i := 0; i < t.N(3000, 40000); i++ {
		t.Case(fmt.Sprintf("transcript history %d", i), func() {
			var h fiatshamir.HashCacher
			switch t.IntN(3) {
			case 0:
				h = fiatshamir.HashCacher{Cache: []byte{}}
			}
			var model []byte
			var held [][]byte // what the caller still holds
			var past [][]byte
			var results [][]byte
			var resultWant [][]byte
			for s := 0; s < 14 || i%50 == 0 && s < 200; s++ {
				switch t.IntN(7) {
				case 0, 1, 2:
					n := t.IntN(4)
					var args [][]byte
					for k := 0; k < n; k++ {
						val := t.Bytes([]int{0, 1, 31, 32, 33, 64, 7, 200, 1, 32, 100, 1 + t.IntN(5000)}[t.IntN(12)])
						switch t.IntN(8) {
						case 0: // a value which was appended before
							if len(past) > 0 {
								val = past[t.IntN(len(past))]
							}
						case 1: // the last one again
							if len(past) > 0 {
								val = past[len(past)-1]
							}
						case 2:
							val = make([]byte, len(val))
						case 3: // what is there so far
							if len(model) < 3000 {
								val = append([]byte{}, model...)
							}
						}
						past = append(past, append([]byte{}, val...))
						_, b := newCanary(t, val)
						args = append(args, b)
						model = append(model, b...)
					}
					h.Append(args...)
					held = append(held, args...)
					for _, b := range args {
						if t.IntN(3) == 0 { // the caller goes on using its slice
							for j := range b {
								b[j] ^= 0xff
							}
						}
					}
				case 3:
					got := h.Derive()
					want := refChallenge(model)
					t.Check(sameS(got, want), "the challenge after %d bytes is not the reduced digest of what was appended", len(model))
					key := string(want.Bytes())
					if old, ok := seenChal[key]; ok {
						t.Check(old == string(model), "two transcripts have the same challenge")
					}
					seenChal[key] = string(model)
				case 4:
					r := h.Result()
					t.Check(bytes.Equal(r, model), "the transcript holds %s, not %s", hx(r), hx(model))
					results = append(results, r)
					resultWant = append(resultWant, append([]byte{}, model...))
				case 5:
					if t.IntN(3) == 0 {
						h.Clear()
						model = nil
						results, resultWant = nil, nil // a cleared transcript may be reused
					}
				case 6: // a copy of the transcript goes another way
					c := h
					extra := t.Bytes(1 + t.IntN(40))
					c.Append(extra)
					t.Check(bytes.Equal(c.Result(), append(append([]byte{}, model...), extra...)), "a copied transcript is not extended properly")
					t.Check(bytes.Equal(h.Result(), model), "extending a copy changes the transcript")
				}
				for _, b := range held {
					if t.IntN(8) == 0 && len(b) > 0 {
						b[t.IntN(len(b))] ^= 1
					}
				}
				t.Check(bytes.Equal(h.Result(), model), "the transcript changed although nothing was appended")
				a, b := h.Derive(), h.Derive()
				t.Check(sameS(a, b), "deriving a challenge changes the next one")
				t.Seen("step", h.Result())
			}
			for k := range results {
				t.Check(bytes.Equal(results[k], resultWant[k]), "a transcript read earlier changed later")
			}
			// the same content in other pieces
			var h2 fiatshamir.HashCacher
			rest := model
			for len(rest) > 0 {
				n := 1 + t.IntN(len(rest))
				h2.Append(append([]byte{}, rest[:n]...))
				rest = rest[n:]
			}
			h2.Append()
			h2.Append(nil)
			t.Check(sameS(h2.Derive(), refChallenge(model)), "the challenge depends on how the bytes were split")
			// close transcripts
			for k := 0; k < 4; k++ {
				m2 := t.MutateMsg(model)
				var h3 fiatshamir.HashCacher
				h3.Append(m2)
				t.Check(!sameS(h3.Derive(), refChallenge(model)) && sameS(h3.Derive(), refChallenge(m2)), "a changed transcript has the same challenge")
				t.Seen("close", m2)
			}
		})
	}
	t.Sample("histories of append, derive, result, clear")
}

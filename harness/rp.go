package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"os"
	"os/exec"
	"strings"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

func init() {
	props["C14"] = []string{"rp.prove", "rp.refuse"}
	props["C15"] = []string{"rp.alter", "rp.cheat", "rp.shape"}
	props["C16"] = []string{"rp.history"}
	props["C17"] = []string{"rp.fresh", "rp.flow"}
	props["C18"] = []string{"rp.codec", "rp.hostile", "rp.equals"}
	unit("rp.prove", "every number of values 1..16, every value 2^k and 2^k-1, edge and random values, both modes; each proof is verified by the library and by the independent verifier and its commitments are opened; distinct = (values, mode)", 8, 32, rpProve)
	unit("rp.refuse", "no values and more than 16 values; distinct = (number, mode)", 1, 4, rpRefuse)
	unit("rp.alter", "every element of honest proofs (library and reference prover, 1 to 16 commitments) altered in several ways; distinct = (proof, element, alteration)", 8, 32, rpAlter)
	unit("rp.cheat", "proofs by cheating provers for values out of range or with inconsistent intermediate values, each repairing all but one relation of the protocol, and honest proofs with special randomness; verdict compared with the independent verifier; distinct = (strategy, proof)", 8, 32, rpCheat)
	unit("rp.shape", "commitments dropped, added, repeated, reordered; rounds dropped, added, swapped; points that are no group elements at every place; absent parts; distinct = (shape, place)", 8, 32, rpShape)
	unit("rp.history", "random histories of proving, failing and verifying with all numbers of values; every verdict compared with the verdict known for the proof and with that of fresh processes; distinct = (history prefix, proof)", 8, 32, rpHistory)
	unit("rp.fresh", "repeated proofs and commitments of equal values: all elements, blinding factors and recovered blinding terms pooled over all shards; bit statistics and repetition; a constant source; distinct = blinding factor or element", 8, 32, rpFresh)
	unit("rp.flow", "information flow from the random source: every draw of a proof is perturbed in turn, and the set of elements that change is recorded; distinct = (draw, changed elements)", 8, 32, rpFlow)
	units["rp.fresh"].Finish = finishFresh
	units["rp.flow"].Finish = finishFlow
	unit("rp.codec", "proofs through encode and decode with chunked readers and writers failing at every byte; distinct = (proof, chunking or failure point)", 8, 32, rpCodec)
	unit("rp.hostile", "truncations at every byte, non-canonical and invalid elements at every place, inconsistent and huge counts, random bytes; allocation measured; distinct = (encoding, alteration)", 8, 32, rpHostile)
	unit("rp.equals", "pairs of proofs differing in exactly one element or count; distinct = (shape, difference)", 4, 16, rpEquals)
	helpers["rpverify"] = rpVerifyHelper
}

func pow2(n int) int {
	p := 1
	for p < n {
		p *= 2
	}
	return p
}

// accepted calls the library's verifier and holds it to its contract.
func (t *T) accepted(p rangeproof.Proof, what string) (ok bool) {
	var err error
	if !t.NoPanic("Verify of "+what, func() { ok, err = rangeproof.Verify(p) }) {
		return false
	}
	t.Check(ok == (err == nil), "%s: verdict %v together with error %v", what, ok, err)
	return ok
}

func rpProve(t *T) {
	type cs struct {
		v     []*big.Int
		debug bool
	}
	var list []cs
	// every power of two and every all-ones value
	if t.Shard < 8 {
		var v []*big.Int
		for k := t.Shard; k < 64; k += 8 {
			p := new(big.Int).Lsh(big.NewInt(1), uint(k))
			v = append(v, p, new(big.Int).Sub(p, big.NewInt(1)))
		}
		v[1] = new(big.Int).SetUint64(1<<64 - 1)
		list = append(list, cs{v, false})
	}
	// every number of values
	for m := 1; m <= 16; m++ {
		if (m*5)%8 == t.Shard%8 {
			list = append(list, cs{t.values(m), false})
		}
	}
	dm := []int{1, 2, 3, 1, 2, 1, 4, 1}[t.Shard%8]
	list = append(list, cs{t.values(dm), true})
	for i := 0; i < t.N(10, 60); i++ {
		m := 1
		if i%5 == 4 {
			m = 2 + t.IntN(3)
		}
		if t.Tier == "thorough" && i%10 == 9 {
			m = 1 + t.IntN(16)
		}
		list = append(list, cs{t.values(m), i%3 == 2 && m <= 4})
	}
	if t.Tier == "thorough" {
		list = append(list, cs{t.values(1 + (t.Shard*5)%16), true})
	}
	// the edges of the range in debug mode
	switch t.Shard % 8 {
	case 0:
		list = append(list, cs{[]*big.Int{new(big.Int).SetUint64(1<<64 - 1)}, true})
	case 1:
		list = append(list, cs{[]*big.Int{new(big.Int)}, true})
	case 2:
		list = append(list, cs{[]*big.Int{new(big.Int).SetUint64(1<<64 - 1), new(big.Int).SetUint64(1<<64 - 1)}, false})
	}
	// nothing but zeros or the largest value, also next to others, in debug mode
	for i := 0; i < t.N(4, 20); i++ {
		n := []int{3, 4, 1, 2, 5}[(i+t.Shard)%5]
		if i == 0 && t.Shard%8 == 5 {
			n = 9
		}
		v := t.values(n)
		edge := new(big.Int)
		if i%4 == 3 {
			edge.SetUint64(1<<64 - 1)
		}
		for k := range v {
			if i%2 == 0 || k == 0 || k == n-1 {
				v[k] = edge
			}
		}
		list = append(list, cs{v, true})
	}
	for _, c := range list {
		t.Case(fmt.Sprintf("prove %d values %x debug=%v", len(c.v), c.v, c.debug), func() {
			in := scalars(c.v)
			p, err := rangeproof.Prove(in, c.debug)
			if !t.Check(err == nil, "proving fails: %v", err) {
				return
			}
			for i := range in {
				t.Check(bigSc(in[i]).Cmp(c.v[i]) == 0, "the caller's value %d is changed", i)
			}
			t.Check(t.accepted(p, "an honest proof"), "an honest proof is rejected")
			o, err := fromRP(&p)
			if !t.Check(err == nil, "the proof does not encode: %v", err) {
				return
			}
			err = o.verify()
			t.Check(err == nil, "the proof does not satisfy the protocol's equations: %v", err)
			if !t.Check(len(p.V) == pow2(len(c.v)), "%d values give %d commitments", len(c.v), len(p.V)) {
				return
			}
			for j := range p.V {
				v := new(big.Int)
				if j < len(c.v) {
					v = c.v[j]
				}
				t.Check(sameP(p.V[j].Value, rpCommit(v, bigSc(p.V[j].BlindingFactor))), "commitment %d does not open to the value %v", j, v)
			}
			// as a verifier gets it
			q, err := o.lib()
			t.Check(err == nil && t.accepted(q, "a decoded honest proof"), "an honest proof is rejected after decoding: %v", err)
			t.Seen(fmt.Sprintf("m=%d debug=%v", len(c.v), c.debug), fmt.Sprint(c.v))
		})
	}
	// proofs of the independent prover
	for i := 0; i < t.N(3, 20); i++ {
		m := []int{1, 2, 1, 4, 1, 8, 1, 16}[(i+t.Shard)%8]
		if t.Tier == "quick" && m > 4 && t.Shard > 3 {
			m = 2
		}
		v := t.values(m)
		t.Case(fmt.Sprintf("reference proof of %x", v), func() {
			q, err := t.witness(v).prove().lib()
			t.Check(err == nil && t.accepted(q, "a reference proof"), "a valid proof of another implementation is rejected (%d values): %v", m, err)
			t.Seen("reference", fmt.Sprint(v))
		})
	}
	t.Sample("%d proofs, m and values as listed by the rule", len(list))
}

func rpRefuse(t *T) {
	for _, n := range []int{0, 17, 18, 20, 31, 32, 33, 64, 100} {
		for _, debug := range []bool{false, true} {
			t.Case(fmt.Sprintf("%d values, debug=%v", n, debug), func() {
				v := scalars(t.values(n))
				var err error
				t.NoPanic("Prove", func() { _, err = rangeproof.Prove(v, debug) })
				t.Check(err != nil, "%d values are not refused", n)
				t.Seen("refused", n, debug)
			})
		}
	}
	t.Case("nil", func() {
		var err error
		t.NoPanic("Prove", func() { _, err = rangeproof.Prove(nil, false) })
		t.Check(err != nil, "no values are not refused")
		t.Seen("refused", "nil")
	})
	t.Sample("0, 17..100 values refused")
}

// elements of a proof by name
func (p *rpf) points() (names []string, ptrs []*pt) {
	for j := range p.V {
		names, ptrs = append(names, fmt.Sprintf("V[%d]", j)), append(ptrs, &p.V[j])
	}
	names = append(names, "A", "S", "T1", "T2")
	ptrs = append(ptrs, &p.A, &p.S, &p.T1, &p.T2)
	for j := range p.L {
		names, ptrs = append(names, fmt.Sprintf("L[%d]", j), fmt.Sprintf("R[%d]", j)), append(ptrs, &p.L[j], &p.R[j])
	}
	return
}

func (p *rpf) scals() (names []string, ptrs []*sc) {
	return []string{"taux", "mu", "t", "a", "b"}, []*sc{&p.taux, &p.mu, &p.t, &p.a, &p.b}
}

func (t *T) alterPoint(k int, p pt, other pt) (pt, string) {
	var base, zero pt
	base.SetBase()
	zero.SetZero()
	switch k % 9 {
	case 0:
		return add(p, base), "plus the blinding base"
	case 1:
		return sub(zero, p), "negated"
	case 2:
		return zero, "replaced by the identity"
	case 3:
		return add(p, rpValueBase), "plus the value base"
	case 4:
		return t.RandPoint(), "replaced by another point"
	case 5:
		return other, "taken from another proof"
	case 6:
		return add(p, rpG(64)[t.IntN(64)]), "plus a generator G"
	case 7:
		return add(p, rpH(64)[t.IntN(64)]), "plus a generator H"
	}
	return add(p, p), "doubled"
}

func (t *T) alterScalar(k int, s sc, other sc) (sc, string) {
	switch k % 7 {
	case 0:
		return sAdd(s, scInt(1)), "plus one"
	case 1:
		return scInt(0), "replaced by zero"
	case 2:
		return sSub(scInt(0), s), "negated"
	case 3:
		return other, "taken from another proof"
	case 4:
		return sAdd(s, scBig(new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(252))))), "plus a power of two"
	case 5:
		return sSub(s, scInt(1)), "minus one"
	}
	return t.RandScalar(), "replaced"
}

// mustReject offers an altered proof.
func (t *T) mustReject(o rpf, what string) bool {
	q, err := o.lib()
	if err != nil {
		// decoding may refuse it: then it cannot be verified
		t.Seen("refused by the decoder", what)
		return true
	}
	if t.accepted(q, what) {
		verr := o.verify()
		if verr != nil {
			t.Violate("a proof that breaks the protocol's equations (%v) is accepted: %s", verr, what)
			return false
		}
	}
	return true
}

func rpHonest(t *T, m int, fromLib bool) (rpf, bool) {
	v := t.values(m)
	if fromLib {
		p, err := rangeproof.Prove(scalars(v), false)
		if !t.Check(err == nil, "proving fails: %v", err) {
			return rpf{}, false
		}
		o, err := fromRP(&p)
		return o, t.Check(err == nil, "%v", err)
	}
	return t.witness(v).prove(), true
}

func rpAlter(t *T) {
	all := func(m int, kinds int, mod int, lib bool) {
		t.Case(fmt.Sprintf("alterations of a proof with %d commitments (library prover: %v)", m, lib), func() {
			o, ok := rpHonest(t, m, lib)
			if !ok {
				return
			}
			other, ok := rpHonest(t, 1, false)
			if !ok {
				return
			}
			q, err := o.lib()
			t.Check(err == nil && t.accepted(q, "an honest proof"), "an honest proof with %d commitments is rejected: %v", m, err)
			t.Seen("honest", o.t.Bytes())
			names, _ := o.points()
			start := t.IntN(9)
			for e := range names {
				if e%mod != t.Shard%mod {
					continue
				}
				for k := 0; k < kinds; k++ {
					c := o.clone()
					_, ptrs := c.points()
					src := other.T1
					if on, op := other.points(); e < len(op) && len(on) == len(names) {
						src = *op[e]
					}
					np, how := t.alterPoint(start+k+e, *ptrs[e], src)
					if sameP(np, *ptrs[e]) {
						continue
					}
					*ptrs[e] = np
					t.mustReject(c, fmt.Sprintf("%s %s", names[e], how))
					t.Seen("point", m, names[e], how, o.t.Bytes())
				}
			}
			snames, _ := o.scals()
			for e := range snames {
				if (e+len(names))%mod != t.Shard%mod {
					continue
				}
				for k := 0; k < kinds; k++ {
					c := o.clone()
					_, ptrs := c.scals()
					_, op := other.scals()
					ns, how := t.alterScalar(start+k+e, *ptrs[e], *op[e])
					if sameS(ns, *ptrs[e]) {
						continue
					}
					*ptrs[e] = ns
					t.mustReject(c, fmt.Sprintf("%s %s", snames[e], how))
					t.Seen("scalar", m, snames[e], how, o.t.Bytes())
				}
			}
		})
	}
	if t.Tier == "thorough" {
		for _, m := range []int{1, 2, 4, 8} {
			all(m, 9, 1, m%3 == 1)
		}
		all(16, 3, 4, true)
		all(1, 9, 1, false)
		return
	}
	all(1, 5, 1, t.Shard%2 == 0)
	all(2, 2, 4, t.Shard%2 == 1)
	all(4, 2, 8, t.Shard%2 == 0)
	all(8, 2, 8, false)
	if t.Shard%2 == 0 {
		all(16, 1, 8, true)
	} else {
		all(16, 2, 8, true)
	}
	t.Sample("all elements of proofs with 1, 2, 4, 8 and 16 commitments")
}

// rpWeight is a way to weight the two equations of the verifier which a prover can
// predict.
type rpWeight struct {
	name string
	mu   bool // does not depend on taux (otherwise: not on mu)
	f    func(p *rpf, c rpChal) *big.Int
}

func rpWeights() []rpWeight {
	var ws []rpWeight
	add := func(name string, f func(p *rpf, c rpChal) *big.Int) { ws = append(ws, rpWeight{name, false, f}) }
	addMu := func(name string, f func(p *rpf, c rpChal) *big.Int) { ws = append(ws, rpWeight{name, true, f}) }
	for i := -1; i <= 2; i++ {
		for j := -1; j <= 2; j++ {
			for k := -1; k <= 3; k++ {
				if i == 0 && j == 0 && k == 0 {
					continue
				}
				add(fmt.Sprintf("x^%d y^%d z^%d", i, j, k), func(p *rpf, c rpChal) *big.Int {
					pow := func(a *big.Int, n int) *big.Int {
						if n < 0 {
							return binv(a)
						}
						return bpow(a, n)
					}
					return bmul(bmul(pow(c.x, i), pow(c.y, j)), pow(c.z, k))
				})
			}
		}
	}
	for _, n := range []int64{3, 4, 5, 7, 8, 16, 64, 255, 256, 1 << 32} {
		add(fmt.Sprint(n), func(*rpf, rpChal) *big.Int { return big.NewInt(n) })
	}
	add("x+y", func(p *rpf, c rpChal) *big.Int { return badd(c.x, c.y) })
	add("x+z", func(p *rpf, c rpChal) *big.Int { return badd(c.x, c.z) })
	add("y+z", func(p *rpf, c rpChal) *big.Int { return badd(c.y, c.z) })
	add("x+y+z", func(p *rpf, c rpChal) *big.Int { return badd(c.x, badd(c.y, c.z)) })
	add("-x", func(p *rpf, c rpChal) *big.Int { return bsub(big.NewInt(0), c.x) })
	add("-z", func(p *rpf, c rpChal) *big.Int { return bsub(big.NewInt(0), c.z) })
	add("t", func(p *rpf, c rpChal) *big.Int { return bigSc(p.t) })
	add("t x", func(p *rpf, c rpChal) *big.Int { return bmul(bigSc(p.t), c.x) })
	add("taux", func(p *rpf, c rpChal) *big.Int { return bigSc(p.taux) })
	addMu("mu", func(p *rpf, c rpChal) *big.Int { return bigSc(p.mu) })
	add("t taux", func(p *rpf, c rpChal) *big.Int { return bmul(bigSc(p.t), bigSc(p.taux)) })
	addMu("t mu", func(p *rpf, c rpChal) *big.Int { return bmul(bigSc(p.t), bigSc(p.mu)) })
	h := func(name string, mu bool, f func(p *rpf, c rpChal) [][]byte) {
		ws = append(ws, rpWeight{"hash of " + name, mu, func(p *rpf, c rpChal) *big.Int {
			return bigSc(refChallenge(bytes.Join(f(p, c), nil)))
		}})
	}
	b := func(v *big.Int) []byte { s := scBig(v); return s.Bytes() }
	h("nothing", false, func(*rpf, rpChal) [][]byte { return nil })
	h("x", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.x)} })
	h("y", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.y)} })
	h("z", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.z)} })
	h("t", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.t.Bytes()} })
	h("taux", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.taux.Bytes()} })
	h("mu", true, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.mu.Bytes()} })
	h("x y", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.x), b(c.y)} })
	h("y z", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.y), b(c.z)} })
	h("x y z", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.x), b(c.y), b(c.z)} })
	h("x t", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.x), p.t.Bytes()} })
	h("x taux", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.x), p.taux.Bytes()} })
	h("x mu", true, func(p *rpf, c rpChal) [][]byte { return [][]byte{b(c.x), p.mu.Bytes()} })
	h("taux t", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.taux.Bytes(), p.t.Bytes()} })
	h("mu t", true, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.mu.Bytes(), p.t.Bytes()} })
	h("A", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.A.Bytes()} })
	h("S", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.S.Bytes()} })
	h("T1", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.T1.Bytes()} })
	h("T2", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.T2.Bytes()} })
	h("T1 T2", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.T1.Bytes(), p.T2.Bytes()} })
	h("A S", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.A.Bytes(), p.S.Bytes()} })
	h("A S T1 T2", false, func(p *rpf, c rpChal) [][]byte {
		return [][]byte{p.A.Bytes(), p.S.Bytes(), p.T1.Bytes(), p.T2.Bytes()}
	})
	h("V", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.V[0].Bytes()} })
	h("V A S", false, func(p *rpf, c rpChal) [][]byte { return [][]byte{p.V[0].Bytes(), p.A.Bytes(), p.S.Bytes()} })
	tr := func(p *rpf, c rpChal) [][]byte {
		return [][]byte{p.V[0].Bytes(), p.A.Bytes(), p.S.Bytes(), b(c.z), p.T1.Bytes(), p.T2.Bytes()}
	}
	h("the transcript before taux", false, func(p *rpf, c rpChal) [][]byte { return append(tr(p, c), b(c.x)) })
	h("the transcript before mu", false, func(p *rpf, c rpChal) [][]byte { return append(tr(p, c), b(c.x), p.taux.Bytes()) })
	h("the transcript with mu only", true, func(p *rpf, c rpChal) [][]byte { return append(tr(p, c), b(c.x), p.mu.Bytes()) })
	return ws
}

func rpCheat(t *T) {
	one := big.NewInt(1)
	zero := new(big.Int)
	try := func(name string, m int, f func(w *rpWit, v []*big.Int, j int)) {
		v := t.values(m)
		j := t.IntN(m)
		t.Case(fmt.Sprintf("cheating prover: %s, %d values, position %d", name, m, j), func() {
			v[j] = t.badValue()
			w := t.witness(v)
			f(w, v, j)
			t.mustReject(w.prove(), name)
			t.Seen(name, m, j, v[j].Bytes())
		})
	}
	// what an honest proof would have for t at x
	fix := func(w *rpWit) func(p *rpf, c rpChal) {
		return func(p *rpf, c rpChal) {
			// t such that the first equation holds: sum z^{j+2} v_j + delta + t1 x + t2 x^2
			// is found from the witness, so redo the polynomial
			t0, t1, t2 := rpPoly(w, c)
			_ = t0
			want := rpDelta(c.y, c.z, len(w.v))
			for j := range w.v {
				want = badd(want, bmul(bpow(c.z, j+2), w.v[j]))
			}
			want = badd(want, badd(bmul(t1, c.x), bmul(t2, bmul(c.x, c.x))))
			p.t = scBig(want)
		}
	}
	ms := []int{1, 1, 2, 1, 4, 1, 2, 1}
	rounds := t.N(1, 8)
	for i := 0; i < rounds; i++ {
		m := ms[(i+t.Shard)%8]
		if t.Tier == "thorough" && i == 7 {
			m = 8
		}
		try("only the low 64 bits are proven", m, func(w *rpWit, v []*big.Int, j int) {})
		try("low bits, t repaired for the first equation", m, func(w *rpWit, v []*big.Int, j int) { w.tauxMuT = fix(w) })
		try("low bits, vectors repaired for the inner product", 1, func(w *rpWit, v []*big.Int, j int) {
			w.lr = func(l, r []*big.Int, c rpChal) {
				var p rpf
				fix(w)(&p, c)
				// change r[0] so that <l,r> is the t of the first equation
				d := bsub(bigSc(p.t), bdot(l, r))
				r[0] = badd(r[0], bmul(d, binv(l[0])))
			}
		})
		try("one digit holds the whole excess", 1, func(w *rpWit, v []*big.Int, j int) {
			k := t.IntN(64)
			hi := new(big.Int).Sub(v[j], new(big.Int).Mod(v[j], new(big.Int).Lsh(one, 64)))
			d := bmul(hi, binv(new(big.Int).Lsh(one, uint(k))))
			w.aL[64*j+k] = badd(w.aL[64*j+k], d)
			w.aR[64*j+k] = bsub(w.aL[64*j+k], one)
		})
		try("one digit holds the whole excess, its complement stays boolean", 1, func(w *rpWit, v []*big.Int, j int) {
			k := t.IntN(64)
			hi := new(big.Int).Sub(v[j], new(big.Int).Mod(v[j], new(big.Int).Lsh(one, 64)))
			w.aL[64*j+k] = badd(w.aL[64*j+k], bmul(hi, binv(new(big.Int).Lsh(one, uint(k)))))
		})
		try("one digit holds the whole excess and its complement is zero", 1, func(w *rpWit, v []*big.Int, j int) {
			k := t.IntN(64)
			w.aL[64*j+k] = badd(w.aL[64*j+k], bmul(new(big.Int).Rsh(v[j], 64), new(big.Int).Lsh(one, uint(64-k))))
			w.aR[64*j+k] = zero
		})
		try("all digits zero", 1, func(w *rpWit, v []*big.Int, j int) {
			for k := 0; k < 64; k++ {
				w.aL[64*j+k], w.aR[64*j+k] = zero, zero
			}
			w.tauxMuT = fix(w)
		})
		try("the linear coefficient absorbs the difference for a guessed x", 1, func(w *rpWit, v []*big.Int, j int) {
			w.polys = func(t1, t2 *big.Int, c rpChal) (*big.Int, *big.Int) {
				d := bmul(bmul(c.z, c.z), new(big.Int).Lsh(new(big.Int).Rsh(v[j], 64), 64))
				return bsub(t1, bmul(d, binv(c.x))), t2
			}
		})
		if m < 4 {
			try("digits proven for another slot", 2, func(w *rpWit, v []*big.Int, j int) {
				for k := 0; k < 64; k++ {
					w.aL[k], w.aL[64+k] = w.aL[64+k], w.aL[k]
					w.aR[k], w.aR[64+k] = w.aR[64+k], w.aR[k]
				}
			})
		}
		// the sum of two values is in range, each is not
		t.Case("two values out of range with a sum in range", func() {
			a := t.badValue()
			b := bsub(t.value(), a)
			t.mustReject(t.witness([]*big.Int{a, b}).prove(), "two values out of range with a sum in range")
			t.Seen("sum", a.Bytes())
		})
		// the library's own prover
		t.Case("library prover on a value out of range", func() {
			for k := 0; k < 3; k++ {
				v := t.values([]int{1, 2, 3}[k])
				v[t.IntN(len(v))] = t.badValue()
				for _, debug := range []bool{false, true} {
					if debug && k > 0 {
						continue
					}
					var p rangeproof.Proof
					var err error
					t.NoPanic("Prove", func() { p, err = rangeproof.Prove(scalars(v), debug) })
					if err == nil {
						t.Check(!t.accepted(p, "a proof for a value out of range"), "a proof for values %x is accepted", v)
					}
					t.Seen("library", fmt.Sprint(v), debug)
				}
			}
		})
		// combination of the two equations with a predictable weight
		t.Case("errors of the two equations that cancel under a known weight", func() {
			w := t.witness(t.values(1))
			base, c := w.proveC()
			for name, k := range map[string]*big.Int{"1": one, "-1": new(big.Int).Sub(groupL, one), "2": big.NewInt(2), "x": c.x, "y": c.y, "z": c.z, "x^2": bmul(c.x, c.x), "zero": nil} {
				w2 := *w
				d := t.bigScalar()
				w2.tauxMuT = func(p *rpf, c rpChal) {
					if k != nil {
						p.taux = sAdd(p.taux, scBig(d))
						p.mu = sSub(p.mu, scBig(bmul(d, binv(k))))
					} else {
						p.mu = sAdd(p.mu, scBig(d))
					}
				}
				t.mustReject(w2.prove(), "taux and mu shifted with weight "+name)
				t.Seen("weight", name, base.t.Bytes())
			}
			// a shift of t seen by both equations: ab = t is kept, the first equation breaks
			w3 := *w
			w3.lr = func(l, r []*big.Int, c rpChal) { r[0] = badd(r[0], one) }
			t.mustReject(w3.prove(), "r[0] shifted")
			w4 := *w
			w4.tauxMuT = func(p *rpf, c rpChal) { p.t = sAdd(p.t, scInt(1)) }
			t.mustReject(w4.prove(), "t shifted before the inner product")
			w5 := *w
			w5.aR = append([]*big.Int{}, w.aR...)
			w5.aR[t.IntN(64)] = t.bigScalar()
			t.mustReject(w5.prove(), "a complement digit replaced")
			t.Seen("shift", base.t.Bytes())
		})
		if i == 0 || t.Tier != "quick" {
			for n, k := range rpWeights() {
				if t.Tier == "quick" && n%8 != t.Shard%8 {
					continue
				}
				t.Case("errors of the two equations that cancel under the weight "+k.name, func() {
					w := t.witness(t.values(1))
					d := t.bigScalar()
					var undefined bool
					w.tauxMuT = func(p *rpf, c rpChal) {
						if k.mu { // the weight may depend on mu
							p.mu = sAdd(p.mu, scBig(d))
							p.taux = sSub(p.taux, scBig(bmul(d, k.f(p, c))))
							return
						}
						p.taux = sAdd(p.taux, scBig(d))
						v := k.f(p, c)
						if undefined = v.Sign() == 0; !undefined {
							p.mu = sSub(p.mu, scBig(bmul(d, binv(v))))
						}
					}
					o := w.prove()
					if undefined {
						return
					}
					t.mustReject(o, "taux and mu shifted with weight "+k.name)
					t.Seen("weight", k.name, o.t.Bytes())
				})
			}
		}
		// commitments shifted together with the blinding response, challenges kept
		t.Case("consistent shifts under the old challenges", func() {
			m := []int{1, 2}[t.IntN(2)]
			w := t.witness(t.values(m))
			o, c := w.proveC()
			d := t.bigScalar()
			dP := mulBase(scBig(d))
			for j := 0; j < m; j++ {
				s := o.clone()
				s.V[j] = add(s.V[j], dP)
				s.taux = sAdd(s.taux, scBig(bmul(d, bpow(c.z, j+2))))
				t.mustReject(s, fmt.Sprintf("V[%d] and taux shifted", j))
				// a commitment to another value, compensated in t and in T1
				s = o.clone()
				s.V[j] = add(s.V[j], mul(rpValueBase, scBig(d)))
				s.t = sAdd(s.t, scBig(bmul(d, bpow(c.z, j+2))))
				t.mustReject(s, fmt.Sprintf("V[%d] and t shifted", j))
				s = o.clone()
				s.V[j] = add(s.V[j], mul(rpValueBase, scBig(d)))
				s.T1 = sub(s.T1, mul(rpValueBase, scBig(bmul(bmul(d, bpow(c.z, j+2)), binv(c.x)))))
				t.mustReject(s, fmt.Sprintf("V[%d] and T1 shifted", j))
				s = o.clone()
				s.V[j] = add(s.V[j], mul(rpValueBase, scBig(d)))
				s.T2 = sub(s.T2, mul(rpValueBase, scBig(bmul(bmul(d, bpow(c.z, j+2)), binv(bmul(c.x, c.x))))))
				t.mustReject(s, fmt.Sprintf("V[%d] and T2 shifted", j))
			}
			if m == 2 {
				s := o.clone()
				s.V[0] = add(s.V[0], mul(rpValueBase, scBig(d)))
				s.V[1] = sub(s.V[1], mul(rpValueBase, scBig(bmul(d, binv(c.z)))))
				t.mustReject(s, "V[0] and V[1] shifted")
			}
			s := o.clone()
			s.T1 = add(s.T1, dP)
			s.taux = sAdd(s.taux, scBig(bmul(d, c.x)))
			t.mustReject(s, "T1 and taux shifted")
			s = o.clone()
			s.T2 = add(s.T2, dP)
			s.taux = sAdd(s.taux, scBig(bmul(d, bmul(c.x, c.x))))
			t.mustReject(s, "T2 and taux shifted")
			s = o.clone()
			s.A = add(s.A, dP)
			s.mu = sAdd(s.mu, scBig(d))
			t.mustReject(s, "A and mu shifted")
			s = o.clone()
			s.S = add(s.S, dP)
			s.mu = sAdd(s.mu, scBig(bmul(d, c.x)))
			t.mustReject(s, "S and mu shifted")
			s = o.clone()
			s.T1 = add(s.T1, mul(rpValueBase, scBig(d)))
			s.T2 = sub(s.T2, mul(rpValueBase, scBig(bmul(d, binv(c.x)))))
			t.mustReject(s, "T1 and T2 shifted")
			s = o.clone()
			s.A = add(s.A, dP)
			s.S = sub(s.S, mulBase(scBig(bmul(d, binv(c.x)))))
			t.mustReject(s, "A and S shifted")
			u := ippChal(o.L, o.R)
			k := t.IntN(len(u))
			s = o.clone()
			s.L[k] = add(s.L[k], dP)
			s.mu = sAdd(s.mu, scBig(bmul(d, bmul(u[k], u[k]))))
			t.mustReject(s, "L and mu shifted")
			s = o.clone()
			s.L[k] = add(s.L[k], dP)
			u4 := bmul(bmul(u[k], u[k]), bmul(u[k], u[k]))
			s.R[k] = sub(s.R[k], mulBase(scBig(bmul(d, u4))))
			t.mustReject(s, "L and R shifted")
			s = o.clone()
			s.a, s.b = sMul(s.a, scInt(2)), sMul(s.b, sInv(scInt(2)))
			t.mustReject(s, "a doubled and b halved")
			s = o.clone()
			s.a, s.b = s.b, s.a
			t.mustReject(s, "a and b swapped")
			s = o.clone()
			s.a, s.b = sSub(scInt(0), s.a), sSub(scInt(0), s.b)
			t.mustReject(s, "a and b negated")
			t.Seen("consistent", m, o.t.Bytes())
		})
	}
	// honest provers may use any randomness
	t.Case("honest proofs with special randomness", func() {
		for k := 0; k < t.N(3, 8); k++ {
			w := t.witness(t.values([]int{1, 2}[k%2]))
			switch (k + t.Shard) % 8 {
			case 0:
				w.alpha = zero
			case 1:
				w.rho = zero
			case 2:
				for i := range w.sL {
					w.sL[i] = zero
				}
			case 3:
				for i := range w.gamma {
					w.gamma[i] = zero
				}
			case 4:
				w.tau1, w.tau2 = zero, zero
			case 5:
				w.tau2 = w.tau1
			case 6:
				for i := range w.gamma {
					w.gamma[i] = one
				}
			case 7:
				w.rho = w.alpha
			}
			q, err := w.prove().lib()
			t.Check(err == nil && t.accepted(q, "an honest proof"), "a proof that satisfies the protocol's equations is rejected: %v", err)
			t.Seen("special randomness", (k+t.Shard)%8)
		}
	})
	// honest provers may commit to equal values with equal blinding factors
	for k := 0; k < t.N(1, 3); k++ {
		m := []int{2, 16, 4, 16, 8, 16, 8, 16}[(t.Shard+k)%8]
		t.Case(fmt.Sprintf("honest proof for %d values with equal commitments", m), func() {
			v := t.values(m)
			w := t.witness(v)
			pat := (t.Shard/2 + k) % 4
			for i := range v {
				src := 0
				switch pat {
				case 1: // neighbours
					src = i &^ 1
				case 2: // the second half repeats the first
					src = i % (m/2 + m%2)
				case 3: // one run at the end
					if src = i; i >= m/2 {
						src = m / 2
					}
				}
				w.v[i], w.gamma[i] = w.v[src], w.gamma[src]
				copy(w.aL[64*i:64*i+64], w.aL[64*src:64*src+64])
				copy(w.aR[64*i:64*i+64], w.aR[64*src:64*src+64])
			}
			o := w.prove()
			t.Check(o.verify() == nil, "reference: %v", o.verify())
			q, err := o.lib()
			t.Check(err == nil && t.accepted(q, "an honest proof"), "a proof with equal commitments that satisfies the protocol's equations is rejected: %v", err)
			if pat > 0 { // and not for the commitments in another order
				c := o.clone()
				c.V[0], c.V[m-1] = c.V[m-1], c.V[0]
				if !sameP(c.V[0], o.V[0]) {
					t.mustReject(c, "commitments exchanged")
				}
			}
			t.Seen("equal commitments", m, pat)
		})
	}
	t.Sample("false statements with all but one relation repaired, for 1 to 8 values")
}

// rpPoly recomputes the coefficients of the prover's polynomial.
func rpPoly(w *rpWit, c rpChal) (t0, t1, t2 *big.Int) {
	n := 64 * len(w.v)
	l0, r0, r1 := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	yp := big.NewInt(1)
	for i := 0; i < n; i++ {
		l0[i] = bsub(w.aL[i], c.z)
		r0[i] = badd(bmul(yp, badd(w.aR[i], c.z)), bmul(bpow(c.z, i/64+2), new(big.Int).Lsh(big.NewInt(1), uint(i%64))))
		r1[i] = bmul(yp, w.sR[i])
		yp = bmul(yp, c.y)
	}
	return bdot(l0, r0), badd(bdot(l0, r1), bdot(w.sL, r0)), bdot(w.sL, r1)
}

func rpShape(t *T) {
	reject := func(p rangeproof.Proof, what string) {
		t.Check(!t.accepted(p, what), "accepted: %s", what)
		t.Seen("rejected", what)
	}
	open := func(o rpf) rangeproof.Proof {
		q, err := o.lib()
		if err != nil {
			t.Violate("decoding a well-formed proof: %v", err)
		}
		return q
	}
	for i := 0; i < t.N(1, 6); i++ {
		m := []int{2, 1, 4, 2, 1, 2, 1, 4}[(i+t.Shard)%8]
		t.Case(fmt.Sprintf("shapes around a proof with %d commitments", m), func() {
			v := t.values(m)
			w := t.witness(v)
			o := w.prove()
			q := open(o)
			t.Check(t.accepted(q, "an honest proof"), "an honest proof is rejected")
			com := func(p pt) pedersen.Commitment { return pedersen.Commitment{Value: p} }
			with := func(f func(p *rangeproof.Proof)) rangeproof.Proof {
				p := open(o)
				f(&p)
				return p
			}
			for j := 0; j < m; j++ {
				reject(with(func(p *rangeproof.Proof) { p.V = append(append([]pedersen.Commitment{}, p.V[:j]...), p.V[j+1:]...) }), fmt.Sprintf("V[%d] of %d dropped", j, m))
				reject(with(func(p *rangeproof.Proof) {
					p.V = append(append(append([]pedersen.Commitment{}, p.V[:j]...), com(o.V[j])), p.V[j:]...)
				}), fmt.Sprintf("V[%d] of %d repeated", j, m))
				for k := 0; k < j; k++ {
					reject(with(func(p *rangeproof.Proof) { p.V[j], p.V[k] = p.V[k], p.V[j] }), fmt.Sprintf("V[%d] and V[%d] swapped", j, k))
				}
			}
			var zero pt
			zero.SetZero()
			for _, extra := range []pt{zero, t.RandPoint(), rpCommit(t.value(), t.bigScalar())} {
				for _, upTo := range []int{m + 1, 2 * m, 16, 17, 32, 64} {
					if upTo <= m {
						continue
					}
					reject(with(func(p *rangeproof.Proof) {
						for len(p.V) < upTo {
							p.V = append(p.V, com(extra))
						}
					}), fmt.Sprintf("%d commitments instead of %d", upTo, m))
				}
				reject(with(func(p *rangeproof.Proof) { p.V = append([]pedersen.Commitment{com(extra)}, p.V...) }), "commitment prepended")
			}
			if m > 1 {
				reject(with(func(p *rangeproof.Proof) { p.V = p.V[:m/2] }), "half of the commitments")
				reject(with(func(p *rangeproof.Proof) { p.V = p.V[m/2:] }), "second half of the commitments")
			}
			reject(with(func(p *rangeproof.Proof) { p.V = nil }), "no commitments")
			reject(with(func(p *rangeproof.Proof) { p.V = []pedersen.Commitment{} }), "empty commitments")
			reject(with(func(p *rangeproof.Proof) { p.V[t.IntN(m)].Value = pt{} }), "a commitment that is no group element")
			reject(with(func(p *rangeproof.Proof) { p.A = pt{} }), "A that is no group element")
			reject(with(func(p *rangeproof.Proof) { p.S = pt{} }), "S that is no group element")
			reject(with(func(p *rangeproof.Proof) { p.T1 = pt{} }), "T1 that is no group element")
			reject(with(func(p *rangeproof.Proof) { p.T2 = pt{} }), "T2 that is no group element")
			rounds := bits.Len(uint(64*m)) - 1
			for k := 0; k < rounds; k++ {
				reject(with(func(p *rangeproof.Proof) { p.IPProof.L[k] = pt{} }), fmt.Sprintf("L[%d] that is no group element", k))
				reject(with(func(p *rangeproof.Proof) { p.IPProof.R[k] = pt{} }), fmt.Sprintf("R[%d] that is no group element", k))
				reject(with(func(p *rangeproof.Proof) { p.IPProof.L[k], p.IPProof.R[k] = p.IPProof.R[k], p.IPProof.L[k] }), fmt.Sprintf("L[%d] and R[%d] swapped", k, k))
				if k > 0 {
					reject(with(func(p *rangeproof.Proof) {
						L, R := p.IPProof.L, p.IPProof.R
						L[k], L[k-1], R[k], R[k-1] = L[k-1], L[k], R[k-1], R[k]
					}), fmt.Sprintf("rounds %d and %d swapped", k, k-1))
				}
				reject(with(func(p *rangeproof.Proof) { p.IPProof.L, p.IPProof.R = p.IPProof.L[:k], p.IPProof.R[:k] }), fmt.Sprintf("%d rounds only", k))
				reject(with(func(p *rangeproof.Proof) { p.IPProof.L = p.IPProof.L[:k] }), fmt.Sprintf("%d times L only", k))
				reject(with(func(p *rangeproof.Proof) { p.IPProof.R = p.IPProof.R[:k] }), fmt.Sprintf("%d times R only", k))
			}
			for _, extra := range []pt{zero, t.RandPoint(), {}} {
				reject(with(func(p *rangeproof.Proof) {
					p.IPProof.L, p.IPProof.R = append(p.IPProof.L, extra), append(p.IPProof.R, extra)
				}), "a round more")
				reject(with(func(p *rangeproof.Proof) { p.IPProof.L = append(p.IPProof.L, extra) }), "an L more")
				reject(with(func(p *rangeproof.Proof) { p.IPProof.R = append(p.IPProof.R, extra) }), "an R more")
				for _, more := range []int{5, 26, 34, 60} {
					reject(with(func(p *rangeproof.Proof) {
						for k := 0; k < more; k++ {
							p.IPProof.L, p.IPProof.R = append(p.IPProof.L, extra), append(p.IPProof.R, extra)
						}
					}), fmt.Sprintf("%d rounds more", more))
				}
			}
			reject(with(func(p *rangeproof.Proof) { p.IPProof = nil }), "no inner product proof")
			reject(with(func(p *rangeproof.Proof) { p.IPProof = &innerproduct.Proof{} }), "empty inner product proof")
			reject(with(func(p *rangeproof.Proof) { p.IPProof.L, p.IPProof.R = nil, nil }), "no rounds")
			reject(with(func(p *rangeproof.Proof) {
				for j := range p.V {
					p.V[j].Value = pt{}
				}
				p.A, p.S, p.T1, p.T2 = pt{}, pt{}, pt{}, pt{}
				for k := range p.IPProof.L {
					p.IPProof.L[k], p.IPProof.R[k] = pt{}, pt{}
				}
			}), "nothing but points that are no group elements")
			reject(rangeproof.Proof{}, "the zero proof")
			reject(rangeproof.Proof{V: q.V}, "commitments only")
			// all zero in the right shape
			z := rpf{V: make([]pt, m), L: make([]pt, rounds), R: make([]pt, rounds)}
			_, ptrs := z.points()
			for k := range ptrs {
				ptrs[k].SetZero()
			}
			zq, err := z.lib()
			if err == nil {
				t.Check(!t.accepted(zq, "all identities and zeros") || z.verify() == nil, "a proof of identities and zeros is accepted")
			}
			// the blinding factors next to the commitments are no part of the statement
			bl := with(func(p *rangeproof.Proof) {
				for j := range p.V {
					p.V[j].BlindingFactor = t.RandScalar()
				}
			})
			t.Check(t.accepted(bl, "other blinding factors beside the commitments"), "the verdict depends on the blinding factors kept beside the commitments")
		})
	}
	t.Sample("shapes: dropped, added, repeated and reordered commitments and rounds, points that are no group elements at every place")
}

// rpVerifyHelper is a fresh process: it verifies the proofs given in hex, in order.
func rpVerifyHelper(args []string) {
	in, _ := io.ReadAll(os.Stdin)
	for _, line := range strings.Fields(string(in)) {
		b, _ := hex.DecodeString(line)
		var p rangeproof.Proof
		if err := p.Decode(bytes.NewReader(b), true); err != nil {
			fmt.Println("undecodable")
			continue
		}
		ok, err := rangeproof.Verify(p)
		fmt.Println(ok, err == nil)
	}
}

func freshVerdicts(proofs ...[]byte) ([]string, error) {
	self, _ := os.Executable()
	cmd := exec.Command(self, "-helper", "rpverify")
	var in bytes.Buffer
	for _, p := range proofs {
		fmt.Fprintln(&in, hex.EncodeToString(p))
	}
	cmd.Stdin = &in
	waiting.Add(1)
	out, err := cmd.CombinedOutput()
	waiting.Add(-1)
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	return strings.Split(strings.TrimSpace(string(out)), "\n"), nil
}

func rpHistory(t *T) {
	type entry struct {
		p    rangeproof.Proof
		enc  []byte
		good bool
		m    int
		what string
	}
	for h := 0; h < t.N(1, 3); h++ {
		var pool []entry
		steps := ""
		t.Case(fmt.Sprintf("history %d", h), func() {
			addProof := func(p rangeproof.Proof, good bool, what string) {
				var buf bytes.Buffer
				if err := p.Encode(&buf, true); err != nil {
					t.Violate("%v", err)
					return
				}
				pool = append(pool, entry{p, buf.Bytes(), good, len(p.V), what})
			}
			fresh := func(es ...entry) {
				var encs [][]byte
				for _, e := range es {
					encs = append(encs, e.enc)
				}
				out, err := freshVerdicts(encs...)
				if !t.Check(err == nil && len(out) == len(es), "a fresh process fails to verify: %v %v", err, out) {
					return
				}
				for i, e := range es {
					t.Check(out[i] == fmt.Sprintf("%v %v", e.good, e.good), "a fresh process says %q about %s (%d commitments), which is %v", out[i], e.what, e.m, e.good)
					t.Seen("fresh process", e.m, e.what, i, e.enc)
				}
			}
			// proofs of an independent prover, before this process proved anything
			for _, m := range []int{1, 2, 4, []int{1, 8, 2, 4, 1, 2, 16, 1}[t.Shard%8]} {
				o := t.witness(t.values(m)).prove()
				q, err := o.lib()
				t.Check(err == nil, "%v", err)
				addProof(q, true, "a reference proof")
				bad := o.clone()
				switch t.IntN(4) {
				case 0:
					bad.V[t.IntN(m)] = t.RandPoint()
				case 1:
					bad.t = sAdd(bad.t, scInt(1))
				case 2:
					bad.L[t.IntN(len(bad.L))] = t.RandPoint()
				default:
					bad.a, bad.b = bad.b, bad.a
				}
				q, err = bad.lib()
				t.Check(err == nil, "%v", err)
				addProof(q, false, "an altered proof")
			}
			first := t.IntN(len(pool))
			for s := 0; s < t.N(22, 60); s++ {
				k := t.IntN(10)
				if s == 0 {
					k = 9
				}
				switch {
				case k == 0:
					m := 1 + t.IntN(4)
					if t.IntN(6) == 0 {
						m = 5 + t.IntN(12)
					}
					p, err := rangeproof.Prove(scalars(t.values(m)), t.IntN(4) == 0 && m < 3)
					if t.Check(err == nil, "proving %d values fails after %s: %v", m, steps, err) {
						addProof(p, true, "a library proof")
					}
					steps += fmt.Sprintf(" prove(%d)", m)
				case k == 1:
					n := []int{0, 17, 33}[t.IntN(3)]
					_, err := rangeproof.Prove(scalars(t.values(n)), false)
					t.Check(err != nil, "%d values are not refused", n)
					steps += fmt.Sprintf(" refused(%d)", n)
				case k == 2:
					v := t.values(1 + t.IntN(2))
					v[0] = t.badValue()
					p, err := rangeproof.Prove(scalars(v), t.IntN(3) == 0)
					if err == nil && t.IntN(2) == 0 {
						addProof(p, false, "a library proof of a value out of range")
					}
					steps += " prove(bad)"
				case k == 3:
					e := pool[t.IntN(len(pool))]
					var p rangeproof.Proof
					_ = p.Decode(bytes.NewReader(e.enc), true)
					switch t.IntN(3) {
					case 0:
						p.V = p.V[:len(p.V)-1]
					case 1:
						p.IPProof.L = p.IPProof.L[1:]
					default:
						p.A = pt{}
					}
					t.Check(!t.accepted(p, "a malformed proof"), "a malformed proof is accepted")
					steps += " malformed"
				default:
					i := t.IntN(len(pool))
					if s == 0 {
						i = first
					}
					e := pool[i]
					got := t.accepted(e.p, e.what)
					t.Check(got == e.good, "%s with %d commitments gets verdict %v after the history%s", e.what, e.m, got, steps)
					steps += fmt.Sprintf(" verify(%d,%v)", e.m, e.good)
					if t.IntN(3) == 0 { // as decoded
						var p rangeproof.Proof
						err := p.Decode(bytes.NewReader(e.enc), true)
						t.Check(err == nil && t.accepted(p, e.what) == e.good, "%s with %d commitments gets another verdict after decoding: %v", e.what, e.m, err)
					}
					t.Seen("verdict", h, steps)
				}
			}
			// nothing changed the proofs
			for _, e := range pool {
				var buf bytes.Buffer
				err := e.p.Encode(&buf, true)
				t.Check(err == nil && bytes.Equal(buf.Bytes(), e.enc), "%s changed during the history", e.what)
			}
			// fresh processes: each starts with another proof
			for k := 0; k < t.N(3, 8); k++ {
				fresh(pool[t.IntN(len(pool))])
			}
			i, j := t.IntN(len(pool)), t.IntN(len(pool))
			fresh(pool[i], pool[j], pool[i])
		})
		t.Sample("history:%s", steps)
	}
}

// ---- randomness

func rpFresh(t *T) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	v := t.values(1)
	// 1. the same values again and again
	var prev []rpf
	for i := 0; i < t.N(14, 50); i++ {
		m := 1
		if i%4 == 3 {
			m = 3 // with padding
		}
		if i%6 == 5 {
			v = t.values(1)
		}
		vals := append([]*big.Int{}, v...)
		for len(vals) < m {
			vals = append(vals, v[0])
		}
		t.Case(fmt.Sprintf("repeated proofs of %x", vals), func() {
			p, err := rangeproof.Prove(scalars(vals), i%3 == 2)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			o, err := fromRP(&p)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			for j := range p.V {
				t.Collect("blind", words(p.V[j].BlindingFactor.Bytes())...)
			}
			_, pts := o.points()
			var zero pt
			zero.SetZero()
			for k := range pts {
				t.Check(!sameP(*pts[k], zero), "an element of a proof is the identity")
				t.Collect("element", h64(pts[k].Bytes()))
				t.Seen("element", pts[k].Bytes())
			}
			_, scs := o.scals()
			for k := range scs {
				t.Collect("element", h64(scs[k].Bytes()))
				t.Seen("element", scs[k].Bytes())
			}
			// blinding terms left after taking out the known values
			c := o.chal()
			n := 64 * len(p.V)
			var aL, aR []*big.Int
			tz := rpDelta(c.y, c.z, len(p.V))
			for j := range p.V {
				x := new(big.Int)
				if j < len(vals) {
					x = vals[j]
				}
				for k := 0; k < 64; k++ {
					aL = append(aL, big.NewInt(int64(x.Bit(k))))
					aR = append(aR, big.NewInt(int64(x.Bit(k))-1))
				}
				tz = badd(tz, bmul(bpow(c.z, j+2), x))
			}
			alphaP := sub(o.A, add(msm(aL, rpG(n)), msm(aR, rpH(n))))
			t.Check(!sameP(alphaP, zero), "A is not blinded")
			t.Collect("element", h64(alphaP.Bytes()))
			// t - t0 = t1 x + t2 x^2 must not vanish, nor be the same again
			left := scBig(bsub(bigSc(o.t), tz))
			t.Check(left.IsNonZeroI() != 0, "t is not blinded")
			t.Collect("element", h64(left.Bytes()))
			sum := new(big.Int)
			for j := range p.V {
				sum = badd(sum, bmul(bpow(c.z, j+2), bigSc(p.V[j].BlindingFactor)))
			}
			tb := scBig(bsub(bigSc(o.taux), sum))
			t.Check(tb.IsNonZeroI() != 0, "taux is not blinded")
			t.Collect("element", h64(tb.Bytes()))
			// candidates for the blinding factors of A, S, T1 and T2: none of those known
			known := map[string]bool{}
			for j := range p.V {
				known[string(p.V[j].BlindingFactor.Bytes())] = true
				b := mulBase(p.V[j].BlindingFactor)
				t.Check(!sameP(alphaP, b), "A has the blinding factor of commitment %d", j)
			}
			t.Check(!known[string(o.mu.Bytes())] && !known[string(o.taux.Bytes())] && !known[string(o.t.Bytes())], "a response is a blinding factor")
			// mu = alpha + rho x: rho = 0, rho = alpha
			t.Check(!sameP(mulBase(o.mu), alphaP), "S is not blinded")
			t.Check(!sameP(mul(alphaP, scBig(badd(big.NewInt(1), c.x))), mulBase(o.mu)), "A and S have the same blinding factor")
			inv := new(big.Int).ModInverse(c.x, groupL)
			rhoP := mul(sub(mulBase(o.mu), alphaP), scBig(inv)) // the blinding factor of S in the exponent
			t.Collect("element", h64(rhoP.Bytes()))
			for _, q := range []pt{alphaP, rhoP} {
				var s pt
				s.SetBase()
				for k := 1; k <= 64; k++ {
					t.Check(!sameP(q, s), "the blinding factor of A or S is %d", k)
					s = add(s, mulBase(scInt(1)))
				}
			}
			// tau1 x + tau2 x^2 when one of them is zero and the other known
			x2 := bmul(c.x, c.x)
			for j := range p.V {
				k := bigSc(p.V[j].BlindingFactor)
				t.Check(bmul(k, c.x).Cmp(bigSc(tb)) != 0 && bmul(k, x2).Cmp(bigSc(tb)) != 0, "T1 and T2 have no blinding factor but that of commitment %d", j)
			}
			prev = append(prev, o)
		})
	}
	// 2. commitments
	t.Case("commitments to equal values", func() {
		ped := pedersen.New(t.Bytes(8))
		for i := 0; i < t.N(1200, 6000); i++ {
			s := scInt(int64(i % 3))
			c := ped.CommitToScalar(s)
			t.Collect("blind", words(c.BlindingFactor.Bytes())...)
			t.Collect("element", h64(c.Value.Bytes()))
			t.Seen("commitment", c.Value.Bytes())
			if i%20 == 0 || i > 600 && i < 700 {
				c = ped.CommitToVectors([]sc{s}, []sc{s, s})
				t.Collect("blind", words(c.BlindingFactor.Bytes())...)
				t.Collect("element", h64(c.Value.Bytes()))
				t.Seen("commitment", c.Value.Bytes())
				c = pedersen.New(t.Bytes(8)).CommitToScalar(s)
				t.Collect("blind", words(c.BlindingFactor.Bytes())...)
			}
		}
	})
	// 3. nothing but the system's source: the same source gives the same proof
	t.Case("the same random source", func() {
		val := scalars(t.values(2))
		run := func(seed uint64) []byte {
			d := newDRBG("fresh", seed, t.seed, t.Shard)
			crand.Reader = d
			p, err := rangeproof.Prove(val, false)
			crand.Reader = saved
			if err != nil {
				t.Violate("%v", err)
				return nil
			}
			t.Check(d.count() >= int64(32*(2+4+4*64)), "a proof of 2 values took only %d bytes from the random source", d.count())
			var b bytes.Buffer
			_ = p.Encode(&b, true)
			return b.Bytes()
		}
		a := run(1)
		_, _ = rangeproof.Prove(scalars(t.values(1)), false)
		b := run(1)
		t.Check(bytes.Equal(a, b), "two proofs under the same random source differ: randomness comes from elsewhere")
		c := run(2)
		pa, e1 := parseRP(a)
		pc, e2 := parseRP(c)
		if t.Check(e1 == nil && e2 == nil, "%v %v", e1, e2) {
			n, xs := pa.points()
			_, ys := pc.points()
			for k := range xs {
				t.Check(!sameP(*xs[k], *ys[k]), "%s is the same under another random source", n[k])
			}
			n, us := pa.scals()
			_, ws := pc.scals()
			for k := range us {
				t.Check(!sameS(*us[k], *ws[k]), "%s is the same under another random source", n[k])
			}
		}
		t.Seen("source", a)
	})
	t.Case("the same random source, commitments", func() {
		run := func(seed uint64) []byte {
			crand.Reader = newDRBG("fresh2", seed, t.seed)
			ped := pedersen.New([]byte("x"))
			a, b := ped.CommitToScalar(scInt(5)), ped.CommitToVectors([]sc{scInt(1)})
			crand.Reader = saved
			return append(append(append([]byte{}, a.Value.Bytes()...), b.Value.Bytes()...), append(a.BlindingFactor.Bytes(), b.BlindingFactor.Bytes()...)...)
		}
		a, b := run(1), run(1)
		t.Check(bytes.Equal(a, b), "commitments under the same random source differ")
		t.Seen("source", a)
	})
	t.Sample("%d proofs of equal values, elements and blinding terms pooled", len(prev))
}

func words(b []byte) []uint64 {
	var w []uint64
	for i := 0; i+8 <= len(b); i += 8 {
		w = append(w, binary.LittleEndian.Uint64(b[i:]))
	}
	return w
}

func finishFresh(bag map[string][][]uint64) []string {
	var out []string
	seen := map[uint64]int{}
	n := 0
	for _, l := range bag["element"] {
		for _, x := range l {
			seen[x]++
			n++
		}
	}
	dup := n - len(seen)
	if dup > 0 {
		out = append(out, fmt.Sprintf("%d of %d elements or blinding terms of different proofs and commitments are repeated", dup, n))
	}
	out = append(out, scalarStats("blinding factor", bag["blind"])...)
	return out
}

// scalarStats judges scalars given as four words each.
func scalarStats(what string, lists [][]uint64) []string {
	var out []string
	var all [][4]uint64
	for _, l := range lists {
		for i := 0; i+4 <= len(l); i += 4 {
			all = append(all, [4]uint64{l[i], l[i+1], l[i+2], l[i+3]})
		}
	}
	if len(all) < 200 {
		return nil
	}
	seen := map[[4]uint64]bool{}
	var half [3]map[uint64]bool
	for w := range half {
		half[w] = map[uint64]bool{}
	}
	ones := make([]int, 252)
	for _, s := range all {
		if seen[s] {
			out = append(out, fmt.Sprintf("a %s is repeated: %x", what, s))
			break
		}
		seen[s] = true
		for b := 0; b < 252; b++ {
			ones[b] += int(s[b/64] >> (b % 64) & 1)
		}
		for w := range half {
			if half[w][s[w]] {
				out = append(out, fmt.Sprintf("64 bits of two %ss are the same", what))
			}
			half[w][s[w]] = true
		}
		if len(out) > 3 {
			break
		}
	}
	n := float64(len(all))
	for b, k := range ones {
		z := (float64(k) - n/2) / (0.5 * sqrt(n))
		if z > 8 || z < -8 {
			out = append(out, fmt.Sprintf("bit %d of %d %ss is set %d times", b, len(all), what, k))
			break
		}
	}
	return out
}

// tapeReader replays a tape.
type tapeReader struct {
	b   []byte
	pos int
	ext *drbg
}

func (r *tapeReader) Read(p []byte) (int, error) {
	n := copy(p, r.b[min(r.pos, len(r.b)):])
	if n < len(p) {
		_, _ = r.ext.Read(p[n:])
	}
	r.pos += len(p)
	return len(p), nil
}

// names of element classes in the flow masks
const (
	flowV  = 0 // bits 0..15: V[j]
	flowA  = 16
	flowS  = 17
	flowT1 = 18
	flowT2 = 19
	flowX  = 20 // anything later
)

// rpFlow perturbs each draw from the random source in turn.
func rpFlow(t *T) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	sizes := []int{1, 2}
	if t.Tier == "thorough" {
		sizes = []int{1, 2, 3, 4, 1, 2}
	}
	for run, m := range sizes {
		// the same values and source in every shard: the shards share the draws out
		src := rand0("flow", t.seed, run)
		v := make([]sc, m)
		for i := range v {
			v[i] = scBig(new(big.Int).SetUint64(src.Uint64() >> uint(src.IntN(64))))
		}
		step := 64
		if m == 1 {
			step = 16
		}
		t.Case(fmt.Sprintf("flow of randomness, %d values", m), func() {
			prove, base, tape, ok := t.flowBase(v, run, false)
			if !ok {
				return
			}
			M := uint64(len(base.V))
			if t.Shard == 0 {
				t.Collect(fmt.Sprintf("%d size", run), M, uint64(step))
			}
			for k := t.Shard; k < len(tape)/step; k += t.Shards {
				mask, ok := prove(k*step, step)
				if !ok {
					return
				}
				t.Collect(fmt.Sprintf("%d mask", run), mask)
				t.Seen("draw", run, k, mask)
			}
		})
	}
	rpFlowLarge(t)
	t.Sample("every piece of the random source's output changed in turn")
}

// flowBase makes a proof with a recorded random source; the function returned makes
// it again with n bytes of the source changed, and says which elements changed.
func (t *T) flowBase(v []sc, run int, debug bool) (again func(at, n int) (uint64, bool), base rpf, tape []byte, ok bool) {
	saved := crand.Reader
	d := newDRBG("flow", t.seed, run)
	d.tape = &bytes.Buffer{}
	prove := func(r io.Reader) (rpf, bool) {
		crand.Reader = r
		p, err := rangeproof.Prove(v, debug)
		crand.Reader = saved
		if !t.Check(err == nil, "%v", err) {
			return rpf{}, false
		}
		o, err := fromRP(&p)
		return o, t.Check(err == nil, "%v", err)
	}
	base, ok = prove(d)
	if !ok {
		return
	}
	tape = append([]byte{}, d.tape.Bytes()...)
	again = func(at, n int) (uint64, bool) {
		b := append([]byte{}, tape...)
		for j := at; j < at+n && j < len(b); j++ {
			b[j] ^= byte(1 + t.IntN(255))
		}
		o, ok := prove(&tapeReader{b: b, ext: newDRBG("ext", at)})
		if !ok || len(o.V) != len(base.V) {
			return 0, false
		}
		var mask uint64
		for j := range o.V {
			if !sameP(o.V[j], base.V[j]) {
				mask |= 1 << (flowV + j)
			}
		}
		for i, pair := range [][2]pt{{o.A, base.A}, {o.S, base.S}, {o.T1, base.T1}, {o.T2, base.T2}} {
			if !sameP(pair[0], pair[1]) {
				mask |= 1 << (flowA + i)
			}
		}
		if !bytes.Equal(o.bytes(false)[128:], base.bytes(false)[128:]) {
			mask |= 1 << flowX
		}
		return mask, true
	}
	return again, base, tape, true
}

// tapeWitness is the prover's choices when every draw reduces 64 bytes and the draws
// are made in the order of the protocol; nil when the length does not fit.
func tapeWitness(v []sc, M int, tape []byte) *rpWit {
	if len(tape) != 64*(M+1+128*M+1+2) {
		return nil
	}
	draw := func() *big.Int {
		var b [64]byte
		copy(b[:], tape)
		tape = tape[64:]
		var s sc
		s.SetReduced(&b)
		return bigSc(s)
	}
	w := &rpWit{}
	for j := 0; j < M; j++ {
		x := new(big.Int)
		if j < len(v) {
			x = bigSc(v[j])
		}
		w.v = append(w.v, x)
		w.gamma = append(w.gamma, draw())
		for i := 0; i < 64; i++ {
			bit := int64(x.Bit(i))
			w.aL = append(w.aL, big.NewInt(bit))
			w.aR = append(w.aR, big.NewInt(bit-1))
		}
	}
	w.alpha = draw()
	for i := 0; i < 64*M; i++ {
		w.sL = append(w.sL, draw())
		w.sR = append(w.sR, draw())
	}
	w.rho, w.tau1, w.tau2 = draw(), draw(), draw()
	return w
}

// oddEntry names the entry of the vectors of S that is zero or another draw than its
// own, when the difference of S from what was expected is due to one such entry.
func (w *rpWit) oddEntry(diff pt) string {
	n := len(w.sL)
	G, H := rpG(n), rpH(n)
	draws := append(append([]*big.Int{}, w.sL...), w.sR...)
	for k := 0; k < 2*n; k++ {
		p, name := pt{}, ""
		if k < n {
			p, name = G[k], fmt.Sprintf("entry %d of the left vector of S", k)
		} else {
			p, name = H[k-n], fmt.Sprintf("entry %d of the right vector of S", k-n)
		}
		if sameP(diff, msm([]*big.Int{bsub(new(big.Int), draws[k])}, []pt{p})) {
			return name + " is zero"
		}
		for _, j := range []int{k - 1, k + 1, (k + n) % (2 * n), (k+n)%(2*n) - 1, k - 64, k % 64, 0, n} {
			if j >= 0 && j < 2*n && j != k && sameP(diff, msm([]*big.Int{bsub(draws[j], draws[k])}, []pt{p})) {
				return fmt.Sprintf("%s is the draw for entry %d", name, j)
			}
		}
	}
	return ""
}

// rpFlowLarge looks at the draws for single elements of proofs over many values.
func rpFlowLarge(t *T) {
	sizes := [][]int{{16, 2}, {8, 7}, {4, 15}, {9, 3}, {5, 13}, {16, 1}, {3, 11}, {12, 6}}[t.Shard%8]
	if t.Tier == "thorough" {
		sizes = []int{1 + t.IntN(16), 1 + t.IntN(16), 16, 8, 4}
	}
	_, _, one, ok := t.flowBase([]sc{scBig(new(big.Int).SetUint64(t.Uint64()))}, 50, false)
	if !ok {
		return
	}
	width := len(one) / (1 + 1 + 128 + 1 + 2)
	usual := 0 // proofs made with the draws in the expected places
	type flowCase struct {
		v     []sc
		debug bool
	}
	var cases []flowCase
	for _, m := range sizes {
		c := flowCase{v: make([]sc, m)}
		for i := range c.v {
			c.v[i] = scBig(new(big.Int).SetUint64(t.Uint64()))
		}
		cases = append(cases, c)
	}
	// special values, and the prover's self-checks
	for i := 0; i < t.N(10, 40); i++ {
		c := flowCase{v: make([]sc, 1+t.IntN(4)), debug: i%2 == 0}
		if i < 2 {
			c.v = c.v[:1]
		}
		x := t.values(len(c.v))
		for k := range c.v {
			switch (i + t.Shard) % 5 {
			case 0:
				c.v[k] = scInt(0)
			case 1:
				c.v[k] = scBig(new(big.Int).SetUint64(1<<64 - 1))
			case 2:
				c.v[k] = scBig(x[0])
			case 3:
				c.v[k] = scBig(x[k])
			case 4:
				c.v[k] = scBig(new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(64))))
			}
		}
		cases = append(cases, c)
	}
	for run, c := range cases {
		m, v := len(c.v), c.v
		if run >= len(sizes) && usual == 0 && run != len(sizes) {
			break // each of them would take long
		}
		t.Case(fmt.Sprintf("flow of randomness, %d values, debug %v", m, c.debug), func() {
			again, base, tape, ok := t.flowBase(v, 100+run, c.debug)
			if !ok {
				return
			}
			M := len(base.V)
			if w := tapeWitness(v, M, tape); w != nil {
				// every draw lies where it is expected: the proof is the protocol's with these draws
				want := w.prove()
				if bytes.Equal(want.bytes(true), base.bytes(true)) {
					t.Seen("draws of many", M, len(tape), want.S.Bytes())
					usual++
					return
				}
				if bytes.Equal(base.bytes(true)[:4+32*M+32], want.bytes(true)[:4+32*M+32]) && !sameP(base.S, want.S) {
					// V and A are as expected, S is not: is a single entry of its vectors to blame?
					if e := w.oddEntry(sub(base.S, want.S)); !t.Check(e == "", "proof over %d values: %s", m, e) {
						return
					}
				}
			}
			// the draws are made in another way, or some are not used
			t.Check(len(tape) >= width*(M+1+128*M+1+2), "a proof over %d values draws %d bytes, one over a single value %d", M, len(tape), len(one))
			own := map[string]int{}
			missing := func(need int) string {
				for j := 0; j < M; j++ {
					if own[fmt.Sprint("V", j)] < need {
						return fmt.Sprintf("commitment %d of %d", j, M)
					}
				}
				for _, e := range []string{"A", "T1", "T2"} {
					if own[e] < need {
						return e
					}
				}
				return ""
			}
			look := func(at, n int) bool {
				k, ok := again(at, n)
				if !ok {
					return false
				}
				vs, single := k&(1<<M-1), ""
				A, S, T1, T2 := k>>flowA&1, k>>flowS&1, k>>flowT1&1, k>>flowT2&1
				switch {
				case bits.OnesCount64(vs) == 1 && A == 0 && S == 0:
					single = fmt.Sprint("V", bits.TrailingZeros64(vs))
				case vs == 0 && A == 1 && S == 0:
					single = "A"
				case vs == 0 && A == 0 && S == 0 && T1 == 1 && T2 == 0:
					single = "T1"
				case vs == 0 && A == 0 && S == 0 && T1 == 0 && T2 == 1:
					single = "T2"
				}
				if single != "" {
					own[single]++
				}
				t.Seen("piece of many", M, at, n, single)
				return true
			}
			// where the draws lie when each takes as many bytes as for one value
			for j := 0; j <= M; j++ {
				if !look(j*width, width) {
					return
				}
			}
			for _, j := range []int{2, 1} {
				if !look(len(tape)-j*width, width) {
					return
				}
			}
			// the vectors of S
			idle, tried := 0, 40
			for k := 0; k < tried; k++ {
				p := (M + 2 + t.IntN(128*M-2)) * width
				ok := false
				t.Case(fmt.Sprintf("flow of randomness, %d values, %d bytes at %d", m, width, p), func() {
					var mask uint64
					mask, ok = again(p, width)
					if mask>>flowS&1 == 0 {
						idle++
					}
				})
				if !ok {
					return
				}
			}
			t.Check(idle <= 3, "proof over %d values: %d of %d draws between those of A and T1 leave S as it was", m, idle, tried)
			if missing(1) == "" {
				return
			}
			// anywhere else single draws can be: the start, the end, between the vectors
			own = map[string]int{}
			var at []int
			for p := 0; p < 64*(M+4); p += 16 {
				at = append(at, p)
			}
			for p := max(64*(M+4), len(tape)-1024); p < len(tape); p += 16 {
				at = append(at, p)
			}
			for p := len(tape)/2 - 512; p < len(tape)/2+512; p += 16 {
				at = append(at, p)
			}
			for _, p := range at {
				ok := false
				t.Case(fmt.Sprintf("flow of randomness, %d values, 16 bytes at %d", m, p), func() { ok = look(p, 16) })
				if !ok {
					return
				}
			}
			if e := missing(2); e != "" {
				t.Violate("proof over %d values: %s has no random draw of its own", m, e)
			}
		})
	}
}

func finishFlow(bag map[string][][]uint64) []string {
	var out []string
	for run := 0; run < 8; run++ {
		size := bag[fmt.Sprintf("%d size", run)]
		if len(size) == 0 {
			continue
		}
		M := int(size[0][0])
		// a draw is at least 17 bytes long
		need := 1
		if size[0][1] == 16 {
			need = 2
		}
		var masks []uint64
		for _, l := range bag[fmt.Sprintf("%d mask", run)] {
			masks = append(masks, l...)
		}
		onlyV := make([]int, M)
		a, s, t1, t2, both := 0, 0, 0, 0, 0
		const vBits = 0xffff
		for _, k := range masks {
			v := k & vBits
			A, S, T1, T2 := k>>flowA&1, k>>flowS&1, k>>flowT1&1, k>>flowT2&1
			switch {
			case v != 0:
				if bits.OnesCount64(v) == 1 && A == 0 && S == 0 {
					onlyV[bits.TrailingZeros64(v)]++
				}
			case A == 1 && S == 0:
				a++
			case S == 1 && A == 0:
				s++
			case A == 0 && S == 0 && T1 == 1 && T2 == 0:
				t1++
			case A == 0 && S == 0 && T2 == 1 && T1 == 0:
				t2++
			case A == 0 && S == 0 && T2 == 1 && T1 == 1:
				both++
			}
		}
		for j, n := range onlyV {
			if n < need {
				out = append(out, fmt.Sprintf("commitment %d of %d has no random draw of its own", j, M))
			}
		}
		if a < need {
			out = append(out, "A has no random draw of its own")
		}
		if s < need*(2*64*M+1) {
			out = append(out, fmt.Sprintf("S depends on %d random draws of its own, not on the %d of its vectors and blinding factor", s, 2*64*M+1))
		}
		if t1 < need {
			out = append(out, "T1 has no random draw of its own")
		}
		if t2 < need {
			out = append(out, "T2 has no random draw of its own")
		}
	}
	return out
}

// ---- encodings

// randRP is a well-formed proof, not a valid one.
func (t *T) randRP(m, rounds int) rpf {
	var p rpf
	for i := 0; i < m; i++ {
		p.V = append(p.V, t.EdgePoint())
	}
	p.A, p.S, p.T1, p.T2 = t.EdgePoint(), t.EdgePoint(), t.EdgePoint(), t.EdgePoint()
	p.taux, p.mu, p.t, p.a, p.b = t.EdgeScalar(), t.EdgeScalar(), t.EdgeScalar(), t.EdgeScalar(), t.EdgeScalar()
	for i := 0; i < rounds; i++ {
		p.L, p.R = append(p.L, t.EdgePoint()), append(p.R, t.EdgePoint())
	}
	return p
}

func encRP(p *rangeproof.Proof, with bool) ([]byte, error) {
	var b bytes.Buffer
	err := p.Encode(&b, with)
	return b.Bytes(), err
}

func rpCodec(t *T) {
	for i := 0; i < t.N(8, 60); i++ {
		m := []int{1, 2, 4, 1, 3, 8, 1, 16}[(i+t.Shard)%8]
		o := t.randRP(m, bits.Len(uint(64*m))-1)
		real := i == 0
		if real {
			m = 1
			var ok bool
			if o, ok = rpHonest(t, m, t.Shard%2 == 0); !ok {
				return
			}
		}
		t.Case(fmt.Sprintf("rangeproof codec: %d commitments", m), func() {
			var l rangeproof.Proof
			if err := l.Decode(bytes.NewReader(o.bytes(true)), true); !t.Check(err == nil, "decoding a well-formed proof: %v", err) {
				return
			}
			for _, with := range []bool{true, false} {
				want := o.bytes(with)
				got, err := encRP(&l, with)
				t.Check(err == nil && bytes.Equal(got, want), "encoding (commitments=%v) is not the specified one: %v", with, err)
				for _, chunk := range []int{1, 3, 31, 33, 64, 1 << 20, -1} {
					for _, noEOF := range []bool{true, false} {
						r := &chunkReader{b: append([]byte{}, want...), failAt: -1, noEOF: noEOF, chunk: func() int {
							if chunk < 0 {
								return 1 + t.IntN(40)
							}
							return chunk
						}}
						var dec rangeproof.Proof
						err := dec.Decode(r, with)
						if !t.Check(err == nil, "decoding in chunks of %d (commitments=%v): %v", chunk, with, err) {
							continue
						}
						b2, err := encRP(&dec, with)
						t.Check(err == nil && bytes.Equal(b2, want), "the decoded proof encodes differently (chunks of %d, commitments=%v)", chunk, with)
						t.Check(dec.Equals(l, with) && l.Equals(dec, with), "the decoded proof is not equal (commitments=%v)", with)
						t.Check(dec.Equals(l, false) && l.Equals(dec, false), "the decoded proof is not equal without commitments")
						if with && len(dec.V) == m {
							for j := range dec.V {
								t.Check(sameP(dec.V[j].Value, o.V[j]), "commitment %d decodes to another point", j)
							}
						}
						t.Seen("decode", m, chunk, with, noEOF, want[:40])
					}
				}
				// over an earlier proof
				old := t.randRP(1+t.IntN(4), 6+t.IntN(3))
				ol, err := old.lib()
				if t.Check(err == nil, "%v", err) {
					err = ol.Decode(bytes.NewReader(want), with)
					b2, _ := encRP(&ol, with)
					t.Check(err == nil && bytes.Equal(b2, want), "decoding over another proof gives something else: %v", err)
				}
				if real {
					var dec rangeproof.Proof
					err := dec.Decode(bytes.NewReader(want), with)
					if !with {
						dec.V = l.V
					}
					t.Check(err == nil && t.accepted(dec, "a decoded proof"), "an honest proof is rejected after decoding (commitments=%v): %v", with, err)
				}
				for f := 0; f < len(want); f++ {
					if f > 200 && t.Tier == "quick" && f%5 != t.Shard%5 {
						continue
					}
					w := &failWriter{limit: f, short: f%2 == 0}
					err := l.Encode(w, with)
					t.Check(err != nil, "a write failure after %d of %d bytes is not reported (commitments=%v)", f, len(want), with)
					t.Check(bytes.HasPrefix(want, w.got), "what was written before a failure is no prefix of the encoding")
					r := &chunkReader{b: append([]byte{}, want...), failAt: f, chunk: func() int { return 1 + t.IntN(64) }}
					var dec rangeproof.Proof
					err = dec.Decode(r, with)
					t.Check(err != nil, "a read failure after %d of %d bytes is not reported (commitments=%v)", f, len(want), with)
					// faults after which everything works again
					t.Check(l.Encode(&failWriter{limit: f, short: f%2 == 0, once: true}, with) != nil, "a single write failure after %d of %d bytes is not reported (commitments=%v)", f, len(want), with)
					r = &chunkReader{b: append([]byte{}, want...), failAt: f, once: true, chunk: func() int { return 1 + t.IntN(64) }}
					dec = rangeproof.Proof{}
					t.Check(dec.Decode(r, with) != nil, "a single read failure after %d of %d bytes is not reported (commitments=%v)", f, len(want), with)
					t.Seen("fault", m, f, with)
				}
				w := &failWriter{limit: len(want)}
				t.Check(l.Encode(w, with) == nil && bytes.Equal(w.got, want), "encoding fails although everything could be written")
			}
			// the parts on their own
			var cb bytes.Buffer
			err := pedersen.EncodeCommitments(&cb, l.V)
			t.Check(err == nil && bytes.Equal(cb.Bytes(), o.bytes(true)[:4+32*m]), "commitments encode differently on their own: %v", err)
			tail := bytes.NewReader(append(append([]byte{}, cb.Bytes()...), 9, 9))
			cs, err := pedersen.DecodeCommitments(tail)
			t.Check(err == nil && len(cs) == m && tail.Len() == 2, "commitments do not decode on their own: %v", err)
			for j := range cs {
				t.Check(cs[j].EqualValue(l.V[j]) && sameP(cs[j].Value, o.V[j]), "commitment %d decodes to another", j)
			}
			var ib bytes.Buffer
			err = l.IPProof.Encode(&ib)
			full := o.bytes(false)
			t.Check(err == nil && bytes.Equal(ib.Bytes(), full[32*7:]), "the inner product proof encodes differently on its own: %v", err)
			var ip innerproduct.Proof
			err = ip.Decode(bytes.NewReader(ib.Bytes()))
			t.Check(err == nil && ip.Equals(*l.IPProof), "the inner product proof does not decode on its own: %v", err)
			for f := 0; f < ib.Len(); f++ {
				for _, once := range []bool{false, true} {
					t.Check(l.IPProof.Encode(&failWriter{limit: f, short: f%2 == 0, once: once}) != nil, "inner product proof: a write failure after %d bytes is not reported", f)
					t.Check((&innerproduct.Proof{}).Decode(&chunkReader{b: append([]byte{}, ib.Bytes()...), failAt: f, once: once, chunk: func() int { return 1 + t.IntN(64) }}) != nil, "inner product proof: a read failure after %d bytes is not reported", f)
					if f < cb.Len() {
						t.Check(pedersen.EncodeCommitments(&failWriter{limit: f, short: f%2 == 0, once: once}, l.V) != nil, "commitments: a write failure after %d bytes is not reported", f)
						_, err := pedersen.DecodeCommitments(&chunkReader{b: append([]byte{}, cb.Bytes()...), failAt: f, once: once, chunk: func() int { return 1 + t.IntN(64) }})
						t.Check(err != nil, "commitments: a read failure after %d bytes is not reported", f)
					}
					if f < 32 {
						t.Check(l.V[0].Encode(&failWriter{limit: f, short: f%2 == 0, once: once}) != nil, "commitment: a write failure after %d bytes is not reported", f)
						t.Check((&pedersen.Commitment{}).Decode(&chunkReader{b: append([]byte{}, o.V[0].Bytes()...), failAt: f, once: once, chunk: func() int { return 1 + t.IntN(64) }}) != nil, "commitment: a read failure after %d bytes is not reported", f)
					}
				}
			}
			t.Seen("parts", m, ib.Bytes())
		})
	}
	t.Sample("codec of proofs with 1 to 16 commitments, faults at every byte")
}

func rpHostile(t *T) {
	// tolerant: with an outcome that is not specified, only that nothing breaks
	decode := func(what string, b []byte, with bool, want bool) {
		in := append([]byte{}, b...)
		var err error
		var dec rangeproof.Proof
		var used uint64
		t.NoPanic("Decode of "+what, func() {
			used = allocated(func() { err = dec.Decode(bytes.NewReader(b), with) })
		})
		t.Check((err == nil) == want, "%s (commitments=%v, %d bytes): error %v", what, with, len(b), err)
		t.Check(used <= 65536+64*uint64(len(b)), "%s: %d bytes allocated for %d bytes of input", what, used, len(b))
		t.Check(bytes.Equal(in, b), "Decode changes its input")
		if err == nil {
			e, err2 := encRP(&dec, with)
			t.Check(err2 == nil && bytes.Equal(e, b), "%s: accepted, but encodes to other bytes", what)
		}
		t.Seen(fmt.Sprintf("%v", want), what, with, b)
	}
	for i := 0; i < t.N(5, 40); i++ {
		m := []int{1, 2, 1, 4, 1}[i%5]
		rounds := bits.Len(uint(64*m)) - 1
		o := t.randRP(m, rounds)
		with := i%2 == 0
		b := o.bytes(with)
		off := 0
		if with {
			off = 4 + 32*m
		}
		t.Case(fmt.Sprintf("hostile bytes around a proof with %d commitments", m), func() {
			decode("valid", b, with, true)
			head := off + 32*9
			for f := 0; f < len(b); f++ {
				// a whole number of rounds less is another proof, which does not verify
				decode("truncation", b[:f], with, f >= head && (f-head)%64 == 0)
			}
			for f := 1; f <= 64; f++ {
				ext := append(append([]byte{}, b...), t.Bytes(f)...)
				if f < 64 {
					decode("extension", ext, with, false)
				}
			}
			bad := t.badPoints()
			pts := []int{}
			for e := 0; with && e < m; e++ {
				pts = append(pts, 4+32*e)
			}
			for e := 0; e < 4; e++ {
				pts = append(pts, off+32*e)
			}
			for e := 0; e < 2*rounds; e++ {
				pts = append(pts, head+32*e)
			}
			for k, pos := range pts {
				for j := 0; j < 3; j++ {
					c := append([]byte{}, b...)
					copy(c[pos:], bad[(k*3+j+i)%len(bad)])
					decode(fmt.Sprintf("bad point at byte %d", pos), c, with, false)
				}
			}
			for _, x := range bad {
				c := append([]byte{}, b...)
				copy(c[pts[t.IntN(len(pts))]:], x)
				decode("bad point", c, with, false)
			}
			bs := t.badScalars()
			for e := 4; e < 9; e++ {
				for j := range bs {
					c := append([]byte{}, b...)
					copy(c[off+32*e:], bs[j])
					decode(fmt.Sprintf("unreduced scalar %d", e-4), c, with, false)
				}
			}
			if with {
				for _, v := range []uint32{uint32(m) + 100, 1 << 10, 1 << 16, 1 << 24, 1 << 26, 1 << 31, 1<<32 - 1} {
					c := append([]byte{}, b...)
					binary.BigEndian.PutUint32(c, v)
					decode(fmt.Sprintf("%d commitments announced", v), c, with, false)
				}
				// just a count
				for _, v := range []uint32{1, 1 << 20, 1 << 26, 1<<32 - 1} {
					decode("a count only", binary.BigEndian.AppendUint32(nil, v), true, false)
				}
			}
			// the inner product proof on its own
			ib := b[off+32*7:]
			for f := 0; f < len(ib); f++ {
				var ip innerproduct.Proof
				var err error
				t.NoPanic("inner product Decode", func() { err = ip.Decode(bytes.NewReader(ib[:f])) })
				t.Check((err == nil) == (f >= 64 && (f-64)%64 == 0), "an inner product proof truncated to %d bytes: %v", f, err)
			}
			// commitments on their own
			cb := o.bytes(true)[:4+32*m]
			for f := 0; f < len(cb); f++ {
				var err error
				t.NoPanic("DecodeCommitments", func() { _, err = pedersen.DecodeCommitments(bytes.NewReader(cb[:f])) })
				t.Check(err != nil, "commitments truncated to %d of %d bytes are accepted", f, len(cb))
			}
			for _, x := range bad {
				c := append([]byte{}, cb...)
				copy(c[4+32*t.IntN(m):], x)
				_, err := pedersen.DecodeCommitments(bytes.NewReader(c))
				t.Check(err != nil, "a bad point among commitments is accepted")
				var com pedersen.Commitment
				t.Check(com.Decode(bytes.NewReader(x)) != nil, "a bad point is accepted as a commitment")
			}
			for _, v := range []uint32{uint32(m) + 1, 1 << 24, 1<<32 - 1} {
				c := append([]byte{}, cb...)
				binary.BigEndian.PutUint32(c, v)
				var err error
				used := allocated(func() { _, err = pedersen.DecodeCommitments(bytes.NewReader(c)) })
				t.Check(err != nil && used < 65536+64*uint64(len(c)), "%d commitments announced: error %v, %d bytes allocated", v, err, used)
			}
			t.Seen("parts", m, b)
		})
	}
	t.Case("a truncated real proof does not verify", func() {
		o, ok := rpHonest(t, 1, true)
		if !ok {
			return
		}
		b := o.bytes(true)
		for f := len(b) - 64; f >= 4+32*10; f -= 64 {
			var p rangeproof.Proof
			if err := p.Decode(bytes.NewReader(b[:f]), true); err == nil {
				t.Check(!t.accepted(p, "a truncated proof"), "a proof without its last %d bytes is accepted", len(b)-f)
			}
			t.Seen("truncated", f)
		}
		// the extension by a round
		for k := 0; k < 3; k++ {
			x := t.RandPoint()
			var p rangeproof.Proof
			if err := p.Decode(bytes.NewReader(append(append(append([]byte{}, b...), x.Bytes()...), x.Bytes()...)), true); err == nil {
				t.Check(!t.accepted(p, "an extended proof"), "a proof with a round more is accepted")
			}
		}
	})
	t.Case("random bytes", func() {
		for i := 0; i < t.N(200, 4000); i++ {
			b := t.Bytes(t.IntN(700))
			with := i%2 == 0
			if with && len(b) > 4 {
				copy(b, []byte{0, 0, 0, byte(t.IntN(3))})
			}
			var p rangeproof.Proof
			var err error
			t.NoPanic("Decode of random bytes", func() { err = p.Decode(bytes.NewReader(b), with) })
			if err == nil {
				t.NoPanic("Verify", func() { _, _ = rangeproof.Verify(p) })
			}
			t.Seen("random", b)
		}
	})
	t.Case("nil receivers", func() {
		var p *rangeproof.Proof
		var ip *innerproduct.Proof
		var c *pedersen.Commitment
		for what, f := range map[string]func() error{
			"proof":         func() error { return p.Decode(bytes.NewReader(make([]byte, 800)), true) },
			"inner product": func() error { return ip.Decode(bytes.NewReader(make([]byte, 800))) },
			"commitment":    func() error { return c.Decode(bytes.NewReader(make([]byte, 800))) },
		} {
			var err error
			t.NoPanic("Decode into nil "+what, func() { err = f() })
			t.Check(err != nil, "decoding into a nil %s succeeds", what)
			t.Seen("nil", what)
		}
	})
	t.Sample("truncation at every byte, bad points and scalars at every place, counts up to 2^32-1")
}

func rpEquals(t *T) {
	for i := 0; i < t.N(10, 80); i++ {
		m, rounds := 1+t.IntN(4), 1+t.IntN(8)
		if i%5 == 1 {
			m, rounds = []int{16, 8, 17, 9}[t.IntN(4)], []int{10, 9, 11, 17, 33}[t.IntN(5)]
		}
		o := t.randRP(m, rounds)
		t.Case(fmt.Sprintf("equality of proofs with %d commitments and %d rounds", m, rounds), func() {
			get := func(p rpf) rangeproof.Proof {
				q, err := p.lib()
				if err != nil {
					t.Violate("%v", err)
				}
				return q
			}
			a := get(o)
			cmp := func(what string, p rpf, withV, noV bool) {
				b := get(p)
				for _, pair := range [][2]rangeproof.Proof{{a, b}, {b, a}} {
					var g1, g2 bool
					t.NoPanic("Equals", func() { g1, g2 = pair[0].Equals(pair[1], true), pair[0].Equals(pair[1], false) })
					t.Check(g1 == withV, "%s: equality with commitments is %v", what, g1)
					t.Check(g2 == noV, "%s: equality without commitments is %v", what, g2)
				}
				t.Seen("pair", what, m, rounds, o.t.Bytes())
			}
			cmp("the same", o.clone(), true, true)
			names, _ := o.points()
			for e := range names {
				c := o.clone()
				_, ptrs := c.points()
				*ptrs[e] = add(*ptrs[e], t.RandPoint())
				isV := strings.HasPrefix(names[e], "V")
				cmp(names[e]+" differs", c, false, isV)
			}
			snames, _ := o.scals()
			for e := range snames {
				c := o.clone()
				_, ptrs := c.scals()
				*ptrs[e] = sAdd(*ptrs[e], t.NonZeroScalar())
				cmp(snames[e]+" differs", c, false, false)
			}
			c := o.clone()
			c.L, c.R = c.L[:rounds-1], c.R[:rounds-1]
			cmp("a round less", c, false, false)
			c = o.clone()
			c.V = c.V[:m-1]
			cmp("a commitment less", c, false, true)
			c = o.clone()
			c.V = append(c.V, t.RandPoint())
			cmp("a commitment more", c, false, true)
			if m > 1 && !sameP(o.V[0], o.V[1]) {
				c = o.clone()
				c.V[0], c.V[1] = c.V[1], c.V[0]
				cmp("commitments swapped", c, false, true)
			}
			if rounds > 1 && !sameP(o.L[0], o.L[1]) {
				c = o.clone()
				c.L[0], c.L[1] = c.L[1], c.L[0]
				cmp("rounds swapped", c, false, false)
			}
			// commitments
			x, y := pedersen.Commitment{Value: t.RandPoint(), BlindingFactor: t.RandScalar()}, pedersen.Commitment{}
			y = x
			t.Check(x.Equals(y) && x.EqualValue(y), "equal commitments are different")
			y.BlindingFactor = sAdd(y.BlindingFactor, scInt(1))
			t.Check(!x.Equals(y) && x.EqualValue(y), "commitments with different blinding factors: Equals %v EqualValue %v", x.Equals(y), x.EqualValue(y))
			y = x
			y.Value = t.RandPoint()
			t.Check(!x.Equals(y) && !x.EqualValue(y), "commitments with different points are equal")
			for _, b := range []sc{scInt(0), scInt(1), t.EdgeScalar()} {
				y = x
				y.BlindingFactor = b
				if !sameS(b, x.BlindingFactor) {
					t.Check(!x.Equals(y) && !y.Equals(x) && x.EqualValue(y) && y.EqualValue(x), "commitments with blinding factors %x and %x: Equals %v %v", bigSc(x.BlindingFactor), bigSc(b), x.Equals(y), y.Equals(x))
				}
			}
			for _, v := range []pt{mulBase(scInt(0)), mulBase(scInt(1)), sub(mulBase(scInt(0)), x.Value)} {
				y = x
				y.Value = v
				t.Check(!x.Equals(y) && !y.Equals(x) && !x.EqualValue(y) && !y.EqualValue(x), "commitments with different points are equal")
			}
			// absent parts
			p := a
			p.IPProof = nil
			var e1, e2, e3 bool
			t.NoPanic("Equals with absent parts", func() { e1, e2, e3 = p.Equals(a, false), a.Equals(p, false), p.Equals(p, false) })
			t.Check(!e1 && !e2 && e3, "equality with an absent inner product proof: %v %v %v", e1, e2, e3)
		})
	}
	t.Sample("one difference at a time")
}

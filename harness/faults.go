package main

import (
	"bytes"
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

// The system's random source delivering its bytes in pieces, and failing. A source
// that fails may end the process (crypto/rand does that), so failures are tried in
// processes of their own, and dying is one of the accepted outcomes.

func init() {
	unit("ring.faults", "signatures of both schemes while the system's random source delivers few bytes at a time, or fails once or for good at every draw; secrets recovered from whatever is signed; distinct = (scheme, fault, nonce)", 4, 16, ringFaults)
	unit("ring.faultreuse", "provers whose attempt failed because of the random source, used again; distinct = (fault, proof)", 4, 16, ringFaultReuse)
	unit("ped.faults", "commitments and proofs while the system's random source delivers few bytes at a time or fails; distinct = blinding factor", 4, 16, pedFaults)
	unit("hash.faults", "entropy while the system's random source delivers few bytes at a time or fails; distinct = (length, pieces)", 2, 8, hashFaults)
	unit("bls.faults", "key pairs while the system's random source delivers few bytes at a time or fails; distinct = key", 2, 8, blsFaults)
	more = append(more, [2]string{"C11", "ring.faults"}, [2]string{"C13", "ring.faultreuse"}, [2]string{"C17", "ped.faults"}, [2]string{"C26", "hash.faults"}, [2]string{"C01", "bls.faults"})
	helpers["fault"] = faultHelper
}

// pieces delivers at most n() bytes at a time.
type pieces struct {
	r io.Reader
	n func() int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	n := p.n()
	if n > len(b) {
		n = len(b)
	}
	return p.r.Read(b[:n])
}

// inPieces runs f under sources of several piece sizes.
func (t *T) inPieces(f func(what string)) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	for _, n := range []int{1, 2, 7, 16, 31, 32, 33, 63, 0} {
		k := n
		what := fmt.Sprintf("pieces of %d bytes", n)
		if n == 0 {
			what = "pieces of 1 to 40 bytes"
		}
		crand.Reader = &pieces{r: saved, n: func() int {
			if n == 0 {
				k = 1 + (k*7+5)%40
			}
			return k
		}}
		f(what)
	}
}

var tooSmall = new(big.Int).Lsh(big.NewInt(1), 190)

// fullRange says whether a random scalar is of the expected size: a uniform one fails with probability 2^-61.
func fullRange(s sc) bool {
	v := bigSc(s)
	w := new(big.Int).Sub(groupL, v)
	return v.Cmp(tooSmall) > 0 && w.Cmp(tooSmall) > 0
}

func ringFaults(t *T) {
	for _, scheme := range []string{"blsag", "mlsag"} {
		seen := map[sc]bool{}
		for i := 0; i < t.N(3, 20); i++ {
			n := []int{0, 1, 4, 7}[(i+t.Shard)%4]
			ring := t.dualRing(n)
			xs := []sc{t.RandScalar(), t.RandScalar()}
			t.Case(fmt.Sprintf("%s, %d decoys, source in pieces", scheme, n), func() {
				d := newDRBG("ring pieces", t.seed, t.Shard, i, scheme)
				saved := crand.Reader
				crand.Reader = d
				defer func() { crand.Reader = saved }()
				t.inPieces(func(what string) {
					reps := 3
					if what == "pieces of 1 bytes" && n <= 1 {
						reps = 150 // enough for secrets drawn from one byte to repeat
					}
					for k := 0; k < reps; k++ {
						before := d.count()
						run, ok := observe(t, scheme, t.Msg(), ring, xs, nil)
						if !ok {
							return
						}
						drawn, secret := d.count()-before, len(run.nonces)+len(run.decoy)
						t.Check(drawn >= int64(32*secret), "%s, %s: %d bytes drawn for %d secret scalars", scheme, what, drawn, secret)
						for _, s := range append(append(append([]sc{}, run.nonces...), run.decoy...), run.real...) {
							t.Check(fullRange(s), "%s, %s: a nonce or response is %x", scheme, what, bigSc(s))
							t.Check(!seen[s], "%s, %s: a nonce or response repeats", scheme, what)
							seen[s] = true
							t.Seen("in pieces", scheme, what, s.Bytes())
						}
					}
				})
			})
		}
	}
	for i := 0; i < t.N(10, 60); i++ {
		scheme := []string{"blsag", "mlsag"}[i%2]
		kind := []string{"small", "large", "all"}[(i/2)%3]
		mode := []string{"always", "once", "every2"}[(i/6+i+t.Shard)%3]
		at := t.IntN(4)
		if i%3 == 0 {
			at = 0
		}
		t.Case(fmt.Sprintf("%s, %s draws fail %s from %d on", scheme, kind, mode, at), func() {
			lines := runFault(scheme, kind, mode, strconv.Itoa(at), strconv.FormatUint(t.Uint64(), 10))
			signed := 0
			pos := map[string]int{}
			for _, l := range lines {
				switch w := strings.Fields(l); {
				case len(w) == 2 && w[0] == "pos":
					signed++
					pos[w[1]]++
				case len(w) > 1 && w[0] == "bad":
					t.Violate("%s with a random source whose %s draws fail (%s from %d on): %s", scheme, kind, mode, at, strings.Join(w[1:], " "))
				}
			}
			// 8 members, so that as many equal positions happen by chance once in 8^11 times
			t.Check(signed < 12 || len(pos) > 1, "%s with a random source whose %s draws fail (%s from %d on): all %d signatures have the signer at the same position", scheme, kind, mode, at, signed)
			t.Seen("failing", scheme, kind, mode, at, signed)
		})
	}
	t.Sample("sources in pieces of 1 to 63 bytes; failing sources in processes of their own")
}

// failing fails at chosen reads.
type failing struct {
	r    io.Reader
	kind string
	mode string
	at   int
	n    int
}

var errSource = errors.New("the random source failed")

func (f *failing) Read(b []byte) (int, error) {
	if f.kind == "small" && len(b) > 8 || f.kind == "large" && len(b) <= 8 {
		return f.r.Read(b)
	}
	n := f.n
	f.n++
	if n >= f.at && (f.mode == "always" || n == f.at || f.mode == "every2" && (n-f.at)%2 == 0) {
		return 0, errSource
	}
	return f.r.Read(b)
}

// runFault runs the helper; what it printed before it died, if it did, is returned.
func runFault(args ...string) []string {
	self, _ := os.Executable()
	cmd := exec.Command(self, append([]string{"-helper", "fault"}, args...)...)
	waiting.Add(1)
	out, _ := cmd.Output()
	waiting.Add(-1)
	return strings.Split(strings.TrimSpace(string(out)), "\n")
}

// faultHelper: what kind mode at seed
func faultHelper(a []string) {
	seed, _ := strconv.ParseUint(a[4], 10, 64)
	at, _ := strconv.Atoi(a[3])
	t := &T{Rand: rand0("fault", seed), Tier: "quick", unit: "fault", distinct: map[uint64]struct{}{}, events: map[string]int64{}, known: map[string]string{}}
	good := newDRBG("fault", seed)
	crand.Reader = good
	bad := &failing{r: good, kind: a[1], mode: a[2], at: at}
	seen := map[string]bool{}
	fresh := func(what string, s sc) {
		if !fullRange(s) {
			fmt.Printf("bad a %s is %x\n", what, bigSc(s))
		} else if seen[string(s.Bytes())] {
			fmt.Printf("bad a %s repeats\n", what)
		}
		seen[string(s.Bytes())] = true
	}
	try := func(f func()) {
		defer func() {
			crand.Reader = good
			if recover() != nil {
				fmt.Println("panic")
			}
		}()
		f()
	}
	switch a[0] {
	case "blsag", "mlsag":
		ring := t.dualRing(7)
		xs := []sc{t.RandScalar(), t.RandScalar()}
		for i := 0; i < 24; i++ {
			try(func() {
				t.violations = nil
				msg := t.Bytes(20)
				crand.Reader = bad
				run, ok := observe(t, a[0], msg, ring, xs, nil)
				crand.Reader = good
				if !ok || len(t.violations) > 0 {
					fmt.Println("refused")
					return
				}
				for _, s := range run.nonces {
					fresh("nonce", s)
				}
				for _, s := range run.decoy {
					fresh("response of a decoy", s)
				}
				fmt.Println("pos", run.pos)
			})
		}
	case "reuse":
		ring := t.dualRing(5)
		x, y := t.RandScalar(), t.RandScalar()
		d := mlsag.NewDualKey()
		for _, r := range ring {
			d.AddDecoy(libPubKeys(r))
		}
		want := append(append([][]pt{}, ring...), []pt{mulBase(x), mulBase(y)})
		for i := 0; i < 12; i++ {
			try(func() {
				d.SetPrimaryKey(x)
				d.SetCommToZero(y)
				msg := t.Bytes(20)
				d.SetMsg(msg)
				if i%2 == 0 {
					bad.n = 0
					crand.Reader = bad
				}
				sig, im, err := d.Prove()
				crand.Reader = good
				if err != nil {
					fmt.Println("refused")
					if i%2 == 1 {
						fmt.Println("bad a prover whose attempt failed fails for good:", err)
					}
					return
				}
				r, err := fromMlsag(sig)
				if err != nil {
					fmt.Println("bad the signature does not encode:", err)
					return
				}
				if !sameRing(r.keys, want) {
					fmt.Printf("bad proof %d: the ring has %d members, the decoys and the prover's pair are %d (or others)\n", i, len(r.keys), len(want))
				}
				if ok, err := sig.Verify([]pt{im}); !ok || err != nil {
					fmt.Printf("bad proof %d does not verify: %v\n", i, err)
				}
				if !refRingVerify(r, []pt{im}, variant{}) {
					fmt.Printf("bad proof %d does not satisfy the scheme's equations\n", i)
				}
				fmt.Println("signed", i)
			})
		}
	case "scalar", "vector":
		ped := pedersen.New([]byte("faults"))
		ped.BaseVector.Compute(3)
		for i := 0; i < 8; i++ {
			try(func() {
				crand.Reader = bad
				var c pedersen.Commitment
				if a[0] == "scalar" {
					c = ped.CommitToScalar(scInt(5))
				} else {
					c = ped.CommitToVectors([]sc{scInt(1), scInt(2)}, []sc{scInt(3)})
				}
				crand.Reader = good
				fresh("blinding factor", c.BlindingFactor)
				fmt.Println("committed")
			})
		}
	case "prove":
		var prev *rpf
		for i := 0; i < 2; i++ {
			try(func() {
				crand.Reader = bad
				p, err := rangeproof.Prove([]sc{scInt(5)}, false)
				crand.Reader = good
				if err != nil {
					fmt.Println("refused")
					return
				}
				for _, v := range p.V {
					fresh("blinding factor", v.BlindingFactor)
				}
				o, err := fromRP(&p)
				if err != nil {
					fmt.Println("bad the proof does not encode:", err)
					return
				}
				for _, s := range []sc{o.taux, o.mu, o.t} {
					fresh("blinded scalar", s)
				}
				if prev != nil {
					_, xs := o.points()
					n, ys := prev.points()
					for k := range xs {
						if sameP(*xs[k], *ys[k]) {
							fmt.Printf("bad %s is the same in two proofs\n", n[k])
						}
					}
				}
				prev = &o
				fmt.Println("proved")
			})
		}
	case "entropy":
		for i := 0; i < 8; i++ {
			try(func() {
				n := []uint32{1, 8, 9, 16, 24, 32, 33, 100}[i]
				bad.n = 0
				crand.Reader = bad
				b, err := hash.RandEntropy(n)
				crand.Reader = good
				if err != nil {
					fmt.Println("refused")
					return
				}
				fmt.Println("entropy", n, len(b))
			})
		}
	case "keygen":
		for i := 0; i < 8; i++ {
			try(func() {
				crand.Reader = bad
				pk, sk, err := bls.GenKeyPair(nil)
				crand.Reader = good
				if err != nil {
					fmt.Println("refused")
					return
				}
				if pk == nil || sk == nil {
					fmt.Println("bad no keys and no error")
					return
				}
				k := string(pk.Marshal())
				if seen[k] {
					fmt.Println("bad a key repeats")
				}
				seen[k] = true
				fmt.Println("key")
			})
		}
	}
	fmt.Println("end")
}

func (t *T) faultLines(what string, lines []string) (got map[string]int) {
	got = map[string]int{}
	for _, l := range lines {
		w := strings.Fields(l)
		if len(w) == 0 {
			continue
		}
		got[w[0]]++
		if w[0] == "bad" {
			t.Violate("%s: %s", what, strings.Join(w[1:], " "))
		}
	}
	return
}

func ringFaultReuse(t *T) {
	for i := 0; i < t.N(10, 60); i++ {
		kind := []string{"small", "small", "large"}[i%3]
		mode := []string{"once", "always"}[(i/3)%2]
		at := (i + t.Shard) % 6
		what := fmt.Sprintf("a prover whose random source fails (%s draws, %s from %d on) in every other attempt", kind, mode, at)
		t.Case(what, func() {
			got := t.faultLines(what, runFault("reuse", kind, mode, strconv.Itoa(at), strconv.FormatUint(t.Uint64(), 10)))
			t.Seen("reuse", kind, mode, at, got["signed"], got["refused"])
		})
	}
	t.Sample("attempts failing at the 0th to 5th draw, alternating with working ones")
}

func pedFaults(t *T) {
	seen := map[sc]bool{}
	for i := 0; i < t.N(2, 10); i++ {
		t.Case("commitments, source in pieces", func() {
			ped := pedersen.New([]byte("pieces"))
			ped.BaseVector.Compute(3)
			d := newDRBG("ped pieces", t.seed, t.Shard, i)
			saved := crand.Reader
			crand.Reader = d
			defer func() { crand.Reader = saved }()
			t.inPieces(func(what string) {
				reps := 6
				if what == "pieces of 1 bytes" {
					reps = 150
				}
				for k := 0; k < reps; k++ {
					before := d.count()
					_ = ped.CommitToScalar(scInt(1))
					t.Check(d.count()-before >= 32, "%s: %d bytes drawn for a blinding factor", what, d.count()-before)
					before = d.count()
					_ = ped.CommitToVectors([]sc{scInt(1)})
					t.Check(d.count()-before >= 32, "%s: %d bytes drawn for a blinding factor", what, d.count()-before)
					for _, c := range []pedersen.Commitment{ped.CommitToScalar(scInt(5)), ped.CommitToVectors([]sc{scInt(1), scInt(2)}, []sc{scInt(3)}), pedersen.New(t.Bytes(3)).CommitToScalar(t.RandScalar())} {
						t.Check(fullRange(c.BlindingFactor), "%s: the blinding factor is %x", what, bigSc(c.BlindingFactor))
						t.Check(!seen[c.BlindingFactor], "%s: a blinding factor repeats", what)
						seen[c.BlindingFactor] = true
						t.Seen("in pieces", what, c.BlindingFactor.Bytes())
					}
				}
			})
		})
		t.Case("proofs, source in pieces", func() {
			v := scalars(t.values(1))
			var prev *rpf
			d := newDRBG("rp pieces", t.seed, t.Shard, i)
			saved := crand.Reader
			crand.Reader = d
			defer func() { crand.Reader = saved }()
			t.inPieces(func(what string) {
				before := d.count()
				p, err := rangeproof.Prove(v, i%2 == 1)
				t.Check(d.count()-before >= 32*(1+4+2*64), "%s: %d bytes drawn for a proof of one value", what, d.count()-before)
				if !t.Check(err == nil, "%s: %v", what, err) {
					return
				}
				o, err := fromRP(&p)
				if !t.Check(err == nil, "%s: %v", what, err) {
					return
				}
				for _, c := range p.V {
					t.Check(fullRange(c.BlindingFactor) && !seen[c.BlindingFactor], "%s: a blinding factor repeats or is small: %x", what, bigSc(c.BlindingFactor))
					seen[c.BlindingFactor] = true
				}
				if prev != nil {
					_, xs := o.points()
					n, ys := prev.points()
					for k := range xs {
						t.Check(!sameP(*xs[k], *ys[k]), "%s: %s is the same in two proofs of one value", what, n[k])
					}
				}
				prev = &o
				t.Seen("proof in pieces", what, o.mu.Bytes())
			})
		})
	}
	for i := 0; i < t.N(8, 60); i++ {
		op := []string{"scalar", "vector", "prove"}[(i+t.Shard)%3]
		mode := []string{"always", "once", "every2"}[(i/3)%3]
		at := t.IntN(4)
		if op == "prove" && i%2 == 0 {
			at = t.IntN(140)
		}
		what := fmt.Sprintf("%s with a random source failing %s from draw %d on", op, mode, at)
		t.Case(what, func() {
			got := t.faultLines(what, runFault(op, "all", mode, strconv.Itoa(at), strconv.FormatUint(t.Uint64(), 10)))
			t.Seen("failing", op, mode, at, len(got))
		})
	}
	t.Sample("blinding factors under sources in pieces and under failing sources")
}

func hashFaults(t *T) {
	saved := crand.Reader
	defer func() { crand.Reader = saved }()
	for n := 0; n < t.N(150, 600); n++ {
		t.Case(fmt.Sprintf("%d bytes of entropy, source in pieces", n), func() {
			src := newDRBG("entropy pieces", t.Shard, t.seed, n)
			src.tape = &bytes.Buffer{}
			crand.Reader = src
			t.inPieces(func(what string) {
				src.tape.Reset()
				got, err := hash.RandEntropy(uint32(n))
				if err != nil { // a reported short read is no wrong entropy
					t.Seen("refused", what, n)
					return
				}
				if !t.Check(len(got) == n, "%s: %d bytes of entropy were asked for, the result is %d bytes, %v", what, n, len(got), err) {
					return
				}
				t.Check(bytes.Contains(src.tape.Bytes(), got), "%s: %d bytes of entropy do not come whole from the system's source", what, n)
				t.Seen("in pieces", what, n)
			})
			crand.Reader = saved
		})
	}
	for i := 0; i < t.N(4, 20); i++ {
		at := 0
		mode := []string{"always", "once"}[i%2]
		what := fmt.Sprintf("entropy from a source failing %s from draw %d on", mode, at)
		t.Case(what, func() {
			got := t.faultLines(what, runFault("entropy", "all", mode, strconv.Itoa(at), strconv.FormatUint(t.Uint64(), 10)))
			t.Check(got["entropy"] == 0, "%s: %d requests succeeded", what, got["entropy"])
			t.Seen("failing", mode, at, i)
		})
	}
	t.Sample("0 to 150 bytes in pieces of 1 to 63")
}

func blsFaults(t *T) {
	seen := map[string]bool{}
	for i := 0; i < t.N(4, 20); i++ {
		t.Case("key pairs, source in pieces", func() {
			t.inPieces(func(what string) {
				pk, sk, err := bls.GenKeyPair(nil)
				if !t.Check(err == nil && pk != nil && sk != nil, "%s: %v", what, err) {
					return
				}
				k := string(pk.Marshal())
				t.Check(!seen[k], "%s: a key repeats", what)
				seen[k] = true
				s, err := bls.UnsafeSign(sk, []byte(what))
				t.Check(err == nil && bls.VerifyUnsafe(pk, []byte(what), s) == nil, "%s: the pair does not sign and verify", what)
				t.Seen("in pieces", k)
			})
		})
	}
	for i := 0; i < t.N(6, 30); i++ {
		mode := []string{"always", "once", "every2"}[i%3]
		what := fmt.Sprintf("keys from the system's source failing %s", mode)
		t.Case(what, func() {
			got := t.faultLines(what, runFault("keygen", "all", mode, "0", strconv.FormatUint(t.Uint64(), 10)))
			if mode == "always" {
				t.Check(got["key"] == 0, "%s: %d keys were made", what, got["key"])
			}
			t.Seen("failing", mode, i)
		})
	}
	t.Sample("key pairs under sources in pieces and failing")
}

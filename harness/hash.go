package main

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"strings"
	"sync"

	"github.com/dusk-network/dusk-crypto/hash"
)

func init() {
	props["C26"] = []string{"hash.digest", "hash.generic", "hash.checksum", "hash.entropy"}
	unit("hash.digest", "every input length 0..700 and larger ones, special and random contents, slices with spare capacity; each digest compared with an independent implementation; distinct = (function, input)", 8, 32, hashDigest)
	unit("hash.generic", "recording, failing, short-writing and partly written hash states handed to the generic form; distinct = (state, input)", 2, 8, hashGeneric)
	unit("hash.checksum", "checksums of generated inputs compared with the independent 64-bit hash; comparison against the right one, its neighbours, all single-bit changes and other byte orders; distinct = (input, candidate)", 4, 16, hashChecksum)
	unit("hash.entropy", "every size 0..600 and large ones under a recorded random source, also from many goroutines; distinct = (returned bytes)", 2, 8, hashEntropy)
}

type digestFn struct {
	name string
	f    func([]byte) ([]byte, error)
	ref  func([]byte) []byte
}

var digestFns = []digestFn{
	{"Sha3256", hash.Sha3256, func(b []byte) []byte { s := sha3.Sum256(b); return s[:] }},
	{"Sha3512", hash.Sha3512, func(b []byte) []byte { s := sha3.Sum512(b); return s[:] }},
	{"Blake2b256", hash.Blake2b256, func(b []byte) []byte { return refBlake2b(32, b) }},
	{"Blake2b512", hash.Blake2b512, func(b []byte) []byte { return refBlake2b(64, b) }},
	{"Xxhash", hash.Xxhash, func(b []byte) []byte {
		r := make([]byte, 8)
		binary.BigEndian.PutUint64(r, refXXH64(b))
		return r
	}},
}

// lengths are shared out over the shards: every length to 700, block boundaries
// of all functions and a few large ones.
func (t *T) lengths() []int {
	var ls []int
	for n := 0; n <= t.N(700, 3000); n++ {
		ls = append(ls, n)
	}
	for _, b := range []int{64, 72, 128, 136, 32, 1000, 4096, 8192, 65536, 1 << 20} {
		for k := -1; k <= 1; k++ {
			ls = append(ls, b*8+k, b*3+k)
		}
	}
	ls = append(ls, 1<<24+1, 10000000, 1<<24-7)
	var out []int
	for i, n := range ls {
		if i%t.Shards == t.Shard {
			out = append(out, n)
		}
	}
	return out
}

func (t *T) content(n, kind int) []byte {
	switch kind {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	case 2:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		return b
	}
	return t.Bytes(n)
}

func hashDigest(t *T) {
	for _, n := range t.lengths() {
		t.Case(fmt.Sprintf("digests of %d bytes", n), func() {
			kinds := 6
			if n > 5000 {
				kinds = 4
			}
			if n > 1<<23+1 {
				kinds = 1
			}
			for kind := 2; kind < kinds+2; kind++ {
				in := t.content(n, kind%8-2)
				c, b := newCanary(t, in)
				var kept, keptWant [][]byte
				for _, d := range digestFns {
					want := d.ref(in)
					got, err := d.f(b)
					t.Check(err == nil && bytes.Equal(got, want), "%s of %d bytes (%s) gives %x, %v, and not %x", d.name, n, hx(in), got, err, want)
					e := c.intact()
					t.Check(e == nil, "%s of %d bytes: %v", d.name, n, e)
					kept, keptWant = append(kept, got), append(keptWant, want)
					// another digest of the same input, the first one used as scratch
					again, err := d.f(b)
					for j := range again {
						again[j] ^= 0xa5
					}
					_ = append(again[:len(again):cap(again)], 1, 2, 3)
					t.Check(err == nil && bytes.Equal(got, want), "%s: changing one result changes another", d.name)
					t.Seen(d.name, want)
				}
				for j := range b { // the caller goes on using its slice
					b[j] ^= 0x5a
				}
				for j := range kept {
					t.Check(bytes.Equal(kept[j], keptWant[j]), "%s: a digest changed later", digestFns[j].name)
				}
			}
			if n == 0 {
				for _, d := range digestFns {
					got, err := d.f(nil)
					t.Check(err == nil && bytes.Equal(got, d.ref(nil)), "%s of nil gives %x, %v", d.name, got, err)
				}
			}
		})
	}
	// from several goroutines
	t.Case("digests in parallel", func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			in := t.Bytes(300 + g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 100; k++ {
					d := digestFns[k%len(digestFns)]
					got, err := d.f(in)
					if err != nil || !bytes.Equal(got, d.ref(in)) {
						t.mu.Lock()
						t.violations = append(t.violations, Violation{t.unit, t.Shard, "digests in parallel", d.name + " is wrong when run in parallel"})
						t.mu.Unlock()
						return
					}
				}
			}()
		}
		wg.Wait()
		t.Seen("parallel", t.Shard)
	})
	t.Sample("lengths %v…", t.lengths()[:4])
}

// recHash is a hash state that records what is done with it.
type recHash struct {
	got    []byte
	sums   int
	resets int
	fail   error
	n      int
}

func (r *recHash) Write(p []byte) (int, error) {
	if r.fail != nil {
		return r.n, r.fail
	}
	r.got = append(r.got, p...)
	return len(p), nil
}
func (r *recHash) Sum(b []byte) []byte {
	r.sums++
	s := sha256.Sum256(r.got)
	return append(b, s[:20]...)
}
func (r *recHash) Reset()         { r.resets++; r.got = nil }
func (r *recHash) Size() int      { return 20 }
func (r *recHash) BlockSize() int { return 7 }

func hashGeneric(t *T) {
	for i := 0; i < t.N(300, 3000); i++ {
		in := t.Msg()
		t.Case(fmt.Sprintf("generic form, %d bytes", len(in)), func() {
			c, b := newCanary(t, in)
			// an own state
			r := &recHash{}
			pre := []byte{}
			if t.IntN(2) == 0 {
				pre = t.Bytes(t.IntN(50))
				_, _ = r.Write(pre)
			}
			got, err := hash.PerformHash(r, b)
			s := sha256.Sum256(append(append([]byte{}, pre...), in...))
			t.Check(err == nil && bytes.Equal(got, s[:20]), "the generic form with a given state gives %x, %v, and not %x", got, err, s[:20])
			e := c.intact()
			t.Check(e == nil, "%v", e)
			t.Seen("state", pre, in)
			// standard states, used before
			for k, h := range []hash.Hash{sha256.New(), sha512.New(), sha3.New384(), fnv.New128a()} {
				h.Write(pre)
				got, err := hash.PerformHash(h, b)
				var want []byte
				all := append(append([]byte{}, pre...), in...)
				switch k {
				case 0:
					x := sha256.Sum256(all)
					want = x[:]
				case 1:
					x := sha512.Sum512(all)
					want = x[:]
				case 2:
					x := sha3.Sum384(all)
					want = x[:]
				case 3:
					f := fnv.New128a()
					f.Write(all)
					want = f.Sum(nil)
				}
				t.Check(err == nil && bytes.Equal(got, want), "the generic form with standard state %d gives %x, %v, and not %x", k, got, err, want)
				t.Seen("standard", k, all)
			}
			// a failing state
			for _, n := range []int{0, len(in), len(in) / 2} {
				got, err := hash.PerformHash(&recHash{fail: errInjected, n: n}, b)
				t.Check(got == nil && err != nil && strings.Contains(err.Error(), errInjected.Error()), "a write error is answered with %x, %v", got, err)
				t.Seen("failure", n, in)
			}
		})
	}
	t.Sample("own, standard and failing hash states")
}

func hashChecksum(t *T) {
	for i := 0; i < t.N(700, 6000); i++ {
		in := t.Msg()
		if i < 300 {
			in = t.Bytes(i)
		}
		if i >= 300 && i < 304 {
			in = t.Bytes([]int{1<<20 + 1, 1<<22 + 3, 1<<24 + 9, 70001, 1 << 23, 3<<21 - 1, 1 << 22, 1<<21 + 5}[(i*2+t.Shard)%8])
		}
		t.Case(fmt.Sprintf("checksum of %d bytes", len(in)), func() {
			c, b := newCanary(t, in)
			want := uint32(refXXH64(in) >> 32)
			got, err := hash.Checksum(b)
			t.Check(err == nil && got == want, "the checksum of %s is %08x, %v, and not %08x", hx(in), got, err, want)
			t.Check(hash.CompareChecksum(b, want), "the right checksum of %s is not recognised", hx(in))
			e := c.intact()
			t.Check(e == nil, "%v", e)
			cand := []uint32{0, 1, ^uint32(0), want + 1, want - 1, ^want, uint32(refXXH64(in)), want<<16 | want>>16,
				want>>24 | want>>8&0xff00 | want<<8&0xff0000 | want<<24, t.Uint32(), want &^ 0xff, want & 0xffff, want | 1, want >> 1}
			for k := 0; k < 32; k++ {
				cand = append(cand, want^1<<k)
			}
			for _, x := range cand {
				if x == want {
					continue
				}
				t.Check(!hash.CompareChecksum(b, x), "%08x is taken for the checksum %08x of %s", x, want, hx(in))
				t.Seen("candidate", want, x)
			}
			m := t.MutateMsg(in)
			if uint32(refXXH64(m)>>32) != want {
				t.Check(!hash.CompareChecksum(m, want), "the checksum of %s is accepted for %s", hx(in), hx(m))
			}
			t.Seen("input", in)
		})
	}
	t.Sample("inputs of all lengths to 300")
}

func hashEntropy(t *T) {
	src := newDRBG("entropy unit", t.Shard, t.seed)
	src.tape = &bytes.Buffer{}
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()
	var sizes []int
	for n := 0; n <= t.N(600, 3000); n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1 << 18, 1<<20 + 1} {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, []int{1<<24 + 3, 5000000}[t.Shard%2])
	seen := map[string]int{}
	var kept, keptWant [][]byte
	for _, n := range sizes {
		t.Case(fmt.Sprintf("%d bytes of entropy", n), func() {
			for rep := 0; rep < 2; rep++ {
				src.tape.Reset()
				got, err := hash.RandEntropy(uint32(n))
				if !t.Check(err == nil && len(got) == n, "%d bytes of entropy were asked for, the result is %d bytes, %v", n, len(got), err) {
					return
				}
				drawn := src.tape.Bytes()
				t.Check(bytes.Contains(drawn, got), "%d bytes of entropy do not come whole from the system's source (%d bytes were drawn)", n, len(drawn))
				if n >= 12 {
					key := string(got)
					t.Check(seen[key] == 0, "entropy repeats")
					seen[key]++
					// no block of it repeats either
					blocks := map[string]bool{}
					for k := 0; k+12 <= n && k < 3000; k += 12 {
						s := string(got[k : k+12])
						t.Check(!blocks[s], "a block within %d bytes of entropy repeats", n)
						blocks[s] = true
					}
				}
				if n > 0 && n < 200 {
					kept, keptWant = append(kept, got), append(keptWant, append([]byte{}, got...))
				}
				t.Seen("entropy", got)
			}
		})
	}
	t.Case("entropy kept", func() {
		for k := range kept {
			t.Check(bytes.Equal(kept[k], keptWant[k]), "entropy handed out earlier changed later")
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		all := map[string]bool{}
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 200; k++ {
					b, err := hash.RandEntropy(24)
					mu.Lock()
					if err != nil || all[string(b)] {
						t.mu.Lock()
						t.violations = append(t.violations, Violation{t.unit, t.Shard, "entropy in parallel", fmt.Sprintf("entropy repeats or fails when asked for in parallel: %v", err)})
						t.mu.Unlock()
						mu.Unlock()
						return
					}
					all[string(b)] = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		t.Seen("parallel", t.Shard)
	})
	t.Sample("sizes 0..%d", t.N(600, 3000))
}

// grind searches for inputs whose digests begin or end in three bytes 0 or 255; its
// output is harness/special.go. Run with: cd harness && go run ../tools/grind/main.go
package main

import (
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"sync"
	"sync/atomic"

	"github.com/OneOfOne/xxhash"
	"github.com/dusk-network/bn256"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

func le(n uint64) []byte { return binary.LittleEndian.AppendUint64(nil, n) }

func kind(d []byte) int {
	n := len(d)
	eq := func(b []byte, v byte) bool { return b[0] == v && b[1] == v && b[2] == v }
	switch {
	case eq(d[:3], 0):
		return 0
	case eq(d[n-3:], 0):
		return 1
	case eq(d[:3], 255):
		return 2
	case eq(d[n-3:], 255):
		return 3
	}
	return -1
}

var l, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func search(f func(n uint64) []byte) [4]uint64 {
	var res [4]uint64
	var found atomic.Int32
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := uint64(w + 1); found.Load() < 4 && n < 120000000; n += 8 {
				if k := kind(f(n)); k >= 0 {
					mu.Lock()
					if res[k] == 0 {
						res[k] = n
						found.Add(1)
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return res
}

func main() {
	out := "package main\n\n// Made by tools/grind: little endian numbers whose digests begin with three bytes 0, end\n// with three bytes 0, begin with three bytes 255, end with three bytes 255 (0: none).\nvar special = map[string][4]uint64{\n"
	put := func(name string, f func(n uint64) []byte) {
		r := search(f)
		out += fmt.Sprintf("\t%q: {%d, %d, %d, %d},\n", name, r[0], r[1], r[2], r[3])
	}
	put("sha3-256", func(n uint64) []byte { d := sha3.Sum256(le(n)); return d[:] })
	put("sha3-512", func(n uint64) []byte { d := sha3.Sum512(le(n)); return d[:] })
	put("blake2b-256", func(n uint64) []byte { d := blake2b.Sum256(le(n)); return d[:] })
	put("blake2b-512", func(n uint64) []byte { d := blake2b.Sum512(le(n)); return d[:] })
	put("xxhash", func(n uint64) []byte {
		h := xxhash.New64()
		_, _ = h.Write(le(n))
		return h.Sum(nil)
	})
	put("sha3-256 pair", func(n uint64) []byte {
		var b [64]byte
		binary.LittleEndian.PutUint64(b[32:], n)
		d := sha3.Sum256(b[:])
		return d[:]
	})
	// the reduced SHA-512: top 12 bytes of 252 bits count as 32 bytes shifted by four bits
	put("challenge", func(n uint64) []byte {
		d := sha512.Sum512(le(n))
		for i, j := 0, 63; i < j; i, j = i+1, j-1 {
			d[i], d[j] = d[j], d[i]
		}
		v := new(big.Int).SetBytes(d[:])
		v.Mod(v, l)
		v.Lsh(v, 4)
		return v.FillBytes(make([]byte, 33))[1:]
	})
	fmt.Fprintln(os.Stderr, "keys")
	// secrets of keys, by the digest of the key
	var res [4]uint64
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := uint64(0); w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := new(bn256.G2).ScalarBaseMult(big.NewInt(1))
			p := new(bn256.G2).ScalarBaseMult(new(big.Int).SetUint64(w<<40 + 5))
			for n := uint64(0); n < 5000000; n++ {
				d := sha3.Sum256(p.Marshal())
				if k := kind(d[:]); k >= 0 {
					mu.Lock()
					if res[k] == 0 {
						res[k] = w<<40 + 5 + n
					}
					done := res[0] != 0 && res[1] != 0
					mu.Unlock()
					if done {
						return
					}
				}
				p = new(bn256.G2).Add(p, g)
				if n&0xff == 0 {
					mu.Lock()
					done := res[0] != 0 && res[1] != 0
					mu.Unlock()
					if done {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	out += fmt.Sprintf("\t%q: {%d, %d, %d, %d},\n", "key", res[0], res[1], res[2], res[3])
	out += keys(2) + keys(1)
	fmt.Print(out + "}\n")
}

// keys searches for secrets with exactly n such bytes.
func keys(n int) string {
	var res [4]uint64
	g := new(bn256.G2).ScalarBaseMult(big.NewInt(1))
	p := new(bn256.G2).ScalarBaseMult(big.NewInt(1000))
	for x := uint64(1000); ; x++ {
		d := sha3.Sum256(p.Marshal())
		r := make([]byte, 32)
		for i := range r {
			r[i] = d[31-i]
		}
		for k, b := range [][]byte{d[:], r, d[:], r} {
			v, m := byte(255*(k/2)), 0
			for b[m] == v {
				m++
			}
			if m == n && res[k] == 0 {
				res[k] = x
			}
		}
		if res[0] != 0 && res[1] != 0 && res[2] != 0 && res[3] != 0 {
			return fmt.Sprintf("\t\"key%d\": {%d, %d, %d, %d},\n", n, res[0], res[1], res[2], res[3])
		}
		p = new(bn256.G2).Add(p, g)
	}
}

package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand/v2"
	"runtime"

	ristretto "github.com/bwesterb/go-ristretto"
)

type (
	sc = ristretto.Scalar
	pt = ristretto.Point
)

var groupL, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)

func hx(b []byte) string {
	if len(b) > 40 {
		return hex.EncodeToString(b[:20]) + "…" + hex.EncodeToString(b[len(b)-8:]) + fmt.Sprintf("(%d)", len(b))
	}
	return hex.EncodeToString(b)
}

// Bytes returns n workload bytes.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := t.Uint64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// RandScalar is a full-range scalar from the workload generator.
func (t *T) RandScalar() sc {
	var b [64]byte
	copy(b[:], t.Bytes(64))
	var s sc
	s.SetReduced(&b)
	return s
}

func scInt(i int64) sc { return scBig(big.NewInt(i)) }

// scBig reduces modulo the group order independently of the library.
func scBig(x *big.Int) sc {
	v := new(big.Int).Mod(x, groupL)
	var b [32]byte
	be := v.Bytes()
	for i := range be {
		b[i] = be[len(be)-1-i]
	}
	var s sc
	for i := range s {
		s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return s
}

func bigSc(s sc) *big.Int {
	b := s.Bytes()
	be := make([]byte, 32)
	for i := range b {
		be[31-i] = b[i]
	}
	return new(big.Int).SetBytes(be)
}

// EdgeScalar is a scalar that is often special.
func (t *T) EdgeScalar() sc {
	switch t.IntN(12) {
	case 10: // near the width of a limb or word, or its negative
		x := new(big.Int).Lsh(big.NewInt(1), t.width())
		x.Add(x, big.NewInt(int64(t.IntN(3)-1)))
		if t.IntN(3) == 0 {
			x.Neg(x)
		}
		return scBig(x)
	case 11: // zero bytes somewhere, or around half of the order
		if t.IntN(4) == 0 {
			x := new(big.Int).Rsh(groupL, 1)
			return scBig(x.Add(x, big.NewInt(int64(t.IntN(3)))))
		}
		b := bigSc(t.RandScalar()).FillBytes(make([]byte, 32))
		i, j := t.IntN(33), t.IntN(33)
		for ; i < j; i++ {
			b[i] = 0
		}
		return scBig(new(big.Int).SetBytes(b))
	case 0:
		return scInt(0)
	case 1:
		return scInt(1)
	case 2:
		return scInt(-1)
	case 3:
		return scInt(2)
	case 4:
		return scBig(new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(252))))
	case 5:
		return scInt(-int64(t.IntN(1000)))
	case 6:
		return scInt(int64(t.IntN(1000)))
	}
	return t.RandScalar()
}

// NonZeroScalar is an EdgeScalar which is not zero.
func (t *T) NonZeroScalar() sc {
	for {
		s := t.EdgeScalar()
		if s.IsNonZeroI() != 0 {
			return s
		}
	}
}

// RandPoint is a point of unknown discrete logarithm to the code under test.
func (t *T) RandPoint() pt {
	var p pt
	p.Derive(t.Bytes(32))
	return p
}

// EdgePoint is a point that is sometimes special.
func (t *T) EdgePoint() pt {
	var p pt
	switch t.IntN(8) {
	case 0:
		p.SetZero()
	case 1:
		p.SetBase()
	default:
		p = t.RandPoint()
	}
	return p
}

func mulBase(s sc) pt {
	var p pt
	p.ScalarMultBase(&s)
	return p
}

func mul(p pt, s sc) pt {
	var r pt
	r.ScalarMult(&p, &s)
	return r
}

func add(a, b pt) pt {
	var r pt
	r.Add(&a, &b)
	return r
}

func sub(a, b pt) pt {
	var r pt
	r.Sub(&a, &b)
	return r
}

func sAdd(a, b sc) sc { return scBig(new(big.Int).Add(bigSc(a), bigSc(b))) }
func sSub(a, b sc) sc { return scBig(new(big.Int).Sub(bigSc(a), bigSc(b))) }
func sMul(a, b sc) sc { return scBig(new(big.Int).Mul(bigSc(a), bigSc(b))) }
func sInv(a sc) sc    { return scBig(new(big.Int).ModInverse(bigSc(a), groupL)) }

func derive(parts ...[]byte) sc {
	return refChallenge(bytes.Join(parts, nil))
}

func deriveP(b []byte) pt {
	var p pt
	p.Derive(b)
	return p
}

// sameP compares encodings: unlike Point.Equals it is not fooled by points that are no group elements.
func sameP(a, b pt) bool { return bytes.Equal(a.Bytes(), b.Bytes()) }
func sameS(a, b sc) bool { return bytes.Equal(a.Bytes(), b.Bytes()) }

// Msg is a message of varied length and content.
func (t *T) Msg() []byte {
	switch t.IntN(12) {
	case 0:
		return []byte{}
	case 1:
		return nil
	case 2:
		return make([]byte, t.IntN(200))
	case 3:
		return bytes.Repeat([]byte{0xff}, t.IntN(200))
	case 4:
		return t.Bytes([]int{1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 135, 136, 137, 255, 256, 257}[t.IntN(16)])
	case 5:
		return t.Bytes(1000 + t.IntN(8000))
	case 6:
		return append(t.Bytes(t.IntN(40)), make([]byte, 1+t.IntN(8))...)
	}
	return t.Bytes(t.IntN(120))
}

// MutateMsg returns a message different from m but close to it.
func (t *T) MutateMsg(m []byte) []byte {
	for {
		c := append([]byte{}, m...)
		switch t.IntN(9) {
		case 0:
			c = append(c, 0)
		case 1:
			c = append([]byte{0}, c...)
		case 2:
			if len(c) > 0 {
				c = c[:len(c)-1]
			}
		case 3:
			if len(c) > 0 {
				c = c[1:]
			}
		case 4:
			if len(c) > 0 {
				c[len(c)-1] ^= 1 << t.IntN(8)
			}
		case 5:
			if len(c) > 0 {
				c[0] ^= 1 << t.IntN(8)
			}
		case 6:
			if len(c) > 1 {
				i, j := t.IntN(len(c)), t.IntN(len(c))
				c[i], c[j] = c[j], c[i]
			}
		case 7:
			c = append(c, byte(t.Uint32()))
		default:
			if len(c) > 0 {
				c[t.IntN(len(c))] ^= 1 << t.IntN(8)
			}
		}
		if !bytes.Equal(c, m) {
			return c
		}
	}
}

// chunkReader delivers its bytes in the given chunk sizes.
type chunkReader struct {
	b      []byte
	chunk  func() int
	noEOF  bool // deliver the EOF together with the last bytes when false
	failAt int  // when >= 0, fail after this many bytes
	once   bool // go on after the failure
	pos    int
}

var errInjected = errors.New("injected fault")

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.failAt >= 0 && r.pos >= r.failAt {
		if r.once {
			r.failAt = -1
		}
		return 0, errInjected
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.chunk()
	if n < 1 {
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	if r.failAt >= 0 && r.pos+n > r.failAt {
		n = r.failAt - r.pos
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	r.pos += n
	if len(r.b) == 0 && !r.noEOF && r.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

// failWriter accepts limit bytes, then fails.
type failWriter struct {
	limit int
	short bool // report a short write instead of accepting nothing of the last chunk
	once  bool // go on after the failure
	past  bool
	got   []byte
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.past || len(w.got)+len(p) <= w.limit {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	n := 0
	if w.short {
		n = w.limit - len(w.got)
		w.got = append(w.got, p[:n]...)
	}
	w.past = w.once
	return n, errInjected
}

// allocated returns the bytes allocated by f in this process.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// canary places b in a larger array so that writes around it can be seen.
type canary struct {
	full, want []byte
	off, n     int
}

func newCanary(t *T, b []byte) (*canary, []byte) {
	pre, post := 8+t.IntN(16), 64+t.IntN(200)
	full := t.Bytes(pre + len(b) + post)
	copy(full[pre:], b)
	return &canary{full, append([]byte{}, full...), pre, len(b)}, full[pre : pre+len(b)]
}

func (c *canary) intact() error {
	for i := range c.full {
		if c.full[i] != c.want[i] {
			where := "in the slice"
			if i < c.off {
				where = "before the slice"
			} else if i >= c.off+c.n {
				where = "behind the slice, in its spare capacity"
			}
			return fmt.Errorf("byte %d %s was changed from %02x to %02x", i-c.off, where, c.want[i], c.full[i])
		}
	}
	return nil
}

// scCanary is canary for scalars.
type scCanary struct {
	full, want []sc
	off, n     int
}

func newScCanary(t *T, b []sc) (*scCanary, []sc) {
	pre, post := 1+t.IntN(3), 20
	full := make([]sc, pre+len(b)+post)
	for i := range full {
		full[i] = t.RandScalar()
	}
	copy(full[pre:], b)
	return &scCanary{full, append([]sc{}, full...), pre, len(b)}, full[pre : pre+len(b)]
}

func (c *scCanary) intact() error {
	for i := range c.full {
		if c.full[i] != c.want[i] {
			return fmt.Errorf("scalar %d (slice length %d) was changed", i-c.off, c.n)
		}
	}
	return nil
}

// ptCanary is canary for points (compared as memory).
type ptCanary struct {
	full, want []pt
	off, n     int
}

func newPtCanary(t *T, b []pt) (*ptCanary, []pt) {
	pre, post := 1+t.IntN(2), 6
	full := make([]pt, pre+len(b)+post)
	for i := range full {
		full[i] = t.RandPoint()
	}
	copy(full[pre:], b)
	return &ptCanary{full, append([]pt{}, full...), pre, len(b)}, full[pre : pre+len(b)]
}

func (c *ptCanary) intact() error {
	for i := range c.full {
		if c.full[i] != c.want[i] {
			return fmt.Errorf("point %d (slice length %d) was changed", i-c.off, c.n)
		}
	}
	return nil
}

func sha512Wide(b []byte) *big.Int {
	h := sha512Sum(b)
	be := make([]byte, 64)
	for i := range h {
		be[63-i] = h[i]
	}
	return new(big.Int).SetBytes(be)
}

// refChallenge is the challenge derivation, by big-integer reduction.
func refChallenge(b []byte) sc { return scBig(sha512Wide(b)) }

func sqrt(x float64) float64 { return math.Sqrt(x) }

// rand0 is a generator that does not depend on the shard.
func rand0(parts ...any) *rand.Rand { return rand.New(rand.NewChaCha8(seed32(parts...))) }

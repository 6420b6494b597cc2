package main

import (
	"encoding/binary"
	"math/bits"
)

// Independent BLAKE2b (RFC 7693, no key) and XXH64 (seed 0).

var b2IV = [8]uint64{
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
}

var b2Sigma = [12][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
}

func refBlake2b(size int, in []byte) []byte {
	h := b2IV
	h[0] ^= 0x01010000 ^ uint64(size)
	var count uint64
	compress := func(blk []byte, last bool) {
		var m [16]uint64
		var buf [128]byte
		copy(buf[:], blk)
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(buf[8*i:])
		}
		count += uint64(len(blk))
		var v [16]uint64
		copy(v[:8], h[:])
		copy(v[8:], b2IV[:])
		v[12] ^= count
		if last {
			v[14] = ^v[14]
		}
		g := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for r := 0; r < 12; r++ {
			s := &b2Sigma[r]
			g(0, 4, 8, 12, m[s[0]], m[s[1]])
			g(1, 5, 9, 13, m[s[2]], m[s[3]])
			g(2, 6, 10, 14, m[s[4]], m[s[5]])
			g(3, 7, 11, 15, m[s[6]], m[s[7]])
			g(0, 5, 10, 15, m[s[8]], m[s[9]])
			g(1, 6, 11, 12, m[s[10]], m[s[11]])
			g(2, 7, 8, 13, m[s[12]], m[s[13]])
			g(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
	}
	for len(in) > 128 {
		compress(in[:128], false)
		in = in[128:]
	}
	compress(in, true)
	out := make([]byte, 64)
	for i := range h {
		binary.LittleEndian.PutUint64(out[8*i:], h[i])
	}
	return out[:size]
}

const (
	xp1 uint64 = 11400714785074694791
	xp2 uint64 = 14029467366897019727
	xp3 uint64 = 1609587929392839161
	xp4 uint64 = 9650029242287828579
	xp5 uint64 = 2870177450012600261
)

func refXXH64(in []byte) uint64 {
	n := uint64(len(in))
	round := func(acc, x uint64) uint64 { return bits.RotateLeft64(acc+x*xp2, 31) * xp1 }
	var h uint64
	if len(in) >= 32 {
		p1 := xp1
		v := [4]uint64{p1 + xp2, xp2, 0, -p1}
		for len(in) >= 32 {
			for i := range v {
				v[i] = round(v[i], binary.LittleEndian.Uint64(in[8*i:]))
			}
			in = in[32:]
		}
		h = bits.RotateLeft64(v[0], 1) + bits.RotateLeft64(v[1], 7) + bits.RotateLeft64(v[2], 12) + bits.RotateLeft64(v[3], 18)
		for i := range v {
			h = (h^round(0, v[i]))*xp1 + xp4
		}
	} else {
		h = xp5
	}
	h += n
	for len(in) >= 8 {
		h = bits.RotateLeft64(h^round(0, binary.LittleEndian.Uint64(in)), 27)*xp1 + xp4
		in = in[8:]
	}
	if len(in) >= 4 {
		h = bits.RotateLeft64(h^uint64(binary.LittleEndian.Uint32(in))*xp1, 23)*xp2 + xp3
		in = in[4:]
	}
	for _, b := range in {
		h = bits.RotateLeft64(h^uint64(b)*xp5, 11) * xp1
	}
	h ^= h >> 33
	h *= xp2
	h ^= h >> 29
	h *= xp3
	h ^= h >> 32
	return h
}

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// rsig is a ring signature of either scheme: blsag is the case of one key and one
// key image per member.
type rsig struct {
	c    sc
	r    [][]sc
	keys [][]pt
	msg  []byte
}

func (s rsig) clone() rsig {
	n := rsig{c: s.c, msg: append([]byte{}, s.msg...)}
	for _, v := range s.r {
		n.r = append(n.r, append([]sc{}, v...))
	}
	for _, v := range s.keys {
		n.keys = append(n.keys, append([]pt{}, v...))
	}
	return n
}

// variant describes which parts of the scheme's equations a (dishonest) prover or
// verifier takes into account; the zero value is the scheme.
type variant struct {
	noL, noR func(row, i int) bool // leave the commitment out
	msg      func(row int, m []byte) []byte
	skip     int // 1 + row left out of the chain
}

func (v variant) hash(row int, msg []byte, L, R []pt) sc {
	if v.msg != nil {
		msg = v.msg(row, msg)
	}
	b := append([]byte{}, msg...)
	for i := range L {
		if v.noL == nil || !v.noL(row, i) {
			b = append(b, L[i].Bytes()...)
		}
	}
	for i := range R {
		if v.noR == nil || !v.noR(row, i) {
			b = append(b, R[i].Bytes()...)
		}
	}
	return refChallenge(b)
}

func (v variant) step(row int, msg []byte, r []sc, keys, images []pt, c sc) sc {
	if v.skip == row+1 {
		return c
	}
	var L, R []pt
	for i := range keys {
		L = append(L, add(mulBase(r[i]), mul(keys[i], c)))
	}
	for i := range images {
		R = append(R, add(mul(deriveP(keys[i].Bytes()), r[i]), mul(images[i], c)))
	}
	return v.hash(row, msg, L, R)
}

func defined(p pt) bool {
	var zero, base pt
	zero.SetZero()
	base.SetBase()
	return !(p.Equals(&zero) && p.Equals(&base))
}

// refRingVerify is the scheme's verification: shape, then the chain.
func refRingVerify(s rsig, images []pt, v variant) bool {
	if len(s.keys) == 0 || len(s.r) != len(s.keys) || len(images) == 0 {
		return false
	}
	n := len(s.keys[0])
	if len(images) > n {
		return false
	}
	for i := range s.keys {
		if len(s.keys[i]) != n || len(s.r[i]) != n {
			return false
		}
		for _, k := range s.keys[i] {
			if !defined(k) {
				return false
			}
		}
	}
	for _, k := range images {
		if !defined(k) {
			return false
		}
	}
	c := s.c
	for row := range s.keys {
		c = v.step(row, s.msg, s.r[row], s.keys[row], images, c)
	}
	return sameS(c, s.c)
}

// chain returns the challenge of every row.
func (s rsig) chain(images []pt) []sc {
	c := s.c
	var cs []sc
	for row := range s.keys {
		cs = append(cs, c)
		c = variant{}.step(row, s.msg, s.r[row], s.keys[row], images, c)
	}
	return cs
}

// refRingProve closes the chain of variant v for the ring with the secrets at row j.
// Secrets which do not belong to the keys only matter where v looks.
func (t *T) refRingProve(msg []byte, keys [][]pt, j int, x []sc, images []pt, v variant) rsig {
	n := len(keys)
	s := rsig{keys: keys, msg: msg}
	s.r = make([][]sc, n)
	for i := range s.r {
		for range keys[i] {
			s.r[i] = append(s.r[i], t.RandScalar())
		}
	}
	var nonce []sc
	var L, R []pt
	for i := range x {
		nonce = append(nonce, t.RandScalar())
		L = append(L, mulBase(nonce[i]))
		if !defined(keys[j][i]) { // absorbs
			L[i] = add(L[i], keys[j][i])
		}
	}
	for i := range images {
		R = append(R, mul(deriveP(keys[j][i].Bytes()), nonce[i]))
		if !defined(images[i]) {
			R[i] = add(R[i], images[i])
		}
	}
	cs := make([]sc, n)
	c := v.hash(j, msg, L, R)
	for k := 1; k <= n; k++ {
		row := (j + k) % n
		cs[row] = c
		if row == j {
			break
		}
		c = v.step(row, msg, s.r[row], keys[row], images, c)
	}
	for i := range x {
		s.r[j][i] = sSub(nonce[i], sMul(cs[j], x[i]))
	}
	s.c = cs[0]
	return s
}

func keyImage(x sc) pt {
	p := mulBase(x)
	return mul(deriveP(p.Bytes()), x)
}

// scheme adapters

type ringScheme interface {
	name() string
	verify(s rsig, images []pt) (bool, error)
	shape(t *T) (keys, images int)
}

type blsagScheme struct{}

func (blsagScheme) name() string        { return "blsag" }
func (blsagScheme) shape(*T) (int, int) { return 1, 1 }
func (s blsagScheme) lib(r rsig, images []pt) blsag.RingSignature {
	var l blsag.RingSignature
	l.C = r.c
	if len(images) > 0 {
		l.I = images[0]
	}
	for _, v := range r.r {
		l.S = append(l.S, v...)
	}
	for _, v := range r.keys {
		l.PubKeys = append(l.PubKeys, v...)
	}
	return l
}
func (s blsagScheme) verify(r rsig, images []pt) (bool, error) {
	if blsag.Verify(r.msg, s.lib(r, images)) {
		return true, nil
	}
	return false, errors.New("not valid")
}

func fromBlsag(m []byte, l blsag.RingSignature) (rsig, []pt) {
	r := rsig{c: l.C, msg: append([]byte{}, m...)}
	for _, x := range l.S {
		r.r = append(r.r, []sc{x})
	}
	for _, x := range l.PubKeys {
		r.keys = append(r.keys, []pt{x})
	}
	return r, []pt{l.I}
}

type mlsagScheme struct{}

func (mlsagScheme) name() string { return "mlsag" }
func (mlsagScheme) shape(t *T) (int, int) {
	switch t.IntN(4) {
	case 0:
		n := 1 + t.IntN(4)
		return n, 1 + t.IntN(n)
	default:
		return 2, 1
	}
}
func (mlsagScheme) verify(r rsig, images []pt) (bool, error) {
	l, err := r.mlsag()
	if err != nil {
		return false, err
	}
	return l.Verify(images)
}

func libPubKeys(ks []pt) mlsag.PubKeys {
	var p mlsag.PubKeys
	for _, k := range ks {
		p.AddPubKey(k)
	}
	return p
}

func keysOf(p mlsag.PubKeys) ([]pt, error) {
	var b bytes.Buffer
	if err := p.Encode(&b); err != nil {
		return nil, err
	}
	var ks []pt
	for b.Len() >= 32 {
		var x [32]byte
		copy(x[:], b.Next(32))
		var k pt
		if !k.SetBytes(&x) {
			return nil, errors.New("key does not decode")
		}
		ks = append(ks, k)
	}
	return ks, nil
}

func (s rsig) bytes(keys bool) []byte {
	b := append([]byte{}, s.c.Bytes()...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(s.r)))
	n := 0
	if len(s.r) > 0 {
		n = len(s.r[0])
	}
	b = binary.BigEndian.AppendUint32(b, uint32(n))
	for _, v := range s.r {
		for _, x := range v {
			b = append(b, x.Bytes()...)
		}
	}
	if keys {
		for _, v := range s.keys {
			for _, x := range v {
				b = append(b, x.Bytes()...)
			}
		}
	}
	return b
}

var errShape = errors.New("the responses cannot be encoded")

// mlsag hands the signature to the library through its decoder, and the keys
// through AddPubKey so that any ring can be offered.
func (s rsig) mlsag() (*mlsag.Signature, error) {
	for _, v := range s.r {
		if len(v) != len(s.r[0]) {
			return nil, errShape
		}
	}
	l := &mlsag.Signature{}
	if len(s.r) > 0 {
		if err := l.Decode(bytes.NewReader(s.bytes(false)), false); err != nil {
			return nil, fmt.Errorf("valid responses are not decoded: %v", err)
		}
	}
	for _, v := range s.keys {
		l.PubKeys = append(l.PubKeys, libPubKeys(v))
	}
	l.Msg = append([]byte{}, s.msg...)
	return l, nil
}

// fromMlsag reads a signature through its encoding.
func fromMlsag(l *mlsag.Signature) (rsig, error) {
	var b bytes.Buffer
	if err := l.Encode(&b, false); err != nil {
		return rsig{}, err
	}
	s := rsig{msg: append([]byte{}, l.Msg...)}
	d := b.Bytes()
	if len(d) < 40 {
		return s, errors.New("short encoding")
	}
	s.c = scFromBytes(d[:32])
	n, k := int(binary.BigEndian.Uint32(d[32:])), int(binary.BigEndian.Uint32(d[36:]))
	d = d[40:]
	if len(d) != n*k*32 {
		return s, fmt.Errorf("%d bytes of responses for %d members with %d keys", len(d), n, k)
	}
	for i := 0; i < n; i++ {
		var v []sc
		for j := 0; j < k; j++ {
			v = append(v, scFromBytes(d[:32]))
			d = d[32:]
		}
		s.r = append(s.r, v)
	}
	for _, p := range l.PubKeys {
		ks, err := keysOf(p)
		if err != nil {
			return s, err
		}
		s.keys = append(s.keys, ks)
	}
	return s, nil
}

func scFromBytes(b []byte) sc {
	var s sc
	for i := range s {
		s[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	return s
}

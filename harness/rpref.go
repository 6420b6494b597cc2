package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"

	"github.com/dusk-network/dusk-crypto/rangeproof"
)

// An independent implementation of the range proof protocol: prover and verifier.

const rpSeed = "dusk.BulletProof.vec1"

var rpGens = map[string][]pt{}

// refGens returns n generators of the chain that starts from the seed.
func refGens(seed []byte, n int) []pt {
	// no lock, which would order the goroutines of the race workloads: those
	// compute what they need before starting
	g := rpGens[string(seed)]
	if len(g) >= n {
		return g[:n:n]
	}
	for len(g) < n {
		src := seed
		if len(g) > 0 {
			src = g[len(g)-1].Bytes()
		}
		g = append(g, deriveP(src))
	}
	rpGens[string(seed)] = g
	return g[:n:n]
}

func rpG(n int) []pt { return refGens([]byte(rpSeed), n) }
func rpH(n int) []pt { return refGens(append([]byte(rpSeed), 1), n) }

var rpValueBase = deriveP([]byte("blindPoint"))

func msm(s []*big.Int, p []pt) pt {
	var r pt
	r.SetZero()
	for i := range s {
		v := new(big.Int).Mod(s[i], groupL)
		if v.Sign() == 0 {
			continue
		}
		x := scBig(v)
		var q pt
		q.PublicScalarMult(&p[i], &x)
		r.Add(&r, &q)
	}
	return r
}

func bmul(a, b *big.Int) *big.Int {
	return new(big.Int).Mod(new(big.Int).Mul(a, b), groupL)
}
func badd(a, b *big.Int) *big.Int {
	return new(big.Int).Mod(new(big.Int).Add(a, b), groupL)
}
func bsub(a, b *big.Int) *big.Int {
	return new(big.Int).Mod(new(big.Int).Sub(a, b), groupL)
}
func binv(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, groupL) }
func bpow(a *big.Int, n int) *big.Int {
	return new(big.Int).Exp(a, big.NewInt(int64(n)), groupL)
}
func bdot(a, b []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range a {
		r.Add(r, new(big.Int).Mul(a[i], b[i]))
	}
	return r.Mod(r, groupL)
}

// rpf is a range proof in the open.
type rpf struct {
	V            []pt
	A, S, T1, T2 pt
	taux, mu, t  sc
	a, b         sc
	L, R         []pt
}

func (p rpf) clone() rpf {
	c := p
	c.V = append([]pt{}, p.V...)
	c.L = append([]pt{}, p.L...)
	c.R = append([]pt{}, p.R...)
	return c
}

// bytes is the encoding.
func (p rpf) bytes(with bool) []byte {
	var b []byte
	if with {
		b = binary.BigEndian.AppendUint32(b, uint32(len(p.V)))
		for i := range p.V {
			b = append(b, p.V[i].Bytes()...)
		}
	}
	for _, q := range []pt{p.A, p.S, p.T1, p.T2} {
		b = append(b, q.Bytes()...)
	}
	for _, s := range []sc{p.taux, p.mu, p.t, p.a, p.b} {
		b = append(b, s.Bytes()...)
	}
	for i := range p.L {
		b = append(b, p.L[i].Bytes()...)
		b = append(b, p.R[i].Bytes()...)
	}
	return b
}

// lib hands the proof to the library, through its decoder.
func (p rpf) lib() (rangeproof.Proof, error) {
	var q rangeproof.Proof
	err := q.Decode(bytes.NewReader(p.bytes(true)), true)
	return q, err
}

func ptFrom(b []byte) (pt, error) {
	var a [32]byte
	copy(a[:], b)
	var p pt
	if len(b) != 32 || !p.SetBytes(&a) {
		return p, errors.New("no point")
	}
	return p, nil
}

func scFrom(b []byte) sc {
	be := make([]byte, len(b))
	for i := range b {
		be[len(b)-1-i] = b[i]
	}
	return scBig(new(big.Int).SetBytes(be))
}

// fromRP opens a library proof.
func fromRP(q *rangeproof.Proof) (rpf, error) {
	var buf bytes.Buffer
	if err := q.Encode(&buf, true); err != nil {
		return rpf{}, err
	}
	return parseRP(buf.Bytes())
}

func parseRP(b []byte) (p rpf, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("encoding too short: %v", r)
		}
	}()
	n := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	next := func() []byte {
		x := b[:32]
		b = b[32:]
		return x
	}
	point := func() pt {
		q, e := ptFrom(next())
		if e != nil {
			err = e
		}
		return q
	}
	for i := 0; i < n; i++ {
		p.V = append(p.V, point())
	}
	p.A, p.S, p.T1, p.T2 = point(), point(), point(), point()
	p.taux, p.mu, p.t = scFrom(next()), scFrom(next()), scFrom(next())
	p.a, p.b = scFrom(next()), scFrom(next())
	for len(b) > 0 {
		p.L = append(p.L, point())
		p.R = append(p.R, point())
	}
	return p, err
}

type rpChal struct{ x, y, z, w *big.Int }

// challenges of the protocol's outer transcript.
func (p rpf) chal() rpChal {
	var tr []byte
	for i := range p.V {
		tr = append(tr, p.V[i].Bytes()...)
	}
	tr = append(tr, p.A.Bytes()...)
	tr = append(tr, p.S.Bytes()...)
	y := refChallenge(tr)
	z := refChallenge(y.Bytes())
	tr = append(tr, z.Bytes()...)
	tr = append(tr, p.T1.Bytes()...)
	tr = append(tr, p.T2.Bytes()...)
	x := refChallenge(tr)
	tr = append(tr, x.Bytes()...)
	tr = append(tr, p.taux.Bytes()...)
	tr = append(tr, p.mu.Bytes()...)
	tr = append(tr, p.t.Bytes()...)
	w := refChallenge(tr)
	return rpChal{bigSc(x), bigSc(y), bigSc(z), bigSc(w)}
}

func ippChal(L, R []pt) []*big.Int {
	var tr []byte
	var u []*big.Int
	for k := range L {
		tr = append(tr, L[k].Bytes()...)
		tr = append(tr, R[k].Bytes()...)
		u = append(u, bigSc(refChallenge(tr)))
	}
	return u
}

// refVerify is the two equations of the protocol.
func (p rpf) verify() error {
	m := len(p.V)
	if m != 1 && m != 2 && m != 4 && m != 8 && m != 16 {
		return errors.New("number of commitments")
	}
	n := 64 * m
	rounds := 6
	for k := m; k > 1; k /= 2 {
		rounds++
	}
	if len(p.L) != rounds || len(p.R) != rounds {
		return errors.New("number of rounds")
	}
	c := p.chal()
	// t B + taux Blind = sum z^{j+2} V_j + delta B + x T1 + x^2 T2
	lhs := add(mul(rpValueBase, p.t), mulBase(p.taux))
	var s []*big.Int
	var q []pt
	for j := range p.V {
		s = append(s, bpow(c.z, j+2))
		q = append(q, p.V[j])
	}
	s = append(s, rpDelta(c.y, c.z, m), c.x, bmul(c.x, c.x))
	q = append(q, rpValueBase, p.T1, p.T2)
	rhs := msm(s, q)
	if !sameP(lhs, rhs) {
		return errors.New("first equation")
	}
	// A + x S - z<1,G> + <z y^i + z^{j+2} 2^k, H'> - mu Blind + t Q + sum u^2 L + u^-2 R = a<s,G> + b<1/s,H'> + ab Q
	yinv := binv(c.y)
	u := ippChal(p.L, p.R)
	s, q = nil, nil
	G, H := rpG(n), rpH(n)
	a, b := bigSc(p.a), bigSc(p.b)
	two := big.NewInt(2)
	si := ippS(u)
	yp := big.NewInt(1)
	for i := 0; i < n; i++ {
		// G_i: -z - a s_i
		s = append(s, bsub(new(big.Int).Neg(c.z), bmul(a, si[i])))
		q = append(q, G[i])
		// H_i: z + y^-i (z^{j+2} 2^k - b / s_i)
		e := bmul(bpow(c.z, i/64+2), bpow(two, i%64))
		e = bsub(e, bmul(b, si[n-1-i]))
		s = append(s, badd(c.z, bmul(yp, e)))
		q = append(q, H[i])
		yp = bmul(yp, yinv)
	}
	one := big.NewInt(1)
	s = append(s, one, c.x)
	q = append(q, p.A, p.S)
	s = append(s, bsub(new(big.Int), bigSc(p.mu)))
	var base pt
	base.SetBase()
	q = append(q, base)
	s = append(s, bmul(c.w, bsub(bigSc(p.t), bmul(a, b))))
	q = append(q, rpValueBase)
	for k := range u {
		s = append(s, bmul(u[k], u[k]), binv(bmul(u[k], u[k])))
		q = append(q, p.L[k], p.R[k])
	}
	r := msm(s, q)
	var zero pt
	zero.SetZero()
	if !sameP(r, zero) {
		return errors.New("second equation")
	}
	return nil
}

// ippS is the vector of products u_k^{+-1}: the first challenge belongs to the most significant bit.
func ippS(u []*big.Int) []*big.Int {
	n := 1 << len(u)
	out := make([]*big.Int, n)
	inv := make([]*big.Int, len(u))
	for k := range u {
		inv[k] = binv(u[k])
	}
	for i := range out {
		v := big.NewInt(1)
		for k := range u {
			if i>>(len(u)-1-k)&1 == 1 {
				v = bmul(v, u[k])
			} else {
				v = bmul(v, inv[k])
			}
		}
		out[i] = v
	}
	return out
}

func rpDelta(y, z *big.Int, m int) *big.Int {
	sumY, sumZ := new(big.Int), new(big.Int)
	p := big.NewInt(1)
	for i := 0; i < 64*m; i++ {
		sumY = badd(sumY, p)
		p = bmul(p, y)
	}
	p = big.NewInt(1)
	for i := 0; i < m; i++ {
		sumZ = badd(sumZ, p)
		p = bmul(p, z)
	}
	z2 := bmul(z, z)
	max64 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
	return bsub(bmul(bsub(z, z2), sumY), bmul(bmul(z2, z), bmul(max64, sumZ)))
}

// rpWit is everything a prover chooses.
type rpWit struct {
	v                      []*big.Int // power of two many
	gamma                  []*big.Int
	aL, aR                 []*big.Int
	alpha, rho, tau1, tau2 *big.Int
	sL, sR                 []*big.Int
	// changes by a cheating prover
	afterAS  func(p *rpf) // before y, z
	polys    func(t1, t2 *big.Int, c rpChal) (*big.Int, *big.Int)
	lr       func(l, r []*big.Int, c rpChal)
	tauxMuT  func(p *rpf, c rpChal) // before w
	ippTweak *ippTweak
}

func (t *T) bigScalar() *big.Int { return bigSc(t.RandScalar()) }

// witness for the given values (of any size), honest otherwise.
func (t *T) witness(v []*big.Int) *rpWit {
	w := &rpWit{v: v, alpha: t.bigScalar(), rho: t.bigScalar(), tau1: t.bigScalar(), tau2: t.bigScalar()}
	for _, x := range v {
		w.gamma = append(w.gamma, t.bigScalar())
		low := new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), 64))
		for i := 0; i < 64; i++ {
			bit := int64(low.Bit(i))
			w.aL = append(w.aL, big.NewInt(bit))
			w.aR = append(w.aR, big.NewInt(bit-1))
			w.sL = append(w.sL, t.bigScalar())
			w.sR = append(w.sR, t.bigScalar())
		}
	}
	return w
}

func rpCommit(v, gamma *big.Int) pt {
	return add(mul(rpValueBase, scBig(v)), mulBase(scBig(gamma)))
}

// prove runs the protocol with the witness, whether it is true or not.
func (w *rpWit) prove() rpf {
	p, _ := w.proveC()
	return p
}

func (w *rpWit) proveC() (rpf, rpChal) {
	m := len(w.v)
	n := 64 * m
	G, H := rpG(n), rpH(n)
	var p rpf
	for j := range w.v {
		p.V = append(p.V, rpCommit(w.v[j], w.gamma[j]))
	}
	p.A = add(mulBase(scBig(w.alpha)), add(msm(w.aL, G), msm(w.aR, H)))
	p.S = add(mulBase(scBig(w.rho)), add(msm(w.sL, G), msm(w.sR, H)))
	if w.afterAS != nil {
		w.afterAS(&p)
	}
	c := p.chal() // y and z are final
	l0, r0, l1, r1 := make([]*big.Int, n), make([]*big.Int, n), w.sL, make([]*big.Int, n)
	yp := big.NewInt(1)
	for i := 0; i < n; i++ {
		l0[i] = bsub(w.aL[i], c.z)
		r0[i] = badd(bmul(yp, badd(w.aR[i], c.z)), bmul(bpow(c.z, i/64+2), new(big.Int).Lsh(big.NewInt(1), uint(i%64))))
		r1[i] = bmul(yp, w.sR[i])
		yp = bmul(yp, c.y)
	}
	t1 := badd(bdot(l0, r1), bdot(l1, r0))
	t2 := bdot(l1, r1)
	if w.polys != nil {
		t1, t2 = w.polys(t1, t2, c)
	}
	p.T1 = rpCommit(t1, w.tau1)
	p.T2 = rpCommit(t2, w.tau2)
	c = p.chal() // and x
	x2 := bmul(c.x, c.x)
	taux := badd(bmul(w.tau1, c.x), bmul(w.tau2, x2))
	for j := range w.v {
		taux = badd(taux, bmul(bpow(c.z, j+2), w.gamma[j]))
	}
	l, r := make([]*big.Int, n), make([]*big.Int, n)
	for i := range l {
		l[i] = badd(l0[i], bmul(l1[i], c.x))
		r[i] = badd(r0[i], bmul(r1[i], c.x))
	}
	if w.lr != nil {
		w.lr(l, r, c)
	}
	p.taux = scBig(taux)
	p.mu = scBig(badd(w.alpha, bmul(w.rho, c.x)))
	p.t = scBig(bdot(l, r))
	if w.tauxMuT != nil {
		w.tauxMuT(&p, c)
	}
	c = p.chal() // and w
	Q := mul(rpValueBase, scBig(c.w))
	yinv := binv(c.y)
	f := make([]*big.Int, n)
	yp = big.NewInt(1)
	for i := range f {
		f[i] = yp
		yp = bmul(yp, yinv)
	}
	ip := refIPP(G, H, l, r, f, Q, w.ippTweak)
	p.a, p.b, p.L, p.R = ip.a, ip.b, ip.L, ip.R
	return p, c
}

type ippf struct {
	a, b sc
	L, R []pt
}

type ippTweak struct {
	l, r func(k int) pt // added to L_k, R_k before the challenge
}

// refIPP is the inner product prover.
func refIPP(G, H []pt, a, b, f []*big.Int, Q pt, tw *ippTweak) ippf {
	n := len(a)
	g, h := append([]pt{}, G...), make([]pt, n)
	for i := range h {
		h[i] = msm([]*big.Int{f[i]}, H[i:i+1])
	}
	a, b = append([]*big.Int{}, a...), append([]*big.Int{}, b...)
	var out ippf
	for k := 0; n > 1; k++ {
		n /= 2
		L := add(msm(a[:n], g[n:2*n]), msm(b[n:2*n], h[:n]))
		L = add(L, mul(Q, scBig(bdot(a[:n], b[n:2*n]))))
		R := add(msm(a[n:2*n], g[:n]), msm(b[:n], h[n:2*n]))
		R = add(R, mul(Q, scBig(bdot(a[n:2*n], b[:n]))))
		if tw != nil {
			L, R = add(L, tw.l(k)), add(R, tw.r(k))
		}
		out.L, out.R = append(out.L, L), append(out.R, R)
		us := ippChal(out.L, out.R)
		u := us[len(us)-1]
		ui := binv(u)
		for i := 0; i < n; i++ {
			a[i] = badd(bmul(a[i], u), bmul(a[i+n], ui))
			b[i] = badd(bmul(b[i], ui), bmul(b[i+n], u))
			g[i] = msm([]*big.Int{ui, u}, []pt{g[i], g[i+n]})
			h[i] = msm([]*big.Int{u, ui}, []pt{h[i], h[i+n]})
		}
		a, b, g, h = a[:n], b[:n], g[:n], h[:n]
	}
	out.a, out.b = scBig(a[0]), scBig(b[0])
	return out
}

// refIPPVerify folds the generators round by round and compares with the opened commitment.
func refIPPVerify(G, H []pt, f []*big.Int, Q, P pt, ip ippf) bool {
	n := len(G)
	if n == 0 || n&(n-1) != 0 || len(ip.L) != len(ip.R) || 1<<len(ip.L) != n || len(H) != n || len(f) != n {
		return false
	}
	g, h := append([]pt{}, G...), make([]pt, n)
	for i := range h {
		h[i] = mul(H[i], scBig(f[i]))
	}
	u := ippChal(ip.L, ip.R)
	for k := range u {
		n /= 2
		ui := binv(u[k])
		P = add(P, msm([]*big.Int{bmul(u[k], u[k]), bmul(ui, ui)}, []pt{ip.L[k], ip.R[k]}))
		for i := 0; i < n; i++ {
			g[i] = msm([]*big.Int{ui, u[k]}, []pt{g[i], g[i+n]})
			h[i] = msm([]*big.Int{u[k], ui}, []pt{h[i], h[i+n]})
		}
	}
	want := add(add(mul(g[0], ip.a), mul(h[0], ip.b)), mul(Q, sMul(ip.a, ip.b)))
	return sameP(P, want)
}

// value is a value in range, often a special one.
func (t *T) value() *big.Int {
	one := big.NewInt(1)
	switch t.IntN(9) {
	case 0:
		return big.NewInt(0)
	case 8:
		return new(big.Int).SetUint64(t.patternValue())
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(one, 64), one)
	case 2:
		return new(big.Int).Lsh(one, uint(t.IntN(64)))
	case 3:
		return new(big.Int).Sub(new(big.Int).Lsh(one, uint(1+t.IntN(64))), one)
	case 4:
		return big.NewInt(int64(t.IntN(300)))
	case 5:
		return new(big.Int).SetUint64([]uint64{0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1 << 63, 1<<63 - 1, 1<<63 + 1, 1<<64 - 2, 1<<32 - 1, 1 << 32, 0xff00000000000000}[t.IntN(9)])
	}
	return new(big.Int).SetUint64(t.Uint64())
}

// patternValue is a value with runs of equal bits or bytes.
func (t *T) patternValue() uint64 {
	if t.IntN(2) == 0 {
		a, b := uint(t.IntN(64)), uint(t.IntN(65))
		return 1<<b - 1<<a // b = 64: runs to the top; b < a: all but a run
	}
	var b [8]byte
	for i := range b {
		b[i] = []byte{0, 0, 255, 255, 1, 128, 127, 254, 0x55, 0x0f, byte(t.IntN(256))}[t.IntN(11)]
	}
	switch t.IntN(3) {
	case 0:
		copy(b[4:], []byte{0, 0, 0, 0})
	case 1:
		copy(b[4:], b[:4])
	}
	return binary.BigEndian.Uint64(b[:])
}

func (t *T) values(m int) []*big.Int {
	v := make([]*big.Int, m)
	for i := range v {
		v[i] = t.value()
	}
	return v
}

func scalars(v []*big.Int) []sc {
	var s []sc
	for _, x := range v {
		s = append(s, scBig(x))
	}
	return s
}

// badValue is a value out of range.
func (t *T) badValue() *big.Int {
	one := big.NewInt(1)
	switch t.IntN(6) {
	case 0:
		return new(big.Int).Lsh(one, 64)
	case 1:
		return new(big.Int).Sub(groupL, one)
	case 2:
		return new(big.Int).Add(new(big.Int).Lsh(one, 64), t.value())
	case 3:
		return new(big.Int).Lsh(one, uint(64+t.IntN(188)))
	case 4:
		return new(big.Int).Sub(groupL, new(big.Int).Add(one, new(big.Int).SetUint64(t.Uint64()>>uint(t.IntN(64)))))
	}
	for {
		x := t.bigScalar()
		if x.BitLen() > 64 {
			return x
		}
	}
}

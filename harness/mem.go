package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	props["C28"] = []string{"mem.bls", "mem.ring", "mem.proof", "mem.parts", "mem.misc"}
	const rule = "every operation on generated inputs in slices with spare capacity; inputs (spare capacity included) compared before and after, results compared after the caller changed its inputs, and inputs and other results after it changed a result; distinct = (operation, inputs)"
	unit("mem.bls", rule, 4, 16, memBLS)
	unit("mem.ring", rule, 4, 16, memRing)
	unit("mem.proof", rule, 4, 16, memProof)
	unit("mem.parts", rule, 2, 16, memParts)
	unit("mem.misc", rule, 2, 8, memMisc)
}

// dump writes the memory reachable from v, slices up to their capacity. Points
// of the pairing groups are written as what they are, not how they are kept.
func dump(w *strings.Builder, v reflect.Value, seen map[unsafe.Pointer]bool, caps bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			w.WriteString("nil;")
			return
		}
		p := v.UnsafePointer()
		switch v.Type() {
		case reflect.TypeOf((*bn256.G1)(nil)):
			w.WriteString("G1:" + hex.EncodeToString(new(bn256.G1).Set((*bn256.G1)(p)).Marshal()) + ";")
			return
		case reflect.TypeOf((*bn256.G2)(nil)):
			w.WriteString("G2:" + hex.EncodeToString(new(bn256.G2).Set((*bn256.G2)(p)).Marshal()) + ";")
			return
		case reflect.TypeOf((*big.Int)(nil)):
			w.WriteString("int:" + (*big.Int)(p).String() + ";")
			return
		}
		if seen[p] {
			w.WriteString("again;")
			return
		}
		seen[p] = true
		w.WriteString("&")
		dump(w, v.Elem(), seen, caps)
	case reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil;")
			return
		}
		dump(w, v.Elem(), seen, caps)
	case reflect.Struct:
		w.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(w, v.Field(i), seen, caps)
		}
		w.WriteString("}")
	case reflect.Array:
		w.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(w, v.Index(i), seen, caps)
		}
		w.WriteString("]")
	case reflect.Slice:
		if v.IsNil() {
			w.WriteString("nil[];")
			return
		}
		f := v
		if caps {
			f = v.Slice(0, v.Cap())
		}
		fmt.Fprintf(w, "%d/%d[", v.Len(), f.Len())
		if f.Type().Elem().Kind() == reflect.Uint8 && f.Len() > 0 {
			w.Write(unsafe.Slice((*byte)(f.UnsafePointer()), f.Len()))
		} else {
			for i := 0; i < f.Len(); i++ {
				dump(w, f.Index(i), seen, caps)
			}
		}
		w.WriteString("]")
	case reflect.String:
		w.WriteString(v.String() + ";")
	case reflect.Bool:
		fmt.Fprintf(w, "%v;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(w, "%x;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(w, "%x;", v.Uint())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		w.WriteString("opaque;")
	default:
		w.WriteString("?;")
	}
}

// dumpAll dumps inputs (spare capacity included), dumpRes results.
func dumpAll(xs []any) []string { return dumps(xs, true) }
func dumpRes(xs []any) []string { return dumps(xs, false) }

func dumps(xs []any, caps bool) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		var w strings.Builder
		dump(&w, reflect.ValueOf(x), map[unsafe.Pointer]bool{}, caps)
		out[i] = w.String()
	}
	return out
}

// scribble changes everything a caller can change in slices it holds: elements
// of byte, scalar and point slices, spare capacity included, and the entries of
// slices of slices and of payloads.
func scribble(t *T, x any) {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && v.IsNil() {
		return
	}
	switch s := x.(type) {
	case []byte:
		s = s[:cap(s)]
		for i := range s {
			s[i] ^= 0xa7
		}
	case [][]byte:
		for i := range s {
			scribble(t, s[i])
			s[i] = []byte{1}
		}
	case []sc:
		s = s[:cap(s)]
		for i := range s {
			s[i] = t.RandScalar()
		}
	case [][]sc:
		for i := range s {
			scribble(t, s[i])
			s[i] = nil
		}
	case []pt:
		s = s[:cap(s)]
		for i := range s {
			s[i].SetBase()
		}
	case []*bls.PublicKey:
		for i := range s {
			s[i] = nil
		}
	case []*bls.Apk:
		for i := range s {
			s[i] = nil
		}
	case []*bls.UnsafeSignature:
		for i := range s {
			s[i] = nil
		}
	case []merkletree.Payload:
		for i := range s {
			s[i] = &pay{h: []byte{9}}
		}
	case []pedersen.Commitment:
		s = s[:cap(s)]
		for i := range s {
			s[i].Value.SetBase()
		}
	case *rangeproof.Proof:
		scribble(t, s.V)
		s.A.SetBase()
		if s.IPProof != nil {
			scribble(t, s.IPProof)
		}
	case *innerproduct.Proof:
		scribble(t, s.L)
		scribble(t, s.R)
		s.A.SetZero()
	case *mlsag.Signature:
		scribble(t, s.Msg)
		for i := range s.PubKeys {
			s.PubKeys[i].AddPubKey(s.PubKeys[i].OutputKey())
			s.PubKeys[i] = mlsag.PubKeys{}
		}
	case *blsag.RingSignature:
		scribble(t, s.S)
		scribble(t, s.PubKeys)
	case *mlsag.PubKeys:
		s.AddPubKey(pt{})
	case *bls.Apk: // what its own operations do to it
		if s.PublicKey != nil {
			_ = s.Unmarshal(g2Bytes(big.NewInt(76)))
			_ = s.Aggregate(t.pkOf(big.NewInt(5)))
		}
	case *bls.PublicKey:
		_ = s.Unmarshal(g2Bytes(big.NewInt(77)))
	case *bls.Signature:
		func() {
			defer func() { _ = recover() }() // nothing was decoded into it
			s.Aggregate(t.sigOf(big.NewInt(5)))
		}()
		_ = s.Unmarshal(g1Bytes(big.NewInt(78)))
	case *bls.UnsafeSignature:
		_ = s.Unmarshal(g1Bytes(big.NewInt(79)))
	case *pedersen.Pedersen:
		scribble(t, s.BaseVector.Bases)
		scribble(t, s.GenData)
		s.BaseVector.Compute(2)
	case *generator.Generator:
		scribble(t, s.Bases)
		s.Compute(1)
	case *merkletree.Tree:
		scribble(t, s.MerkleRoot)
		for _, l := range s.Leaves {
			scribble(t, l.Hash)
		}
	case *bool, bool, nil, error, *sc, *pt, sc, pt, uint32, *merkletree.Node, *mlsag.DualKey, *bls.SecretKey, *bn256.G2, []*bn256.G2, *pay:
	default:
		panic(fmt.Sprintf("scribble: %T", x))
	}
}

// memOp watches one operation. in are the inputs (slices, pointers); run
// performs it and returns its results. When shares is set the operation returns
// parts of its inputs. det: running it again on the same inputs gives the same.
func (t *T) memOp(name string, in []any, det, shares bool, run func() []any) {
	before := dumpAll(in)
	cmp := func(when string) bool {
		after := dumpAll(in)
		for i := range in {
			if after[i] != before[i] {
				t.Violate("%s changes its input %d (%T) or the memory behind it (%s)", name, i, in[i], when)
				return false
			}
		}
		return true
	}
	r1 := run()
	if !cmp("first run") {
		return
	}
	d1 := dumpRes(r1)
	r2 := run()
	d2 := dumpRes(r2)
	if !cmp("second run") {
		return
	}
	if det {
		for i := range d1 {
			t.Check(len(d2) == len(d1) && d1[i] == d2[i], "%s gives another result the second time (result %d)", name, i)
		}
	}
	same := func(r []any, d []string, what string) {
		now := dumpRes(r)
		for i := range r {
			t.Check(now[i] == d[i], "%s: result %d (%T) changes when %s", name, i, r[i], what)
		}
	}
	same(r1, d1, "the operation is run again")
	t.Seen(name, strings.Join(before, "|"))
	if shares {
		return
	}
	// the caller changes the first result
	for i := range r1 {
		scribble(t, r1[i])
	}
	if !cmp("after a change of the result") {
		return
	}
	same(r2, d2, "the caller changes another result")
	r3 := run()
	d3 := dumpRes(r3)
	if det {
		for i := range d3 {
			t.Check(d3[i] == d2[i], "%s gives another result after the caller changed an earlier one (result %d)", name, i)
		}
	}
	// the caller changes its inputs
	for i := range in {
		scribble(t, in[i])
	}
	same(r2, d2, "the caller changes the inputs afterwards")
	same(r3, d3, "the caller changes the inputs afterwards")
}

// spare returns a copy of b with random spare capacity behind it.
func (t *T) spare(b []byte) []byte {
	n := 1 + t.IntN(200)
	f := append(append([]byte{}, b...), t.Bytes(n)...)
	return f[: len(b) : len(b)+n]
}

func (t *T) spareS(b []sc) []sc {
	f := append([]sc{}, b...)
	for i := 0; i < 18; i++ {
		f = append(f, t.RandScalar())
	}
	return f[:len(b):len(f)]
}

func (t *T) spareP(b []pt) []pt {
	f := append([]pt{}, b...)
	for i := 0; i < 4; i++ {
		f = append(f, t.RandPoint())
	}
	return f[:len(b):len(f)]
}

func errStr(err error) any {
	if err != nil {
		return []byte(err.Error())
	}
	return nil
}

func memBLS(t *T) {
	for i := 0; i < t.N(5, 40); i++ {
		t.Case(fmt.Sprintf("bls operations %d", i), func() {
			// every operation gets inputs of its own, as they are changed afterwards
			type env struct {
				ks  []*bkey
				msg []byte
				sig []*bls.Signature
				us  []*bls.UnsafeSignature
				apk []*bls.Apk
			}
			mk := func() *env {
				e := &env{msg: t.spare(t.Msg())}
				e.ks = t.bkeys(3)
				for k := range e.ks {
					s, err := bls.Sign(e.ks[k].sk, e.ks[k].pk, e.msg)
					t.Check(err == nil, "%v", err)
					u, err := bls.UnsafeSign(e.ks[k].sk, append([]byte{byte(k)}, e.msg...))
					t.Check(err == nil, "%v", err)
					e.sig, e.us = append(e.sig, s), append(e.us, u)
					e.apk = append(e.apk, bls.NewApk(e.ks[k].pk))
				}
				return e
			}
			e := mk()
			t.memOp("Sign", []any{e.ks[0].sk, e.ks[0].pk, e.msg}, true, false, func() []any {
				s, err := bls.Sign(e.ks[0].sk, e.ks[0].pk, e.msg)
				return []any{s, errStr(err)}
			})
			e = mk()
			t.memOp("UnsafeSign", []any{e.ks[0].sk, e.msg}, true, false, func() []any {
				s, err := bls.UnsafeSign(e.ks[0].sk, e.msg)
				return []any{s, errStr(err)}
			})
			e = mk()
			t.memOp("Verify", []any{e.apk[0], e.msg, e.sig[0]}, true, false, func() []any {
				return []any{errStr(bls.Verify(e.apk[0], e.msg, e.sig[0]))}
			})
			e = mk()
			t.memOp("Verify of a wrong signature", []any{e.apk[0], e.msg, e.sig[1]}, true, false, func() []any {
				return []any{errStr(bls.Verify(e.apk[0], e.msg, e.sig[1]))}
			})
			e = mk()
			um := t.spare(append([]byte{1}, e.msg...))
			t.memOp("VerifyUnsafe", []any{e.ks[1].pk, um, e.us[1]}, true, false, func() []any {
				return []any{errStr(bls.VerifyUnsafe(e.ks[1].pk, um, e.us[1]))}
			})
			e = mk()
			apks := append(make([]*bls.Apk, 0, 8), e.apk...)
			msgs := append(make([][]byte, 0, 8), t.spare([]byte{0}), t.spare([]byte{1}), t.spare([]byte{2}))
			t.memOp("VerifyBatch", []any{apks, msgs, e.sig[0], e.apk[0], e.apk[1], e.apk[2]}, true, false, func() []any {
				return []any{errStr(bls.VerifyBatch(apks, msgs, e.sig[0]))}
			})
			e = mk()
			pks := append(make([]*bls.PublicKey, 0, 8), e.ks[0].pk, e.ks[1].pk, e.ks[2].pk)
			sum, err := bls.UnsafeBatch(e.us...)
			t.Check(err == nil, "%v", err)
			umsgs := append(make([][]byte, 0, 8), t.spare(append([]byte{0}, e.msg...)), t.spare(append([]byte{1}, e.msg...)), t.spare(append([]byte{2}, e.msg...)))
			t.memOp("VerifyUnsafeBatch", []any{pks, umsgs, sum, e.ks[0].pk, e.ks[1].pk, e.ks[2].pk}, true, false, func() []any {
				return []any{errStr(bls.VerifyUnsafeBatch(pks, umsgs, sum))}
			})
			e = mk()
			var g2s []*bn256.G2
			for k := range e.ks {
				g2s = append(g2s, new(bn256.G2).ScalarBaseMult(e.ks[k].x))
			}
			sum, _ = bls.UnsafeBatch(e.us...)
			comp := t.spare(sum.Compress())
			umsgs = append(make([][]byte, 0, 8), t.spare(append([]byte{0}, e.msg...)), t.spare(append([]byte{1}, e.msg...)), t.spare(append([]byte{2}, e.msg...)))
			t.memOp("VerifyCompressed", []any{g2s, umsgs, comp}, true, false, func() []any {
				return []any{errStr(bls.VerifyCompressed(g2s, umsgs, comp, true)), errStr(bls.VerifyCompressed(g2s, umsgs, comp, false))}
			})
			e = mk()
			t.memOp("NewApk", []any{e.ks[0].pk}, true, false, func() []any { return []any{bls.NewApk(e.ks[0].pk)} })
			e = mk()
			pks = append(make([]*bls.PublicKey, 0, 8), e.ks[0].pk, e.ks[1].pk, e.ks[0].pk)
			t.memOp("AggregateApk", []any{pks, e.ks[0].pk, e.ks[1].pk}, true, false, func() []any {
				a, err := bls.AggregateApk(pks)
				return []any{a, errStr(err)}
			})
			e = mk()
			pks1 := []*bls.PublicKey{e.ks[2].pk}
			t.memOp("AggregateApk of one key", []any{pks1, e.ks[2].pk}, true, false, func() []any {
				a, err := bls.AggregateApk(pks1)
				return []any{a, errStr(err)}
			})
			e = mk()
			t.memOp("Apk.Copy", []any{e.apk[0]}, true, false, func() []any { return []any{e.apk[0].Copy()} })
			e = mk()
			t.memOp("Signature.Copy", []any{e.sig[0]}, true, false, func() []any { return []any{e.sig[0].Copy()} })
			e = mk()
			t.memOp("PublicKey.Aggregate", []any{e.ks[0].pk, e.ks[1].pk}, true, false, func() []any { return []any{e.ks[0].pk.Aggregate(e.ks[1].pk)} })
			e = mk()
			t.memOp("PublicKey.Aggregate with itself", []any{e.ks[0].pk}, true, false, func() []any { return []any{e.ks[0].pk.Aggregate(e.ks[0].pk)} })
			e = mk()
			t.memOp("UnsafeAggregate", []any{e.us[0], e.us[1]}, true, false, func() []any { return []any{bls.UnsafeAggregate(e.us[0], e.us[1])} })
			e = mk()
			t.memOp("UnsafeAggregate with itself", []any{e.us[0]}, true, false, func() []any { return []any{bls.UnsafeAggregate(e.us[0], e.us[0])} })
			for n := 1; n <= 3; n++ {
				e = mk()
				us := append(make([]*bls.UnsafeSignature, 0, 8), e.us[:n]...)
				in := []any{us}
				for k := 0; k < n; k++ {
					in = append(in, e.us[k])
				}
				t.memOp(fmt.Sprintf("UnsafeBatch of %d", n), in, true, false, func() []any {
					s, err := bls.UnsafeBatch(us...)
					return []any{s, errStr(err)}
				})
			}
			e = mk()
			t.memOp("PublicKey.Marshal", []any{e.ks[0].pk}, true, false, func() []any {
				x, err := e.ks[0].pk.MarshalText()
				return []any{e.ks[0].pk.Marshal(), x, errStr(err)}
			})
			e = mk()
			t.memOp("Apk.Marshal", []any{e.apk[0]}, true, false, func() []any { return []any{e.apk[0].Marshal()} })
			t.memOp("Signature.Marshal", []any{e.sig[0]}, true, false, func() []any { return []any{e.sig[0].Marshal(), e.sig[0].Compress()} })
			t.memOp("UnsafeSignature.Marshal", []any{e.us[0]}, true, false, func() []any { return []any{e.us[0].Marshal(), e.us[0].Compress()} })
			// decoding
			e = mk()
			flip := func(b []byte) []byte {
				if t.IntN(3) == 0 && len(b) > 0 {
					b[t.IntN(len(b))] ^= 1 << t.IntN(8)
				}
				return t.spare(b)
			}
			b := flip(e.ks[0].pk.Marshal())
			t.memOp("UnmarshalPk", []any{b}, true, false, func() []any { p, err := bls.UnmarshalPk(b); return []any{p, errStr(err)} })
			b2 := flip(e.apk[0].Marshal())
			t.memOp("UnmarshalApk", []any{b2}, true, false, func() []any { p, err := bls.UnmarshalApk(b2); return []any{p, errStr(err)} })
			tx, _ := e.ks[0].pk.MarshalText()
			b3 := flip(tx)
			t.memOp("UnmarshalText", []any{b3}, true, false, func() []any {
				p := &bls.PublicKey{}
				err := p.UnmarshalText(b3)
				return []any{p, errStr(err)}
			})
			b4 := flip(e.sig[0].Marshal())
			t.memOp("UnmarshalSignature", []any{b4}, true, false, func() []any { p, err := bls.UnmarshalSignature(b4); return []any{p, errStr(err)} })
			b5 := flip(e.sig[0].Compress())
			t.memOp("Decompress", []any{b5}, true, false, func() []any {
				p, u := &bls.Signature{}, &bls.UnsafeSignature{}
				err := p.Decompress(b5)
				err2 := u.Decompress(b5)
				return []any{p, u, errStr(err), errStr(err2)}
			})
			b6 := flip(e.us[0].Marshal())
			t.memOp("UnsafeSignature.Unmarshal", []any{b6}, true, false, func() []any {
				u := &bls.UnsafeSignature{}
				err := u.Unmarshal(b6)
				return []any{u, errStr(err)}
			})
			// operations that change their receiver change nothing else
			e = mk()
			t.memOp("Apk.Aggregate", []any{e.ks[1].pk, e.ks[2].pk, e.apk[0]}, true, false, func() []any {
				a := e.apk[0].Copy()
				err := a.Aggregate(e.ks[1].pk)
				err2 := a.AggregateBytes(t.spare(e.ks[2].pk.Marshal()))
				return []any{a, errStr(err), errStr(err2)}
			})
			e = mk()
			pb := t.spare(e.ks[2].pk.Marshal())
			t.memOp("Apk.AggregateBytes", []any{pb, e.apk[0]}, true, false, func() []any {
				a := e.apk[0].Copy()
				err := a.AggregateBytes(pb)
				return []any{a, errStr(err)}
			})
			e = mk()
			t.memOp("Signature.Aggregate", []any{e.sig[0], e.sig[1]}, true, false, func() []any {
				a := e.sig[0].Copy()
				r := a.Aggregate(e.sig[1])
				t.Check(r == a || bytes.Equal(r.Marshal(), a.Marshal()), "Signature.Aggregate returns another signature than its receiver")
				return []any{a}
			})
			e = mk()
			sb := t.spare(e.sig[1].Marshal())
			t.memOp("Signature.AggregateBytes", []any{e.sig[0], sb}, true, false, func() []any {
				a := e.sig[0].Copy()
				err := a.AggregateBytes(sb)
				return []any{a, errStr(err)}
			})
			e = mk()
			t.memOp("Signature.Add", []any{e.sig[0], e.ks[1].pk, e.us[1]}, true, false, func() []any {
				a := e.sig[0].Copy()
				err := a.Add(e.ks[1].pk, e.us[1])
				return []any{a, errStr(err)}
			})
			// keys generated from given bytes
			rnd := t.spare(t.Bytes(400))
			t.memOp("GenKeyPair", []any{rnd}, false, false, func() []any {
				pk, sk, err := bls.GenKeyPair(&listReader{first: rnd, rest: newDRBG(i)})
				return []any{pk, sk, errStr(err)}
			})
		})
	}
	t.Sample("33 operations on keys, signatures, messages and encodings")
}

func memRing(t *T) {
	for i := 0; i < t.N(16, 120); i++ {
		t.Case(fmt.Sprintf("ring operations %d", i), func() {
			n := t.IntN(7)
			sk := t.NonZeroScalar()
			msg := t.spare(t.Msg())
			mix := t.spareP(t.decoys(n, mulBase(sk)))
			t.memOp("blsag.Sign", []any{msg, mix, &sk}, false, false, func() []any {
				s := blsag.Sign(msg, mix, sk)
				return []any{&s}
			})
			msg = t.spare(t.Msg())
			mix = t.spareP(t.decoys(n, mulBase(sk)))
			s := blsag.Sign(msg, mix, sk)
			s.S, s.PubKeys = t.spareS(s.S), t.spareP(s.PubKeys)
			if t.IntN(2) == 0 {
				s.C = t.RandScalar()
			}
			t.memOp("blsag.Verify", []any{msg, &s}, true, false, func() []any { return []any{blsag.Verify(msg, s)} })

			// mlsag
			ring := t.dualRing(n)
			var held []mlsag.PubKeys
			for _, v := range ring {
				held = append(held, libPubKeys(v))
			}
			x, y := t.NonZeroScalar(), t.NonZeroScalar()
			msg = t.spare(t.Msg())
			prove := func() (*mlsag.Signature, pt, *mlsag.DualKey) {
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(x)
				d.SetCommToZero(y)
				d.SetMsg(msg)
				d.AddDecoys(held)
				d.SubCommToZero(t.RandPoint())
				sig, im, err := d.Prove()
				t.Check(err == nil, "%v", err)
				return sig, im, d
			}
			in := []any{msg, &x, &y}
			for k := range held {
				in = append(in, &held[k])
			}
			t.memOp("mlsag prover", in, false, false, func() []any {
				sig, im, _ := prove()
				return []any{sig, &im}
			})
			held = nil
			for _, v := range t.dualRing(n) {
				held = append(held, libPubKeys(v))
			}
			msg = t.spare(t.Msg())
			sig, im, d := prove()
			images := t.spareP([]pt{im})
			if t.IntN(2) == 0 {
				images[0] = t.RandPoint()
			}
			t.memOp("mlsag Verify", []any{sig, images, d}, true, false, func() []any {
				ok, err := sig.Verify(images)
				return []any{ok, errStr(err)}
			})
			sig, _, d = prove()
			sig2, _, _ := prove()
			t.memOp("mlsag Encode and Equals", []any{sig, sig2, d}, true, false, func() []any {
				a, err := encSig(sig, true)
				b, err2 := encSig(sig, false)
				return []any{a, b, errStr(err), errStr(err2), sig.Equals(*sig2, true), sig.Equals(*sig, true), sig.Equals(*sig2, false)}
			})
			enc, _ := encSig(sig2, true)
			eb := t.spare(enc)
			t.memOp("mlsag Decode", []any{eb}, true, false, func() []any {
				o := &mlsag.Signature{}
				err := o.Decode(bytes.NewReader(eb), true)
				return []any{o, errStr(err)}
			})
			priv, pub := t.NonZeroScalar(), t.RandPoint()
			t.memOp("CalculateKeyImage", []any{&priv, &pub}, true, false, func() []any {
				p := mlsag.CalculateKeyImage(priv, pub)
				return []any{&p}
			})
			// the message given to a prover is the one at the time
			d2 := mlsag.NewDualKey()
			d2.SetPrimaryKey(x)
			d2.SetCommToZero(y)
			given := t.spare(t.Bytes(1 + t.IntN(50)))
			want := append([]byte{}, given...)
			d2.SetMsg(given)
			scribble(t, given)
			sg, _, err := d2.Prove()
			t.Check(err == nil && bytes.Equal(sg.Msg, want), "the message of a prover changes with the caller's slice")
			t.Seen("message", want)
		})
	}
	t.Sample("ring signing, proving, verifying, encoding, comparing")
}

func memProof(t *T) {
	for i := 0; i < t.N(3, 24); i++ {
		t.Case(fmt.Sprintf("range proof operations %d", i), func() {
			m := []int{1, 2, 3, 5}[(i+t.Shard)%4]
			v := t.spareS(scalars(t.values(m)))
			t.memOp("rangeproof.Prove", []any{v}, false, false, func() []any {
				p, err := rangeproof.Prove(v, t.IntN(2) == 0)
				return []any{&p, errStr(err)}
			})
			v = t.spareS(scalars(t.values(m)))
			v[t.IntN(m)] = scBig(t.badValue())
			t.memOp("rangeproof.Prove out of range", []any{v}, false, false, func() []any {
				p, err := rangeproof.Prove(v, t.IntN(2) == 0)
				return []any{&p, errStr(err)}
			})
			v = t.spareS(scalars(t.values(m)))
			mk := func() rangeproof.Proof {
				p, err := rangeproof.Prove(v, false)
				t.Check(err == nil, "%v", err)
				if err == nil {
					p.V = append(append(make([]pedersen.Commitment, 0, 20), p.V...), p.V...)[:len(p.V):20]
					p.IPProof.L, p.IPProof.R = t.spareP(p.IPProof.L), t.spareP(p.IPProof.R)
				}
				return p
			}
			p := mk()
			t.memOp("rangeproof.Verify", []any{&p}, true, false, func() []any {
				ok, err := rangeproof.Verify(p)
				return []any{ok, errStr(err)}
			})
			p = mk()
			p.A = t.RandPoint()
			t.memOp("rangeproof.Verify of a wrong proof", []any{&p}, true, false, func() []any {
				ok, err := rangeproof.Verify(p)
				return []any{ok, errStr(err)}
			})
			p = mk()
			p2 := mk()
			t.memOp("rangeproof Encode and Equals", []any{&p, &p2}, true, false, func() []any {
				a, err := encRP(&p, true)
				b, err2 := encRP(&p, false)
				return []any{a, b, errStr(err), errStr(err2), p.Equals(p2, true), p.Equals(p, true)}
			})
			enc, _ := encRP(&p2, true)
			eb := t.spare(enc)
			t.memOp("rangeproof Decode", []any{eb}, true, false, func() []any {
				o := &rangeproof.Proof{}
				err := o.Decode(bytes.NewReader(eb), true)
				return []any{o, errStr(err)}
			})
		})
	}
	t.Sample("proving, verifying, encoding, decoding, comparing of 1 to 5 values")
}

func memParts(t *T) {
	for i := 0; i < t.N(40, 300); i++ {
		t.Case(fmt.Sprintf("vectors, commitments and inner products %d", i), func() {
			n := 1 << t.IntN(4)
			if t.IntN(3) == 0 {
				n = t.IntN(12)
			}
			var a, b []sc
			var ps []pt
			var s sc
			fill := func() {
				a, b, s = t.spareS(t.edgeScalars(n)), t.spareS(t.edgeScalars(n)), t.EdgeScalar()
				var raw []pt
				for k := 0; k < n; k++ {
					raw = append(raw, t.RandPoint())
				}
				ps = t.spareP(raw)
			}
			two := func(name string, f func(a, b []sc) ([]sc, error)) {
				fill()
				t.memOp("vector."+name, []any{a, b}, true, false, func() []any { r, err := f(a, b); return []any{r, errStr(err)} })
			}
			two("Add", vector.Add)
			two("Sub", vector.Sub)
			two("Hadamard", vector.Hadamard)
			one := func(name string, f func(a []sc, b sc) []sc) {
				fill()
				t.memOp("vector."+name, []any{a, &s}, true, false, func() []any { return []any{f(a, s)} })
			}
			one("AddScalar", vector.AddScalar)
			one("SubScalar", vector.SubScalar)
			one("MulScalar", vector.MulScalar)
			fill()
			t.memOp("vector.Neg", []any{a}, true, false, func() []any { return []any{vector.Neg(a)} })
			fill()
			t.memOp("vector.InnerProduct", []any{a, b}, true, false, func() []any { r, err := vector.InnerProduct(a, b); return []any{&r, errStr(err)} })
			fill()
			t.memOp("vector.Exp", []any{a, ps}, true, false, func() []any { r, err := vector.Exp(a, ps, n, 1); return []any{&r, errStr(err)} })
			fill()
			t.memOp("vector.Split", []any{a, ps}, true, true, func() []any {
				l, r, err := vector.SplitScalars(a, uint32(n/2))
				p, q, err2 := vector.SplitPoints(ps, uint32(n/2))
				return []any{l, r, p, q, errStr(err), errStr(err2)}
			})
			fill()
			t.memOp("vector powers", []any{&s}, true, false, func() []any {
				r := vector.ScalarPowersSum(s, uint64(n))
				return []any{vector.ScalarPowers(s, uint32(n)), vector.FromScalar(s, uint32(n)), &r}
			})
			v := t.value()
			vb := new(big.Int).Set(v)
			bc := rangeproof.BitCommit(vb)
			_ = bc.Debug(vb)
			t.Check(vb.Cmp(v) == 0, "BitCommit changes its value")
			t.Seen("bits", v)

			// generators and commitments
			data := t.spare(t.Bytes(t.IntN(40)))
			t.memOp("generators", []any{data}, true, false, func() []any {
				g := generator.New(data)
				g.Compute(4)
				return []any{append([]pt{}, g.Bases...)}
			})
			data = t.spare(t.Bytes(1 + t.IntN(40)))
			want := refGens(append([]byte{}, data...), 6)
			want2 := refGens(append(append([]byte{}, data...), 1), 2)
			g := generator.New(data)
			ped := pedersen.New(data)
			scribble(t, data)
			g.Compute(6)
			for k := range want {
				t.Check(sameP(g.Bases[k], want[k]), "the generators change when the caller changes the data they were made from")
			}
			vec := [][]sc{t.spareS(t.edgeScalars(2)), t.spareS(t.edgeScalars(2))}
			t.memOp("CommitToVectors", []any{vec}, false, false, func() []any {
				c := ped.CommitToVectors(vec...)
				p := mulBase(c.BlindingFactor)
				for k := 0; k < 2; k++ {
					p = add(p, add(mul(want[k], vec[0][k]), mul(want2[k], vec[1][k])))
				}
				t.Check(sameP(p, c.Value), "a commitment depends on what the caller did with the data of the generators")
				return []any{&c.Value}
			})
			ped.GenData = t.spare(ped.GenData)
			vec = [][]sc{t.spareS(t.edgeScalars(2)), t.spareS(t.edgeScalars(2)), t.spareS(t.edgeScalars(1))}
			t.memOp("CommitToVectors with memory behind the data", []any{vec, ped.GenData}, false, false, func() []any {
				c := ped.CommitToVectors(vec...)
				return []any{&c.Value, &c.BlindingFactor}
			})
			// transcripts
			one1, two2 := t.spare(t.Bytes(1+t.IntN(70))), t.spare(t.Bytes(t.IntN(70)))
			t.memOp("transcript", []any{one1, two2}, true, false, func() []any {
				h := &fiatshamir.HashCacher{}
				h.Append(one1)
				h.Append(two2, one1)
				k := &fiatshamir.HashCacher{Cache: []byte{}}
				k.Append(one1, two2)
				d, e := h.Derive(), k.Derive()
				return []any{h.Result(), k.Result(), &d, &e}
			})
			one1 = t.spare(t.Bytes(1 + t.IntN(70)))
			t.memOp("cleared transcript", []any{one1}, true, false, func() []any {
				h := &fiatshamir.HashCacher{}
				h.Append([]byte("before"))
				h.Clear()
				h.Append(one1)
				d := h.Derive()
				return []any{&d, h.Result()}
			})
			x := t.EdgeScalar()
			ped = pedersen.New([]byte("x"))
			t.memOp("CommitToScalar", []any{&x, ped}, false, false, func() []any {
				c := ped.CommitToScalar(x)
				return []any{&c.Value}
			})
			comms := []pedersen.Commitment{ped.CommitToScalar(x), ped.CommitToScalar(x)}
			comms = append(comms, comms...)[:2]
			t.memOp("EncodeCommitments", []any{comms}, true, false, func() []any {
				var w bytes.Buffer
				err := pedersen.EncodeCommitments(&w, comms)
				return []any{w.Bytes(), errStr(err), comms[0].Equals(comms[1]), comms[0].EqualValue(comms[1])}
			})
			// inner products
			if n >= 1 && n&(n-1) == 0 {
				mk := func() ippCase {
					ic := t.ippCase(n)
					ic.G, ic.H, ic.a, ic.b, ic.f = t.spareP(ic.G), t.spareP(ic.H), t.spareS(ic.a), t.spareS(ic.b), t.spareS(ic.f)
					return ic
				}
				ic := mk()
				t.memOp("innerproduct.Generate", []any{ic.G, ic.H, ic.a, ic.b, ic.f, &ic.Q}, true, false, func() []any {
					p, err := innerproduct.Generate(ic.G, ic.H, ic.a, ic.b, ic.f, ic.Q)
					return []any{p, errStr(err)}
				})
				ic = mk()
				p, err := innerproduct.Generate(ic.G, ic.H, ic.a, ic.b, ic.f, ic.Q)
				if t.Check(err == nil, "%v", err) {
					p.L, p.R = t.spareP(p.L), t.spareP(p.R)
					t.memOp("innerproduct Verify", []any{p, ic.G, ic.H, ic.f, &ic.Q, &ic.P}, true, false, func() []any { return []any{ic.lib(p)} })
					p, _ = innerproduct.Generate(ic.G, ic.H, t.spareS(t.edgeScalars(n)), ic.b, ic.f, ic.Q)
					t.memOp("innerproduct VerifScalars, Encode, Equals", []any{p}, true, false, func() []any {
						x, y, z := p.VerifScalars()
						var w bytes.Buffer
						err := p.Encode(&w)
						return []any{x, y, z, w.Bytes(), errStr(err), p.Equals(*p)}
					})
				}
			}
		})
	}
	t.Sample("vector operations, generators, commitments, inner products")
}

func memMisc(t *T) {
	for i := 0; i < t.N(60, 400); i++ {
		t.Case(fmt.Sprintf("digests and trees %d", i), func() {
			for _, d := range digestFns {
				in := t.spare(t.Msg())
				t.memOp(d.name, []any{in}, true, false, func() []any { r, err := d.f(in); return []any{r, errStr(err)} })
			}
			in := t.spare(t.Msg())
			t.memOp("Checksum", []any{in}, true, false, func() []any {
				c, err := hash.Checksum(in)
				return []any{c, errStr(err), hash.CompareChecksum(in, c), hash.CompareChecksum(in, c+1)}
			})
			t.memOp("RandEntropy", nil, false, false, func() []any { r, err := hash.RandEntropy(32); return []any{r, errStr(err)} })
			// trees: payloads whose hashes have spare capacity
			n := 1 + t.IntN(12)
			var hs [][]byte
			mk := func() ([]merkletree.Payload, []any) {
				hs = nil
				pl := make([]merkletree.Payload, 0, n+8)
				for k := 0; k < n; k++ {
					h := t.Bytes(32)
					hs = append(hs, h)
					pl = append(pl, &pay{h: h, buf: t.spare(h)})
				}
				in := []any{pl}
				for k := range pl {
					in = append(in, pl[k])
				}
				return pl, in
			}
			pl, ins := mk()
			t.memOp("NewTree", ins, true, false, func() []any {
				tr, err := merkletree.NewTree(pl)
				if err != nil {
					return []any{errStr(err)}
				}
				return []any{tr.MerkleRoot}
			})
			pl, ins = mk()
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			root := append([]byte{}, tr.MerkleRoot...)
			orig := append([]merkletree.Payload{}, pl...)
			t.memOp("VerifyTree, VerifyContent", append(ins, tr), true, false, func() []any {
				ok, err := merkletree.VerifyTree(tr)
				ok2, err2 := tr.VerifyContent(orig[n-1])
				ok3, err3 := tr.VerifyContent(&pay{h: []byte{1}})
				h, err4 := merkletree.VerifyNode(tr.Root)
				h2, err5 := merkletree.CalculateNodeHash(tr.Root)
				return []any{ok, ok2, ok3, h, h2, errStr(err), errStr(err2), errStr(err3), errStr(err4), errStr(err5)}
			})
			// the caller's list is its own
			pl, _ = mk()
			tr, err = merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			root = append([]byte{}, tr.MerkleRoot...)
			orig = append([]merkletree.Payload{}, pl...)
			scribble(t, pl)
			ok, err := merkletree.VerifyTree(tr)
			t.Check(ok && err == nil && bytes.Equal(root, tr.MerkleRoot), "a tree changes when the caller changes its list of payloads")
			t.Check(tr.RebuildTree() == nil && bytes.Equal(root, tr.MerkleRoot), "rebuilding uses the caller's list instead of the tree's payloads")
			pl2, ins2 := mk()
			before := dumpAll(ins2)
			t.Check(tr.RebuildTreeUsing(pl2) == nil, "rebuilding fails")
			after := dumpAll(ins2)
			for k := range before {
				t.Check(before[k] == after[k], "RebuildTreeUsing changes its input or the memory behind it")
			}
			want := refRoot(hs)
			scribble(t, pl2)
			t.Check(bytes.Equal(want, tr.MerkleRoot), "a rebuilt tree has another root")
			for _, o := range orig { // the hashes held by a replaced tree
				scribble(t, o.(*pay).buf)
			}
			ok, err = merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "a rebuilt tree depends on the payloads it had before")
			t.Seen("tree", root)
		})
	}
	t.Sample("digests, checksums, entropy, trees")
	_ = ristretto.Scalar{}
}

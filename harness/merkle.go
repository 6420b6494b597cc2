package main

import (
	"bytes"
	"crypto/sha3"
	"errors"
	"fmt"

	"github.com/dusk-network/dusk-crypto/merkletree"
)

func init() {
	props["C23"] = []string{"mt.build", "mt.bind"}
	props["C24"] = []string{"mt.tamper", "mt.lookup", "mt.errors"}
	unit("mt.errors", "one payload, leaf or looked up, whose hashing fails, at every place and for every operation; and payloads of types that cannot be compared; distinct = (size, place, operation)", 4, 16, mtErrors)
	props["C25"] = []string{"mt.fault"}
	unit("mt.build", "trees of every size 1..70 and larger ones, payload hashes of several lengths, repeated payloads and payloads that reuse the memory of their hash; root and every node compared with the independent pairing rule; rebuilds compared with new trees; distinct = (payload hashes)", 8, 32, mtBuild)
	unit("mt.bind", "pairs of payload lists that differ by one change, swap, insertion, removal or rotation have different roots; distinct = (list, difference)", 4, 16, mtBind)
	unit("mt.tamper", "every leaf, every pair of leaves and the reported root of trees of sizes 1..20 tampered with, and trees damaged in several places; distinct = (size, place, change)", 4, 16, mtTamper)
	unit("mt.lookup", "every payload looked up in intact trees and in trees in which the stored hash of one inner node or one payload was changed, next to a path oracle; distinct = (size, payload, node)", 8, 32, mtLookup)
	unit("mt.fault", "payload hashing failing at every call of every operation, whole-tree snapshots before and after; distinct = (operation, size, call)", 8, 32, mtFault)
}

var errPayload = errors.New("payload failure")

// pay is a payload under the control of the harness.
type pay struct {
	h     []byte
	fail  bool
	calls *int // shared counter
	at    *int // fails when the counter reaches this (0: never)
	buf   []byte
	pool  *[]byte // hashes are returned in this shared memory
}

func (p *pay) CalculateHash() ([]byte, error) {
	if p.calls != nil {
		*p.calls++
		if p.at != nil && *p.at == *p.calls {
			return nil, errPayload
		}
	}
	if p.fail {
		return nil, errPayload
	}
	if p.pool != nil {
		*p.pool = append((*p.pool)[:0], p.h...)
		return *p.pool, nil
	}
	if p.buf != nil { // spare capacity behind the hash
		return p.buf[:len(p.h)], nil
	}
	return append([]byte{}, p.h...), nil
}

// sliceBag is a payload of a type which == cannot compare.
type sliceBag []byte

func (p sliceBag) CalculateHash() ([]byte, error) {
	if len(p) > 0 && p[0] == 0xee {
		return nil, errPayload
	}
	return mtHash(p), nil
}

// valuePay is a comparable payload held by value.
type valuePay struct{ n, m int }

func (p valuePay) CalculateHash() ([]byte, error) { return mtHash([]byte(fmt.Sprint(p.n))), nil }

// mtErrors gives every operation a payload that fails, and payloads of unusual types.
func mtErrors(t *T) {
	for i := 0; i < t.N(40, 300); i++ {
		n := 1 + (i*4+t.Shard)%t.N(40, 70)
		t.Case(fmt.Sprintf("errors in a tree of %d payloads", n), func() {
			h := make([][]byte, n)
			for k := range h {
				h[k] = t.Bytes(32)
			}
			pl := payloads(h)
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			// what is looked up
			ok, err := tr.VerifyContent(&pay{fail: true})
			t.Check(!ok && err != nil, "looking up a payload whose hashing fails: %v, %v", ok, err)
			for k := range pl {
				bad := pl[k].(*pay)
				bad.fail = true
				what := fmt.Sprintf("with payload %d of %d failing", k, n)
				tr2, err := merkletree.NewTree(pl)
				t.Check(tr2 == nil && err != nil, "building %s: %v", what, err)
				ok, err = merkletree.VerifyTree(tr)
				t.Check(!ok && err != nil, "verification %s: %v, %v", what, ok, err)
				ok, err = tr.VerifyContent(bad)
				t.Check(!ok && err != nil, "lookup of it %s: %v, %v", what, ok, err)
				leaf := tr.Leaves[k]
				_, err = merkletree.VerifyNode(leaf)
				t.Check(err != nil, "VerifyNode of its leaf %s reports no error", what)
				_, err = merkletree.CalculateNodeHash(leaf)
				t.Check(err != nil, "CalculateNodeHash of its leaf %s reports no error", what)
				_, err = merkletree.VerifyNode(leaf.Parent)
				t.Check(err != nil, "VerifyNode of its parent %s reports no error", what)
				bad.fail = false
				t.Seen("failing", n, k)
			}
		})
		t.Case(fmt.Sprintf("a tree of %d payloads that cannot be compared", n), func() {
			var pl []merkletree.Payload
			var h [][]byte
			for k := 0; k < n; k++ {
				b := append([]byte{1}, t.Bytes(t.IntN(9))...)
				switch t.IntN(6) {
				case 0:
					b = append([]byte{}, b[:1]...)
				case 1:
					pl = append(pl, valuePay{k % 3, k})
					h = append(h, mtHash([]byte(fmt.Sprint(k%3))))
					continue
				}
				pl = append(pl, sliceBag(b))
				h = append(h, mtHash(b))
			}
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			t.Check(bytes.Equal(tr.MerkleRoot, refRoot(h)), "the root of payloads of other types is wrong")
			ok, err := merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "verification: %v, %v", ok, err)
			for k := range pl {
				t.NoPanic("VerifyContent", func() { ok, err = tr.VerifyContent(pl[k]) })
				t.Check(ok && err == nil, "payload %d of %d: %v, %v", k, n, ok, err)
				// equality is that of the hashes, whatever the type
				t.NoPanic("VerifyContent", func() { ok, err = tr.VerifyContent(&pay{h: h[k]}) })
				t.Check(ok && err == nil, "payload with the hash of number %d of %d: %v, %v", k, n, ok, err)
			}
			t.NoPanic("VerifyContent", func() { ok, err = tr.VerifyContent(sliceBag{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}) })
			t.Check(!ok && err == nil, "an unknown payload: %v, %v", ok, err)
			t.NoPanic("VerifyContent", func() { ok, err = tr.VerifyContent(sliceBag{0xee}) })
			t.Check(!ok && err != nil, "a failing payload: %v, %v", ok, err)
			t.NoPanic("RebuildTree", func() { err = tr.RebuildTree() })
			t.Check(err == nil && bytes.Equal(tr.MerkleRoot, refRoot(h)), "rebuilt: %v", err)
			t.Seen("types", n, tr.MerkleRoot)
		})
	}
	t.Sample("failing payloads at every place")
}

func mtHash(parts ...[]byte) []byte {
	s := sha3.Sum256(bytes.Join(parts, nil))
	return s[:]
}

func refRoot(hashes [][]byte) []byte {
	l := append([][]byte{}, hashes...)
	if len(l)%2 == 1 {
		l = append(l, l[len(l)-1])
	}
	for len(l) > 1 {
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			r := l[i]
			if i+1 < len(l) {
				r = l[i+1]
			}
			n = append(n, mtHash(l[i], r))
		}
		l = n
	}
	return l[0]
}

func (t *T) payHashes(n int) [][]byte {
	size := 32
	if t.IntN(4) == 0 {
		size = []int{0, 1, 8, 20, 31, 33, 64, 136, 200}[t.IntN(9)]
	}
	var h [][]byte
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && t.IntN(10) == 0:
			h = append(h, h[t.IntN(i)])
		case t.IntN(30) == 0:
			h = append(h, make([]byte, size))
		default:
			h = append(h, t.Bytes(size))
		}
	}
	return h
}

func payloads(h [][]byte) []merkletree.Payload {
	var out []merkletree.Payload
	for i := range h {
		out = append(out, &pay{h: h[i]})
	}
	return out
}

// checkTree walks the tree and compares it with the pairing rule.
func (t *T) checkTree(tr *merkletree.Tree, pl []merkletree.Payload, h [][]byte) bool {
	n := len(h)
	want := append([][]byte{}, h...)
	if n%2 == 1 {
		want = append(want, h[n-1])
	}
	if !t.Check(tr.Root != nil && len(tr.Leaves) == len(want), "%d payloads give %d leaves", n, len(tr.Leaves)) {
		return false
	}
	root := refRoot(h)
	ok := t.Check(bytes.Equal(tr.MerkleRoot, root), "the root of %d payloads is %s, not %s", n, hx(tr.MerkleRoot), hx(root))
	ok = t.Check(bytes.Equal(tr.Root.Hash, root), "the root node's hash is not the root") && ok
	ok = t.Check(tr.Root.Parent == nil && !tr.Root.IsLeaf, "the root has a parent or is a leaf") && ok
	level := tr.Leaves
	for i, l := range level {
		k := min(i, n-1)
		ok = t.Check(l.IsLeaf && l.Left == nil && l.Right == nil, "leaf %d is no leaf", i) && ok
		ok = t.Check(l.Data == pl[k] && bytes.Equal(l.Hash, h[k]), "leaf %d of %d does not hold its payload", i, n) && ok
		ok = t.Check(l.IsDup == (i >= n), "leaf %d of %d: duplicate flag %v", i, n, l.IsDup) && ok
	}
	// go up level by level along the parents
	for depth := 0; ok && !(len(level) == 1 && level[0] == tr.Root); depth++ {
		if !t.Check(depth < 40, "the levels do not end in the root") {
			return false
		}
		var next []*merkletree.Node
		for i := 0; i < len(level); i += 2 {
			l, r := level[i], level[i]
			if i+1 < len(level) {
				r = level[i+1]
			}
			p := l.Parent
			if !t.Check(p != nil && r.Parent == p && p.Left == l && p.Right == r && !p.IsLeaf, "links of pair %d at level %d of %d payloads are wrong", i/2, depth, n) {
				return false
			}
			ok = t.Check(bytes.Equal(p.Hash, mtHash(l.Hash, r.Hash)), "hash of pair %d at level %d is wrong", i/2, depth) && ok
			next = append(next, p)
		}
		level = next
	}
	return ok
}

func mtBuild(t *T) {
	sizes := []int{}
	for n := 1 + t.Shard; n <= 70; n += t.Shards {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, []int{127, 128, 129, 255, 256, 257, 511, 1000}[t.Shard%8])
	sizes = append(sizes, []int{1023, 1024, 1025, 2049, 3000, 4095, 4097, 10001}[t.Shard%8])
	if t.Shard < 3 {
		sizes = append(sizes, []int{65537, 70002, 32769}[t.Shard])
	}
	for i := 0; i < t.N(300, 3000); i++ {
		sizes = append(sizes, 1+t.IntN(40))
	}
	for _, n := range sizes {
		h := t.payHashes(n)
		pl := payloads(h)
		t.Case(fmt.Sprintf("tree of %d payloads", n), func() {
			tr, err := merkletree.NewTree(append([]merkletree.Payload{}, pl...))
			if !t.Check(err == nil && tr != nil, "no tree for %d payloads: %v", n, err) {
				return
			}
			t.checkTree(tr, pl, h)
			ok, err := merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "an intact tree of %d payloads does not verify: %v", n, err)
			b, err := merkletree.VerifyNode(tr.Root)
			t.Check(err == nil && bytes.Equal(b, tr.MerkleRoot), "VerifyNode of the root of %d payloads is not the root: %v", n, err)
			b, err = merkletree.CalculateNodeHash(tr.Root)
			t.Check(err == nil && bytes.Equal(b, tr.MerkleRoot), "CalculateNodeHash of the root is not the root: %v", err)
			t.Seen("tree", n, tr.MerkleRoot)
			// rebuilt
			for k := 0; k < 2; k++ {
				err = tr.RebuildTree()
				t.Check(err == nil, "rebuilding fails: %v", err)
				t.checkTree(tr, pl, h)
			}
			// with payloads replaced in the leaves
			if n <= 40 {
				h2 := append([][]byte{}, h...)
				pl2 := append([]merkletree.Payload{}, pl...)
				for k := 0; k < 1+t.IntN(3); k++ {
					j := t.IntN(n)
					if k == 0 && t.IntN(2) == 0 {
						j = n - 1
					}
					h2[j] = t.Bytes(32)
					pl2[j] = &pay{h: h2[j]}
					tr.Leaves[j].Data = pl2[j]
				}
				err = tr.RebuildTree()
				t.Check(err == nil, "rebuilding fails: %v", err)
				t.checkTree(tr, pl2, h2)
				ok, err := merkletree.VerifyTree(tr)
				t.Check(ok && err == nil, "a rebuilt tree does not verify: %v", err)
				t.Seen("rebuilt", n, tr.MerkleRoot)
			}
			// from another list
			m := 1 + t.IntN(30)
			h3 := t.payHashes(m)
			pl3 := payloads(h3)
			err = tr.RebuildTreeUsing(append([]merkletree.Payload{}, pl3...))
			t.Check(err == nil, "rebuilding from another list fails: %v", err)
			t.checkTree(tr, pl3, h3)
			ok, err = merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "a tree rebuilt from another list does not verify: %v", err)
			for j := range pl3 {
				ok, err := tr.VerifyContent(pl3[j])
				t.Check(ok && err == nil, "payload %d is not found in a rebuilt tree: %v", j, err)
			}
			t.Seen("rebuilt using", m, tr.MerkleRoot)
			// payloads that use the memory of their hash again
			if n <= 40 {
				pool := make([]byte, 0, 256)
				var pp []merkletree.Payload
				for j := range h {
					pp = append(pp, &pay{h: h[j], pool: &pool})
				}
				tr, err := merkletree.NewTree(pp)
				if t.Check(err == nil, "%v", err) {
					t.Check(bytes.Equal(tr.MerkleRoot, refRoot(h)), "the root is another when payloads reuse the memory of their hashes")
					ok, err := merkletree.VerifyTree(tr)
					t.Check(ok && err == nil, "the tree does not verify when payloads reuse the memory of their hashes: %v", err)
					ok, err = tr.VerifyContent(&pay{h: append([]byte{1}, h[0]...), pool: &pool})
					t.Check(!ok && err == nil, "a payload that is not in the tree is found when payloads reuse the memory of their hashes: %v", err)
				}
			}
		})
	}
	t.Sample("sizes %v…", sizes[:6])
}

func mtBind(t *T) {
	root := func(h [][]byte) string {
		tr, err := merkletree.NewTree(payloads(h))
		if !t.Check(err == nil, "%v", err) {
			return ""
		}
		return string(tr.MerkleRoot)
	}
	for n := 1; n <= t.N(40, 70); n++ {
		var h [][]byte
		for i := 0; i < n; i++ {
			h = append(h, t.Bytes(32))
		}
		t.Case(fmt.Sprintf("roots around %d payloads", n), func() {
			r := root(h)
			diff := func(what string, l [][]byte) {
				t.Check(root(l) != r, "%s: the root of %d payloads stays the same", what, n)
				t.Seen("pair", n, what)
			}
			cl := func() [][]byte { return append([][]byte{}, h...) }
			for i := 0; i < n; i++ {
				c := cl()
				c[i] = append([]byte{}, h[i]...)
				c[i][t.IntN(32)] ^= 1 << t.IntN(8)
				diff(fmt.Sprintf("payload %d changed", i), c)
				for j := 0; j < i; j++ {
					c = cl()
					c[i], c[j] = c[j], c[i]
					diff(fmt.Sprintf("payloads %d and %d swapped", j, i), c)
				}
				if n > 1 {
					diff(fmt.Sprintf("payload %d removed", i), append(cl()[:i], h[i+1:]...))
				}
				diff(fmt.Sprintf("payload inserted at %d", i), append(append(cl()[:i], t.Bytes(32)), h[i:]...))
				if i < n-1 {
					diff(fmt.Sprintf("payload %d repeated", i), append(append(cl()[:i+1], h[i]), h[i+1:]...))
				}
			}
			diff("payload appended", append(cl(), t.Bytes(32)))
			if n%2 == 0 {
				diff("last payload repeated", append(cl(), h[n-1]))
			}
			if n > 1 {
				c := cl()
				diff("rotated", append(c[1:], h[0]))
			}
			diff("zero appended", append(cl(), make([]byte, 32)))
			t.Check(root(h) == r, "the root of the same payloads differs")
		})
	}
	t.Sample("one difference at a time, sizes 1 to 20")
}

func mtTamper(t *T) {
	for n := 1; n <= t.N(40, 70); n++ {
		h := make([][]byte, n)
		for i := range h {
			h[i] = t.Bytes(32)
		}
		pl := payloads(h)
		t.Case(fmt.Sprintf("tampering with a tree of %d payloads", n), func() {
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			broken := func(what string) {
				ok, err := merkletree.VerifyTree(tr)
				t.Check(!ok, "%s (%d payloads): the tree verifies", what, n)
				t.Check(err == nil, "%s: error %v instead of a verdict", what, err)
				t.Seen("tampered", n, what)
			}
			good := func() {
				ok, err := merkletree.VerifyTree(tr)
				t.Check(ok && err == nil, "an intact tree of %d payloads does not verify: %v", n, err)
			}
			good()
			for i := range tr.Leaves {
				old := tr.Leaves[i].Data
				b := append([]byte{}, h[min(i, n-1)]...)
				b[t.IntN(32)] ^= 1 << t.IntN(8)
				tr.Leaves[i].Data = &pay{h: b}
				broken(fmt.Sprintf("payload of leaf %d replaced", i))
				tr.Leaves[i].Data = old
				// changed in place
				p := old.(*pay)
				p.h[0] ^= 0x40
				broken(fmt.Sprintf("payload of leaf %d changed", i))
				p.h[0] ^= 0x40
				good()
				for j := 0; j < i; j++ {
					a, b := tr.Leaves[i], tr.Leaves[j]
					if bytes.Equal(a.Data.(*pay).h, b.Data.(*pay).h) {
						continue
					}
					a.Data, b.Data = b.Data, a.Data
					broken(fmt.Sprintf("payloads of leaves %d and %d swapped", j, i))
					a.Data, b.Data = b.Data, a.Data
				}
			}
			// children of inner nodes swapped, every inner node
			var walk func(nd *merkletree.Node)
			walk = func(nd *merkletree.Node) {
				if nd.IsLeaf {
					return
				}
				if nd.Left != nd.Right && !bytes.Equal(nd.Left.Hash, nd.Right.Hash) {
					nd.Left, nd.Right = nd.Right, nd.Left
					broken("children of an inner node swapped")
					nd.Left, nd.Right = nd.Right, nd.Left
				}
				walk(nd.Left)
				if nd.Right != nd.Left {
					walk(nd.Right)
				}
			}
			walk(tr.Root)
			good()
			root := tr.MerkleRoot
			for k := 0; k < 32; k++ {
				c := append([]byte{}, root...)
				c[k] ^= 1 << t.IntN(8)
				tr.MerkleRoot = c
				broken(fmt.Sprintf("byte %d of the reported root changed", k))
			}
			for _, c := range [][]byte{nil, {}, root[:31], append(append([]byte{}, root...), 0), append([]byte{0}, root...), make([]byte, 32), h[0]} {
				tr.MerkleRoot = c
				broken(fmt.Sprintf("reported root replaced by %d bytes", len(c)))
			}
			tr.MerkleRoot = root
			good()
			// a part of the tree
			if n > 2 {
				tr.Root = tr.Root.Left
				broken("the root node replaced by its child")
			}
		})
	}
	t.Sample("every leaf, pair of leaves, inner node and byte of the root")
}

func repeated(h [][]byte) bool {
	m := map[string]bool{}
	for _, x := range h {
		if m[string(x)] {
			return true
		}
		m[string(x)] = true
	}
	return false
}

func mtLookup(t *T) {
	// large trees
	for _, n := range [][]int{{100, 1100}, {257, 1025}, {513, 2050}, {300, 4099}, {129, 1500}, {1001, 255}, {700, 3000}, {65, 6001}}[t.Shard%8] {
		t.Case(fmt.Sprintf("lookups in a large tree of %d payloads", n), func() {
			h := make([][]byte, n)
			for k := range h {
				h[k] = t.Bytes(32)
			}
			pl := payloads(h)
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			for _, k := range []int{0, 1, n / 2, n - 2, n - 1, t.IntN(n), t.IntN(n)} {
				ok, err := tr.VerifyContent(&pay{h: append([]byte{}, h[k]...)})
				t.Check(ok && err == nil, "payload %d of %d is not found: %v", k, n, err)
				c := append([]byte{}, h[k]...)
				c[t.IntN(32)] ^= 1 << t.IntN(8)
				ok, err = tr.VerifyContent(&pay{h: c})
				t.Check(!ok && err == nil, "a payload close to number %d of %d is found: %v", k, n, err)
				// every node on its path, changed
				for x, up := tr.Leaves[k].Parent, 0; x != nil; x, up = x.Parent, up+1 {
					b := t.IntN(len(x.Hash))
					x.Hash[b] ^= 1
					ok, err = tr.VerifyContent(pl[k])
					t.Check(!ok && err == nil, "payload %d of %d is verified although the node %d above it was changed: %v", k, n, up, err)
					x.Hash[b] ^= 1
				}
				// its neighbour's payload, changed
				if k^1 < len(tr.Leaves) {
					l := tr.Leaves[k^1]
					d := l.Data
					l.Data = &pay{h: c}
					ok, err = tr.VerifyContent(pl[k])
					if !l.IsDup {
						t.Check(!ok && err == nil, "payload %d of %d is verified although the one beside it was changed: %v", k, n, err)
					}
					l.Data = d
					ok, err = merkletree.VerifyTree(tr)
					t.Check(ok && err == nil, "the tree of %d does not verify after the change was undone: %v", n, err)
				}
				d := tr.Leaves[k].Data
				tr.Leaves[k].Data = &pay{h: c}
				ok, err = merkletree.VerifyTree(tr)
				t.Check(!ok && err == nil, "the tree of %d verifies although payload %d was changed: %v", n, k, err)
				tr.Leaves[k].Data = d
				t.Seen("large", n, k)
			}
		})
	}
	for i := 0; i < t.N(50, 300); i++ {
		n := 1 + (i*8+t.Shard)%t.N(40, 70)
		h := make([][]byte, n)
		for k := range h {
			h[k] = t.Bytes(32)
			if i%4 == 3 && k > 0 && t.IntN(8) == 0 {
				h[k] = h[t.IntN(k)]
			}
		}
		pl := payloads(h)
		t.Case(fmt.Sprintf("lookups in a tree of %d payloads", n), func() {
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			look := func(p merkletree.Payload, want bool, what string) {
				ok, err := tr.VerifyContent(p)
				t.Check(ok == want && err == nil, "%s: found=%v, error %v (%d payloads)", what, ok, err, n)
			}
			for k := range h {
				look(pl[k], true, fmt.Sprintf("payload %d", k))
				look(&pay{h: h[k]}, true, fmt.Sprintf("payload equal to number %d", k))
				c := append([]byte{}, h[k]...)
				c[t.IntN(32)] ^= 1 << t.IntN(8)
				look(&pay{h: c}, false, fmt.Sprintf("payload close to number %d", k))
				look(&pay{h: h[k][:31]}, false, "truncated payload hash")
				look(&pay{h: append(append([]byte{}, h[k]...), 0)}, false, "extended payload hash")
				t.Seen("intact", n, k)
			}
			look(&pay{h: nil}, false, "empty payload hash")
			look(&pay{h: tr.MerkleRoot}, false, "the root as a payload")
			if n > 1 && repeated(h) {
				return // which of the equal payloads a lookup follows is not specified
			}
			// the leaf a lookup ends at, the nodes on its path and those a hash on
			// its path is computed from
			firstLeaf := func(x []byte) *merkletree.Node {
				for _, l := range tr.Leaves {
					if bytes.Equal(l.Data.(*pay).h, x) {
						return l
					}
				}
				return nil
			}
			// 1: a change has to be noticed, 2: may be noticed (the stored hash of a
			// node beside the path, which can be computed from its children instead)
			concerned := func(l *merkletree.Node) map[*merkletree.Node]int {
				m := map[*merkletree.Node]int{}
				for p := l.Parent; p != nil; p = p.Parent {
					m[p] = 1
					for _, c := range []*merkletree.Node{p.Left, p.Right} {
						if c.IsLeaf {
							m[c] = 1
							continue
						}
						if m[c] == 0 {
							m[c] = 2
						}
						for _, g := range []*merkletree.Node{c.Left, c.Right} {
							if !g.IsLeaf {
								m[g] = 1
							}
						}
					}
				}
				return m
			}
			var inner []*merkletree.Node
			seen := map[*merkletree.Node]bool{}
			var walk func(nd *merkletree.Node)
			walk = func(nd *merkletree.Node) {
				if nd.IsLeaf || seen[nd] {
					return
				}
				seen[nd] = true
				inner = append(inner, nd)
				walk(nd.Left)
				walk(nd.Right)
			}
			walk(tr.Root)
			for e, nd := range inner {
				old := nd.Hash
				nd.Hash = append([]byte{}, old...)
				nd.Hash[t.IntN(32)] ^= 1 << t.IntN(8)
				for k := range h {
					l := firstLeaf(h[k])
					switch concerned(l)[nd] {
					case 1:
						look(pl[k], false, fmt.Sprintf("payload %d although the hash of inner node %d on its path or below a node beside it was changed", k, e))
					case 2:
						_, err := tr.VerifyContent(pl[k])
						t.Check(err == nil, "%v", err)
					default:
						look(pl[k], true, fmt.Sprintf("payload %d after the hash of an unrelated node was changed", k))
					}
					t.Seen("node changed", n, e, k)
				}
				nd.Hash = old
			}
			// the payload beside it
			for e, nd := range tr.Leaves {
				old := nd.Data
				nd.Data = &pay{h: t.Bytes(32)}
				for k := range h {
					l := firstLeaf(h[k])
					if l == nil {
						look(pl[k], false, fmt.Sprintf("payload %d after it was replaced", k))
					} else if concerned(l)[nd] != 0 {
						look(pl[k], false, fmt.Sprintf("payload %d although the payload beside it (%d) was changed", k, e))
					} else {
						look(pl[k], true, fmt.Sprintf("payload %d after an unrelated payload was changed", k))
					}
					t.Seen("payload changed", n, e, k)
				}
				nd.Data = old
			}
			for k := range h {
				look(pl[k], true, fmt.Sprintf("payload %d after everything was restored", k))
			}
		})
	}
	t.Sample("every payload against every inner node and leaf")
}

type treeSnap struct {
	root   *merkletree.Node
	mroot  []byte
	leaves []*merkletree.Node
	nodes  []merkletree.Node
	hashes [][]byte
}

func snapTree(tr *merkletree.Tree) treeSnap {
	s := treeSnap{root: tr.Root, mroot: append([]byte{}, tr.MerkleRoot...), leaves: append([]*merkletree.Node{}, tr.Leaves...)}
	seen := map[*merkletree.Node]bool{}
	var walk func(nd *merkletree.Node)
	walk = func(nd *merkletree.Node) {
		if nd == nil || seen[nd] {
			return
		}
		seen[nd] = true
		s.nodes = append(s.nodes, *nd)
		s.hashes = append(s.hashes, append([]byte{}, nd.Hash...))
		walk(nd.Left)
		walk(nd.Right)
	}
	walk(tr.Root)
	return s
}

func (s treeSnap) same(o treeSnap) bool {
	if s.root != o.root || !bytes.Equal(s.mroot, o.mroot) || len(s.leaves) != len(o.leaves) || len(s.nodes) != len(o.nodes) {
		return false
	}
	for i := range s.leaves {
		if s.leaves[i] != o.leaves[i] {
			return false
		}
	}
	for i := range s.nodes {
		a, b := s.nodes[i], o.nodes[i]
		if a.Parent != b.Parent || a.Left != b.Left || a.Right != b.Right || a.Data != b.Data || a.IsLeaf != b.IsLeaf || a.IsDup != b.IsDup || !bytes.Equal(s.hashes[i], o.hashes[i]) {
			return false
		}
	}
	return true
}

func mtFault(t *T) {
	t.Case("no payloads", func() {
		for _, l := range [][]merkletree.Payload{nil, {}} {
			tr, err := merkletree.NewTree(l)
			t.Check(err != nil && tr == nil, "a tree of no payloads is built")
		}
		t.Seen("empty", 0)
	})
	for i := 0; i < t.N(60, 400); i++ {
		n := 1 + (i*8+t.Shard)%t.N(40, 70)
		t.Case(fmt.Sprintf("failing payloads, %d payloads", n), func() {
			calls, at := 0, 0
			mk := func(n int) ([]merkletree.Payload, [][]byte) {
				var h [][]byte
				var pl []merkletree.Payload
				for k := 0; k < n; k++ {
					h = append(h, t.Bytes(32))
					pl = append(pl, &pay{h: h[k], calls: &calls, at: &at})
				}
				return pl, h
			}
			pl, h := mk(n)
			// each op with a failure at its k-th hash call, until it is not reached any more
			inject := func(name string, f func() (okVerdict bool, err error), after func(what string)) {
				for k := 1; ; k++ {
					calls, at = 0, k
					ok, err := f()
					reached := calls >= k
					calls, at = 0, 0
					what := fmt.Sprintf("%s of %d payloads with a failure at hash call %d", name, n, k)
					if !reached {
						t.Check(err == nil, "%s (not reached): %v", what, err)
						t.Check(k > 1, "%s hashes no payload", name)
						return
					}
					t.Check(err != nil, "%s reports no error", what)
					t.Check(!ok, "%s gives a positive verdict", what)
					after(what)
					t.Seen(name, n, k)
					if k > 20*n+50 {
						t.Violate("%s hashes without end", name)
						return
					}
				}
			}
			inject("NewTree", func() (bool, error) {
				tr, err := merkletree.NewTree(pl)
				return err != nil && tr != nil, err
			}, func(string) {})
			tr, err := merkletree.NewTree(pl)
			if !t.Check(err == nil, "%v", err) {
				return
			}
			before := snapTree(tr)
			intact := func(what string) {
				t.Check(before.same(snapTree(tr)), "%s changes the tree", what)
			}
			intact("building")
			inject("VerifyTree", func() (bool, error) { return merkletree.VerifyTree(tr) }, intact)
			for k := range pl {
				if n > 10 && k%5 != 0 {
					continue
				}
				inject("VerifyContent", func() (bool, error) { return tr.VerifyContent(pl[k]) }, intact)
			}
			stranger := &pay{h: t.Bytes(32), calls: &calls, at: &at}
			inject("VerifyContent of a payload not in the tree", func() (bool, error) { return tr.VerifyContent(stranger) }, intact)
			inject("VerifyNode", func() (bool, error) { _, err := merkletree.VerifyNode(tr.Root); return false, err }, intact)
			failing := &pay{h: h[0], fail: true}
			ok, err := tr.VerifyContent(failing)
			t.Check(!ok && err != nil, "looking up a payload whose hash fails gives %v, %v", ok, err)
			intact("looking up a failing payload")
			// rebuilding: the tree that was there stays until it succeeds
			pl2, h2 := mk(1 + t.IntN(20))
			inject("RebuildTreeUsing", func() (bool, error) {
				c := *tr
				err := c.RebuildTreeUsing(pl2)
				if err != nil {
					t.Check(before.same(snapTree(&c)), "a failed RebuildTreeUsing changes the tree")
				}
				return false, err
			}, intact)
			inject("RebuildTree", func() (bool, error) {
				c := *tr
				err := c.RebuildTree()
				if err != nil {
					t.Check(before.same(snapTree(&c)), "a failed RebuildTree changes the tree")
				}
				return false, err
			}, func(what string) {
				intact(what)
			})
			for _, l := range [][]merkletree.Payload{nil, {}} {
				t.Check(tr.RebuildTreeUsing(l) != nil, "rebuilding from no payloads succeeds")
				intact("rebuilding from no payloads")
			}
			// a payload that always fails, at every position of the new list
			for k := range pl2 {
				l := append([]merkletree.Payload{}, pl2...)
				l[k] = failing
				t.Check(tr.RebuildTreeUsing(l) != nil, "rebuilding with failing payload %d of %d succeeds", k, len(l))
				intact("a failed rebuild")
				tr2, err := merkletree.NewTree(l)
				t.Check(tr2 == nil && err != nil, "a tree with failing payload %d of %d is built", k, len(l))
				t.Seen("position", n, k)
			}
			// still usable
			ok, err = merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "after failures the tree does not verify: %v", err)
			for k := range pl {
				ok, err := tr.VerifyContent(pl[k])
				t.Check(ok && err == nil, "after failures payload %d is not found: %v", k, err)
			}
			t.checkTree(tr, pl, h)
			// a payload that fails later
			bad := pl[t.IntN(n)].(*pay)
			bad.fail = true
			ok, err = merkletree.VerifyTree(tr)
			t.Check(!ok && err != nil, "verifying a tree with a failing payload gives %v, %v", ok, err)
			t.Check(tr.RebuildTree() != nil, "rebuilding with a failing payload succeeds")
			intact("a failed rebuild")
			bad.fail = false
			ok, err = merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "after the payload recovered the tree does not verify: %v", err)
			// payloads whose contents have changed since, of which a later one fails
			for _, k := range []int{0, n / 2, n - 1} {
				for j := range pl {
					pl[j].(*pay).h = t.Bytes(32)
				}
				bad = pl[k].(*pay)
				bad.fail = true
				t.Check(tr.RebuildTree() != nil, "rebuilding with failing payload %d of %d succeeds", k, n)
				intact("a failed rebuild after the payloads changed")
				t.Check(tr.RebuildTreeUsing(pl) != nil, "rebuilding with failing payload %d of %d succeeds", k, n)
				intact("a failed rebuild after the payloads changed")
				_, err = merkletree.VerifyTree(tr)
				t.Check(err != nil, "verifying with failing payload %d of %d reports no error", k, n)
				intact("a failed verification after the payloads changed")
				ok, err = tr.VerifyContent(bad)
				t.Check(!ok && err != nil, "looking up failing payload %d of %d: %v, %v", k, n, ok, err)
				intact("a failed lookup after the payloads changed")
				bad.fail = false
				t.Seen("changed", n, k)
			}
			for j := range pl {
				pl[j].(*pay).h = h[j]
			}
			ok, err = merkletree.VerifyTree(tr)
			t.Check(ok && err == nil, "with the payloads as before the tree does not verify: %v", err)
			t.Check(tr.RebuildTreeUsing(pl2) == nil, "rebuilding fails after failures")
			t.checkTree(tr, pl2, h2)
		})
	}
	t.Sample("a failure at every payload call of every operation")
}

package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// sameTrie: the canonical tries are equal, fragments and terminals compared by the given function.
func sameTrie(a, b *refNode, same func(x, y []byte) bool) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.ch) != len(b.ch) || !same(a.pf, b.pf) || !same(a.term, b.term) {
		return false
	}
	for i, x := range a.ch {
		y, ok := b.ch[i]
		if !ok || !sameTrie(x, y, same) {
			return false
		}
	}
	return true
}

func (r ref) equal(q ref) bool {
	if len(r) != len(q) {
		return false
	}
	for _, p := range r {
		i := q.find(p.k)
		if i < 0 || !eq(q[i].v, p.v) {
			return false
		}
	}
	return true
}

// differ states that tries which hold different sets have different roots.
func differ(w1, w2 *world) {
	r1, r2 := rootBytes(w1.tr), rootBytes(w2.tr)
	if !eq(r1, r2) || w1.r.equal(w2.r) {
		return
	}
	sym.Cover("same root")
	c1, c2 := w1.r.canon(w1.a), w2.r.canon(w2.a)
	hs := int(w1.m.HashSize())
	// fragments and terminals of up to the hash size are put into the hashed vector as they are, padded with zeros
	sym.Finding("C08-zero-padding", sameTrie(c1, c2, func(x, y []byte) bool {
		return eq(x, y) || len(x) <= hs && len(y) <= hs && samePadded(x, y)
	}))
	sym.Finding("C08-raw-hash", sameTrie(c1, c2, func(x, y []byte) bool { return samePadded(refCommit(x, hs), refCommit(y, hs)) }))
	sym.Assert(false, "different key/value sets have different root commitments")
}

// some puts up to n arbitrary pairs into the trie, keys in increasing order.
func (w *world) some(lo, n int, name string, vals int) {
	c := lo + sym.Choice(name+".n", n+1-lo)
	var prev []byte
	for i := 0; i < c; i++ {
		k := symKey(name, w.a, 0, maxKey(w.a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		w.update(k, sym.Bytes(name+"val", 1+sym.Choice(name+"vl", vals)))
	}
	w.tr.Commit()
}

// C08_Pairs: two tries of up to 3 (thorough 4) pairs each.
func C08_Pairs() {
	a, hs := pickArity(), trie_blake2b.HashSize256
	w1, w2 := newWorld(a, hs), newWorld(a, hs)
	n := sym.Bound(3, 4)
	w1.some(0, n, "a", 1)
	w2.some(0, n, "b", 1)
	if len(w1.r) < len(w2.r) {
		return
	}
	differ(w1, w2)
}

// C08_Single: two tries of one pair each with arbitrary values and keys with any bytes.
func C08_Single() {
	a, hs := pickArity(), pickHash()
	w1, w2 := newWorld(a, hs), newWorld(a, hs)
	h := int(hs)
	lens := [...]int{1, 2, h, h + 1, h + 2, 2*h + 5}
	l1 := sym.Choice("l1", 6)
	l2 := sym.Choice("l2", 6)
	k1, k2 := anyBytes("k1", 0, 2), anyBytes("k2", 0, 2)
	w1.update(k1, sym.Bytes("v1", lens[l1]))
	w2.update(k2, sym.Bytes("v2", lens[l2]))
	w1.tr.Commit()
	w2.tr.Commit()
	if l1 < l2 {
		return
	}
	differ(w1, w2)
}

// C08_LongKeys: keys whose path fragments are around the hash size and are hashed themselves.
func C08_LongKeys() {
	a, hs := trie.PathArity256, pickHash()
	w1, w2 := newWorld(a, hs), newWorld(a, hs)
	h := int(hs)
	lens := [...]int{1, h - 1, h, h + 1, h + 2, 2 * h, 127, 128, 129, 200, 255, 256, 257, 300}
	l1 := sym.Choice("l1", len(lens))
	l2 := sym.Choice("l2", len(lens))
	if l1 < l2 {
		return
	}
	w1.update(sym.Bytes("k1", lens[l1]), sym.Bytes("v1", 1))
	w2.update(sym.Bytes("k2", lens[l2]), sym.Bytes("v2", 1))
	w1.tr.Commit()
	w2.tr.Commit()
	differ(w1, w2)
}

// C08_LongFragments: a pair of keys with a long common part, any two elements of which differ between the tries; the other
// fragments are long too.
func C08_LongFragments() {
	a, hs := pickArity(), pickHash()
	per := 1
	switch a {
	case trie.PathArity16:
		per = 2
	case trie.PathArity2:
		per = 8
	}
	h := int(hs)
	lens := [...]int{h/per + 1, 64/per + 1, 128/per + 1, 2}
	lc := lens[sym.Choice("lc", 4)]
	lt := lens[sym.Choice("lt", 4)]
	i := [...]int{0, lc / 2, lc - 1}[sym.Choice("i", 3)]
	j := [...]int{0, lt / 2, lt - 1}[sym.Choice("j", 3)]
	mk := func(name string) *world {
		w := newWorld(a, hs)
		c, t := make([]byte, lc), make([]byte, lt)
		c[i] = sym.Byte(name + ".c")
		t[j] = sym.Byte(name + ".t")
		w.update(append(append(clone(c), 0x00), t...), []byte{1})
		w.update(append(append(clone(c), 0xff), t...), []byte{2})
		w.tr.Commit()
		return w
	}
	differ(mk("a"), mk("b"))
}

// C08_Update: a single operation which changes the set changes the root.
func C08_Update() {
	w := newWorld(pickArity(), pickHash())
	w.base(sym.Choice("n", 3))
	before := &world{a: w.a, m: w.m, store: w.store, tr: w.tr.Clone(), r: w.r}
	w.step()
	w.tr.Commit()
	differ(before, w)
}

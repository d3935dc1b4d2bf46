package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// Tries of other shapes than the small ones over short keys: long fragments, wide nodes, deep chains.

// shaped is a persisted trie of one of the shapes and the key an operation on it is about.
func shaped(hs trie_blake2b.HashSize) (w *world, key []byte) {
	w = newWorld(pickArity(), hs)
	switch sym.Choice("shape", 3) {
	case 0:
		key = w.long()
	case 1:
		key = w.wide()
	case 2:
		key = w.deep()
	}
	w.persist()
	if sym.Choice("keep", 2) == 0 {
		w.reopen()
	}
	return
}

// long: keys with long common parts and long ends.
func (w *world) long() []byte {
	lens := [...]int{34, 130, 260}
	if w.a == trie.PathArity2 {
		lens = [...]int{5, 17, 33}
	}
	c := make([]byte, lens[sym.Choice("lc", sym.Bound(2, 3))])
	t := make([]byte, lens[sym.Choice("lt", 2)])
	for i := range c {
		c[i] = byte(i)
	}
	for i := range t {
		t[i] = byte(200 - i)
	}
	mk := func(k []byte) []byte {
		ret := append(clone(c), k...)
		if len(k) > 0 {
			ret = append(ret, t...)
		}
		return ret
	}
	w.update(mk([]byte{0x00}), sym.Bytes("v", 1))
	w.update(mk([]byte{0x01}), sym.Bytes("v", 1))
	if sym.Choice("third", 2) == 1 {
		w.update(mk(nil), sym.Bytes("v", 1))
	}
	switch sym.Choice("target", 5) {
	case 0: // one of them, or a neighbour
		b := sym.Byte("key")
		sym.Assume(b <= 2)
		return mk([]byte{b})
	case 1:
		return mk(nil)
	case 2: // leaves the common part
		i := [...]int{0, len(c) / 2, len(c) - 1}[sym.Choice("at", 3)]
		k := mk([]byte{0x00})
		k[i] ^= 1
		return k
	case 3: // leaves the end
		i := [...]int{0, len(t) / 2, len(t) - 1}[sym.Choice("at", 3)]
		k := mk([]byte{0x01})
		k[len(c)+1+i] ^= 1
		return k
	}
	k := mk([]byte{0x01})
	return k[:[...]int{0, 1, len(c) - 1, len(c) + 1, len(c) + 1 + len(t)/2, len(k) - 1}[sym.Choice("cut", 6)]]
}

// wide: nodes with many children.
func (w *world) wide() []byte {
	n := [...]int{3, 17, 40, 256}[sym.Choice("n", sym.Bound(3, 4))]
	for i := 0; i < n; i++ {
		w.update([]byte{byte(i * 256 / n), 7}, []byte{byte(i + 1), 1})
	}
	b := sym.Byte("key")
	sym.Assume(b <= 1 || b >= 0xfe || b == 15*256/17 || b == 0xf0)
	if sym.Choice("same", 2) == 0 {
		return []byte{b, 7}
	}
	return []byte{b, 8}[:sym.Choice("len", 3)]
}

// deep: every key is the beginning of the next.
func (w *world) deep() []byte {
	n := sym.Bound(4, 6)
	k := []byte{}
	for i := 0; i < n; i++ {
		w.update(k, sym.Bytes("v", 1))
		k = append(clone(k), byte(i&1))
	}
	if sym.Choice("branch", 2) == 1 {
		k = append(clone(k[:n/2]), 0x81)
	}
	return clone(k[:sym.Choice("len", len(k)+1)])
}

// shapedStep is an operation on a trie of one of the shapes, and thorough another one that deletes the key.
func shapedStep(hs trie_blake2b.HashSize) *world {
	w, k := shaped(hs)
	if sym.Choice("op", 2) == 0 {
		w.remove(k)
	} else {
		w.update(k, sym.Bytes("val", 1))
		switch sym.Choice("again", 3) {
		case 1:
			w.remove(k)
		case 2:
			w.persist()
			w.remove(k)
		}
	}
	w.tr.Commit()
	return w
}

// C04_Shapes: the content after an operation on tries of other shapes.
func C04_Shapes() {
	w := shapedStep(trie_blake2b.HashSize160)
	w.content(w.tr, "after commit")
}

// C05_Shapes: the root after an operation on tries of other shapes.
func C05_Shapes() {
	w := shapedStep(trie_blake2b.HashSize256)
	w.checkRoot(w.tr, "after commit")
}

// C06_Shapes: the nodes after an operation on tries of other shapes.
func C06_Shapes() {
	w := shapedStep(trie_blake2b.HashSize160)
	w.checkNode(w.tr, nil, w.r.canon(w.a))
}

// C07_Shapes: the store after an operation on tries of other shapes.
func C07_Shapes() {
	w := shapedStep(trie_blake2b.HashSize256)
	w.tr.PersistMutations(w.store)
	w.checkNode(trie.NewTrieReader(w.m, w.store, nil), nil, w.r.canon(w.a))
	w.storeIs("after persist")
}

// C09_Shapes: proofs from tries of other shapes.
func C09_Shapes() {
	w, k := shaped(trie_blake2b.HashSize160)
	w.proofs(w.tr, k, sym.Bytes("other", 1), "trie")
}

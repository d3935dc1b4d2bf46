package hk

import (
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// Tries over the KZG model with wide nodes at both ends of the child range, long fragments and deep chains.

// shaped is a committed trie of one of the shapes, and keys that matter in it.
func shaped() (w *world, key func(string) []byte) {
	w = newWorld()
	var keys [][]byte
	switch sym.Choice("shape", 3) {
	case 0:
		all := [...]int{0, 255, 1, 254, 128, 127, 2, 253, 7, 31, 32, 63, 64, 100}
		for i, b := range all[:sym.Bound(8, 14)] {
			w.set([]byte{byte(b), 7}, []byte{byte(i), 1})
		}
		keys = [][]byte{{0, 7}, {255, 7}, {255}, {129, 7}, {}}
	case 1:
		n := sym.Bound(6, 20)
		k := make([]byte, n+1)
		for i := range k {
			k[i] = byte(255 * (i % 2))
		}
		for i := 0; i < n; i++ {
			w.set(k[:i], []byte{byte(i + 1)})
		}
		keys = [][]byte{k[:0], k[:n/2], k[:n-1], k[:n], {255}, {0, 0}}
	case 2:
		k := make([]byte, [...]int{31, 300}[sym.Choice("long", 2)])
		for i := range k {
			k[i] = byte(200 + i)
		}
		with := func(n int, more ...byte) []byte { return append(append([]byte{}, k[:n]...), more...) }
		w.set(with(len(k), 0), []byte{1})
		w.set(with(len(k), 255, 255), make([]byte, 40))
		w.set(with(len(k)/2, 3, 4), []byte{2, 3})
		keys = [][]byte{{}, k, with(len(k), 255, 255), with(len(k)/2, 3), with(len(k)-1, 1)}
	}
	w.tr.Commit()
	return w, func(name string) []byte { return keys[sym.Choice(name, len(keys))] }
}

// C07_KZGShapes: what an operation leaves in the store.
func C07_KZGShapes() {
	w, key := shaped()
	if sym.Choice("persist", 2) == 1 {
		w.tr.PersistMutations(w.store)
		w.tr = trie.New(w.m, w.store, nil)
	}
	k := key("k")
	if sym.Choice("del", 2) == 1 {
		w.del(k)
	} else {
		w.set(k, sym.Bytes("v", 1))
	}
	w.tr.Commit()
	w.tr.PersistMutations(w.store)
	s := w.rebuilt()
	sym.Assert(w.m.EqualCommitments(w.root(), s.root()), "the root is a function of the content")
	w.sameStore(s)
}

// C20_Shapes: proofs of present and absent keys.
func C20_Shapes() {
	w, key := shaped()
	k := key("k")
	if sym.Choice("set", 2) == 1 {
		w.set(k, sym.Bytes("v", 1))
		w.tr.Commit()
	}
	if sym.Choice("reader", 2) == 1 {
		w.tr.PersistMutations(w.store)
		w.checkKey(k, trie.NewTrieReader(w.m, w.store, nil))
		return
	}
	w.checkKey(k, w.tr)
}

package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// C06_History: the committed trie is the canonical Merkle tree of its content.
func C06_History() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.history(sym.Bound(2, 2), 2)
	w.tr.Commit()
	w.checkNode(w.tr, nil, w.r.canon(w.a))
}

// C06_MapOrder: the same under other iteration orders of the maps, for deletions which reorganize the trie.
func C06_MapOrder() {
	sym.MapOrder(1)
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.base(3)
	w.remove(symKey("key", w.a, 0, maxKey(w.a)))
	w.tr.Commit()
	w.checkNode(w.tr, nil, w.r.canon(w.a))
}

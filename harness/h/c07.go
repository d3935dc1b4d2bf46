package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

type countingStore struct {
	trie.KVStore
	n int
}

func (c *countingStore) Set(k, v []byte) { c.n++; c.KVStore.Set(k, v) }

// C07_Image: after persisting, the store is an exact image of the trie.
func C07_Image() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.history(2, 2)
	w.tr.Commit()
	cs := &countingStore{KVStore: w.store}
	n := w.tr.PersistMutations(cs)
	sym.Assert(n == cs.n, "the reported number of mutations is the number of writes")
	c := w.r.canon(w.a)
	// a read-only reader on the store sees the canonical trie
	rd := trie.NewTrieReader(w.m, w.store, nil)
	w.checkNode(rd, nil, c)
	w.storeIs("after persist")
	// a new trie as well
	tr := trie.New(w.m, w.store, nil)
	r1, r2 := trie.RootCommitment(tr), trie.RootCommitment(w.tr)
	sym.Assert(w.m.EqualCommitments(r1, r2), "the root is the same after reopening")
}

// C07_Continue: continuing on the reopened trie gives the same as continuing on the original.
func C07_Continue() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.history(1, 1)
	w.persist()
	w2 := &world{a: w.a, m: w.m, store: w.store, r: w.r}
	w2.reopen()
	k := symKey("next", w.a, 0, maxKey(w.a))
	v := sym.Bytes("nextval", sym.Choice("nextlen", 2))
	w.update(k, v)
	w2.update(k, v)
	w.tr.Commit()
	w2.tr.Commit()
	sym.Assert(w.m.EqualCommitments(trie.RootCommitment(w.tr), trie.RootCommitment(w2.tr)), "the same root when continuing after reopening")
	if sym.Choice("who", 2) == 0 {
		w.tr.PersistMutations(w.store)
	} else {
		w2.tr.PersistMutations(w.store)
	}
	w.checkNode(trie.NewTrieReader(w.m, w.store, nil), nil, w.r.canon(w.a))
	w.storeIs("continued")
}

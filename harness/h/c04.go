package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// C04_History: after a batch of operations on an arbitrary persisted state.
func C04_History() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.history(2, 2)
	w.tr.Commit()
	w.content(w.tr, "after commit")
}

// C04_Three: three operations on an empty trie or a single pair.
func C04_Three() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.history(sym.Bound(0, 1), 3)
	w.tr.Commit()
	w.content(w.tr, "after commit")
}

// C04_DeleteForms: an update with an empty or nil value is a deletion.
func C04_DeleteForms() {
	a := pickArity()
	w := newWorld(a, pickHash())
	w.base(2)
	k := symKey("key", a, 0, maxKey(a))
	w2 := &world{a: a, m: w.m, store: w.store, tr: w.tr.Clone(), r: w.r}
	switch sym.Choice("form", 4) {
	case 0:
		w.update(k, nil)
	case 1:
		w.tr.Update(k, []byte{})
		w.r = w.r.with(k, nil)
	case 2:
		w.tr.UpdateStr(string(k), "")
		w.r = w.r.with(k, nil)
	case 3:
		w.tr.DeleteStr(string(k))
		w.r = w.r.with(k, nil)
	}
	w2.remove(k)
	w.tr.Commit()
	w2.tr.Commit()
	w.content(w.tr, "update with an empty value")
	w2.content(w2.tr, "deletion")
	sym.Assert(w.m.EqualCommitments(trie.RootCommitment(w.tr), trie.RootCommitment(w2.tr)), "both forms of deletion give the same root")
}

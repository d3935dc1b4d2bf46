package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

func (w *world) clone() *world {
	return &world{a: w.a, m: w.m, store: w.store, vals: w.vals, tr: w.tr.Clone(), opt: w.opt, r: w.r}
}

func (w *world) committed(what string) {
	w.tr.Commit()
	w.checkRoot(w.tr, what)
	w.content(w.tr, what)
}

// C12_Clone: a clone starts with the content of the original, and none sees what happens to the other.
func C12_Clone() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.history(1, 1)
	if sym.Choice("commit", 2) == 1 {
		w.tr.Commit()
	}
	c := w.clone()
	x, y := w, c
	if sym.Choice("who", 2) == 1 {
		x, y = c, w
	}
	x.step()
	switch sym.Choice("then", 3) {
	case 1:
		x.tr.Commit()
	case 2:
		x.tr.ClearCache()
		y.committed("after the other dropped its changes")
		return
	}
	y.committed("the untouched one")
	x.committed("the changed one")
}

// C12_CloneBoth: both go on, and commit in either order.
func C12_CloneBoth() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.base(sym.Choice("nbase", 2))
	w.step()
	c := w.clone()
	w.step()
	c.step()
	if sym.Choice("first", 2) == 1 {
		w, c = c, w
	}
	w.committed("the first")
	c.committed("the second")
}

// C12_ClearCache: dropping the cache goes back to the persisted state.
func C12_ClearCache() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.base(sym.Choice("nbase", 3))
	saved := w.r
	w.step()
	if sym.Choice("commit", 2) == 1 {
		w.tr.Commit()
	}
	if sym.Choice("more", 2) == 1 {
		w.step()
	}
	w.tr.ClearCache()
	w.r = saved
	w.checkNode(w.tr, nil, w.r.canon(w.a))
	w.tr.Commit()
	w.checkNode(w.tr, nil, w.r.canon(w.a))
	if sym.Choice("again", 2) == 1 {
		w.step()
		w.committed("after dropping and going on")
	}
}

// reads does one or all of the reading operations.
func (w *world) reads() {
	k := symKey("readkey", w.a, 0, maxKey(w.a))
	switch sym.Choice("read", 6) {
	case 0:
		w.tr.GetNode(digits(k, w.a))
	case 1:
		trie.RootCommitment(w.tr)
	case 2:
		w.m.Proof(k, w.tr)
	case 3:
		s := trie.NewInMemoryKVStore()
		s.Set(k, sym.Bytes("readval", 1))
		w.tr.Reconcile(s)
	case 4:
		w.tr.Clone()
	case 5:
		w.tr.Info()
		_ = w.tr.DangerouslyDumpCacheToString()
	}
}

func sameStores(a, b trie.KVStore) bool {
	n := 0
	ok := true
	a.Iterate(func(k, v []byte) bool {
		n++
		if !eq(b.Get(k), v) {
			ok = false
		}
		return true
	})
	b.Iterate(func(k, v []byte) bool {
		n--
		return true
	})
	return ok && n == 0
}

// C12_Reads: reading operations, on committed and on uncommitted changes, change nothing.
func C12_Reads() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.history(2, 1)
	uncommitted := sym.Choice("uncommitted", 2) == 1
	if !uncommitted {
		w.tr.Commit()
	}
	w.reads()
	if !uncommitted {
		w.checkRoot(w.tr, "after reading")
	}
	w.committed("commit after reading")
	w.tr.PersistMutations(w.store)
	w.checkNode(trie.NewTrieReader(w.m, w.store, nil), nil, w.r.canon(w.a))
	w.storeIs("persist after reading")
}

// C12_ReadsStep: the trie goes on as if nothing had been read.
func C12_ReadsStep() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.base(1 + sym.Choice("nbase", 2))
	w.tr.ClearCache()
	w.reads()
	w.step()
	w.committed("commit after reading")
	w.tr.PersistMutations(w.store)
	w.storeIs("persist after reading")
}

// C12_Twice: committing twice equals committing once.
func C12_Twice() {
	w := newWorld(pickArity(), pickHash())
	w.history(2, 1)
	w.tr.Commit()
	root := rootBytes(w.tr)
	w.tr.Commit()
	sym.Assert(eq(rootBytes(w.tr), root), "the second commit leaves the root")
	w.checkNode(w.tr, nil, w.r.canon(w.a))
	n1 := w.tr.PersistMutations(w.store)
	w.storeIs("persist")
	w.tr.Commit()
	n2 := w.tr.PersistMutations(w.store)
	sym.Assert(n1 == n2, "persisting again writes the same")
	w.storeIs("persist again")
	w.checkNode(trie.NewTrieReader(w.m, w.store, nil), nil, w.r.canon(w.a))
}

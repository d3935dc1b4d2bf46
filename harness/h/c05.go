package h

import (
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// C05_History: the root after a batch on an arbitrary persisted state is that of the resulting set.
func C05_History() {
	w := newWorld(pickArity(), pickHash())
	w.history(sym.Bound(1, 2), 2)
	w.tr.Commit()
	w.checkRoot(w.tr, "after commit")
}

// C05_Order: the same pairs in two orders, with commits in between, under all iteration orders of the maps.
func C05_Order() {
	sym.MapOrder(1)
	a := pickArity()
	hs := pickHash()
	w1, w2 := newWorld(a, hs), newWorld(a, hs)
	var ks, vs [3][]byte
	n := 2 + sym.Choice("n", 2)
	for i := 0; i < n; i++ {
		ks[i] = symKey("key", a, 0, maxKey(a))
		vs[i] = sym.Bytes("val", 1)
		for j := 0; j < i; j++ {
			sym.Assume(!eq(ks[i], ks[j]))
		}
	}
	perm := [][3]int{{1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}}
	p := perm[0]
	if n == 3 {
		p = perm[sym.Choice("perm", 5)]
	}
	commitAfter := sym.Choice("commit", n)
	for i := 0; i < n; i++ {
		w1.update(ks[i], vs[i])
	}
	for i := 0; i < n; i++ {
		w2.update(ks[p[i]], vs[p[i]])
		if i == commitAfter {
			w2.tr.Commit()
		}
	}
	w1.tr.Commit()
	w2.tr.Commit()
	sym.Assert(w1.m.EqualCommitments(trie.RootCommitment(w1.tr), trie.RootCommitment(w2.tr)), "the order of updates does not matter")
}

// C05_Detour: intermediate values and keys that are deleted again leave no trace.
func C05_Detour() {
	a := pickArity()
	w1, w2 := newWorld(a, pickHash()), newWorld(a, 32)
	w2.m = w1.m
	w2.reopen()
	n := 1 + sym.Choice("n", 2)
	for i := 0; i < n; i++ {
		k := symKey("key", a, 0, maxKey(a))
		v := sym.Bytes("val", 1)
		w1.update(k, v)
		w2.update(k, v)
	}
	x := symKey("extra", a, 0, maxKey(a))
	old := w2.r.get(x)
	if sym.Choice("first", 2) == 0 {
		w2.persist()
	}
	w2.update(x, sym.Bytes("tmp", 1))
	switch sym.Choice("mid", 3) {
	case 0:
		w2.tr.Commit()
	case 1:
		w2.persist()
		w2.tr.ClearCache()
	}
	w2.update(x, old)
	w1.tr.Commit()
	w2.tr.Commit()
	sym.Assert(w1.m.EqualCommitments(trie.RootCommitment(w1.tr), trie.RootCommitment(w2.tr)), "a change that is undone leaves the root as it was")
}

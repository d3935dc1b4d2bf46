package hk

import (
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// rebuilt is the trie with the same content made from scratch.
func (w *world) rebuilt() *world {
	s := newWorld()
	for _, p := range w.ref {
		s.set(p.k, p.v)
	}
	s.tr.Commit()
	s.tr.PersistMutations(s.store)
	return s
}

// sameStore: both stores hold the same nodes.
func (w *world) sameStore(s *world) {
	count := func(w *world) int {
		n := 0
		w.store.(interface {
			Iterate(func(k, v []byte) bool)
		}).Iterate(func(k, v []byte) bool { n++; return true })
		return n
	}
	sym.Assert(count(w) == count(s), "the store has exactly the nodes of the trie")
	s.store.(interface {
		Iterate(func(k, v []byte) bool)
	}).Iterate(func(k, v []byte) bool {
		sym.Assert(eq(w.store.Get(k), v), "every node of the trie is in the store")
		return true
	})
}

// C07_KZG: a persisted trie over the KZG model is what a trie with the same content made from scratch persists, also
// when it continues after reopening.
func C07_KZG() {
	concreteBase = !sym.Thorough()
	w := newWorld()
	w.fill("base", 2, sym.Bound(1, 2))
	switch sym.Choice("persist", 3) {
	case 1:
		w.tr.PersistMutations(w.store)
	case 2:
		w.tr.PersistMutations(w.store)
		w.tr = trie.New(w.m, w.store, nil)
	}
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		w.op("op", sym.Bound(2, 2))
	}
	w.tr.Commit()
	w.tr.PersistMutations(w.store)
	s := w.rebuilt()
	sym.Assert(w.m.EqualCommitments(w.root(), s.root()), "the root is a function of the content")
	w.sameStore(s)
	rd := trie.NewTrieReader(w.m, w.store, nil)
	sym.Assert(w.m.EqualCommitments(trie.RootCommitment(rd), s.root()), "a reader has the same root")
}

// C05_KZG: the root of a trie over the KZG model does not depend on order, commits in between and detours.
func C05_KZG() {
	n := sym.Bound(2, 3)
	ks, vs := make([][]byte, n), make([][]byte, n)
	for i := range ks {
		ks[i], vs[i] = anyKey("k", 2), sym.Bytes("v", 1)
		for j := 0; j < i; j++ {
			sym.Assume(!eq(ks[i], ks[j]))
		}
	}
	a, b := newWorld(), newWorld()
	for i := range ks {
		a.set(ks[i], vs[i])
		if sym.Choice("commit", 2) == 1 {
			a.tr.Commit()
		}
	}
	a.tr.Commit()
	x := anyKey("detour", 2)
	if sym.Choice("detour", 2) == 1 {
		b.set(x, sym.Bytes("dv", 1))
		b.tr.Commit()
	}
	for i := range ks {
		b.set(ks[n-1-i], vs[n-1-i])
		if sym.Choice("commit", 2) == 1 {
			b.tr.Commit()
		}
	}
	if _, ok := a.get(x); !ok {
		b.del(x)
	}
	b.tr.Commit()
	sym.Assert(a.m.EqualCommitments(a.root(), b.root()), "the root is a function of the content")
}

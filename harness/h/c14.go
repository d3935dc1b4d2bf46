package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// c14Value is a value for the key; with key commitments perhaps the key itself.
func c14Value(w *world, k []byte) []byte {
	n := 2
	if w.opt && len(k) > 0 {
		n = 3
	}
	var v []byte
	switch sym.Choice("kind", n) {
	case 0:
		v = sym.Bytes("val", 1)
	case 1:
		v = sym.Bytes("val", int(w.m.HashSize())+1)
	default:
		return clone(k)
	}
	if w.opt && w.a != trie.PathArity256 {
		sym.Assume(!eq(v, digits(k, w.a))) // has the same commitment as the key
	}
	return v
}

// symStore is a store with lo..hi arbitrary pairs.
func symStore(w *world, lo, hi int) (trie.KVStore, ref) {
	s := trie.NewInMemoryKVStore()
	var r ref
	n := lo + sym.Choice("pairs", hi-lo+1)
	var prev []byte
	for i := 0; i < n; i++ {
		k := symKey("storekey", w.a, 0, maxKey(w.a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		v := c14Value(w, k)
		s.Set(clone(k), clone(v))
		r = r.with(k, v)
	}
	return s, r
}

// reconciled checks the result of Reconcile against the definition.
func (w *world) reconciled(s trie.KVStore, r ref, what string) {
	got := w.tr.Reconcile(s)
	n := 0
	for _, p := range r {
		bad := !eq(w.r.get(p.k), p.v)
		in := 0
		for _, k := range got {
			if eq(k, p.k) {
				in++
			}
		}
		if bad {
			n++
			sym.Assert(in == 1, what+": a key whose value is not the one of the trie is reported once")
		} else {
			sym.Assert(in == 0, what+": a key whose value is the one of the trie is not reported")
		}
	}
	sym.Assert(len(got) == n, what+": nothing else is reported")
}

func c14World() *world {
	a := pickArity()
	if sym.Choice("opt", 2) == 1 {
		return optWorld(a, trie_blake2b.HashSize256, [...]int{0, 1}[sym.Choice("t", 2)], true)
	}
	return newWorld(a, trie_blake2b.HashSize160)
}

// C14_Reconcile: an arbitrary store against an arbitrary trie, buffered or read back.
func C14_Reconcile() {
	w := c14World()
	n := sym.Choice("n", 3)
	var prev []byte
	for i := 0; i < n; i++ {
		k := symKey("key", w.a, 0, maxKey(w.a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		w.update(k, c14Value(w, k))
	}
	switch sym.Choice("state", 3) {
	case 1:
		w.tr.Commit()
	case 2:
		if w.opt {
			w.keepValues()
		}
		w.persist()
		w.reopen()
	}
	s, r := symStore(w, 0, 1)
	w.reconciled(s, r, "reconcile")
	if sym.Choice("own", 2) == 1 {
		own := trie.NewInMemoryKVStore()
		for _, p := range w.r {
			own.Set(p.k, p.v)
		}
		sym.Assert(len(w.tr.Reconcile(own)) == 0, "a trie reconciles with its own pairs")
	}
}

// C14_Store: two arbitrary pairs in the store.
func C14_Store() {
	w := c14World()
	if sym.Choice("n", 2) == 1 {
		k := symKey("key", w.a, 0, maxKey(w.a))
		w.update(k, c14Value(w, k))
	}
	w.tr.Commit()
	s, r := symStore(w, 2, sym.Bound(2, 3))
	w.reconciled(s, r, "reconcile")
}

// C14_History: after a history with deletions.
func C14_History() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.history(1, sym.Bound(1, 2))
	if sym.Choice("commit", 2) == 1 {
		w.tr.Commit()
	}
	s, r := symStore(w, 1, 1)
	w.reconciled(s, r, "reconcile")
}

// C14_UpdateAll: a trie made from a store, in any order of its iteration.
func C14_UpdateAll() {
	w := c14World()
	s, r := symStore(w, 0, sym.Bound(2, 3))
	sym.MapOrder(-1)
	w.tr.UpdateAll(s)
	sym.MapOrder(0)
	w.r = r
	sym.Assert(len(w.tr.Reconcile(s)) == 0, "nothing to reconcile before the commit")
	w.tr.Commit()
	w.checkRoot(w.tr, "mass update")
	w.content(w.tr, "mass update")
	sym.Assert(len(w.tr.Reconcile(s)) == 0, "nothing to reconcile")
}

// C14_UpdateAllMore: a mass update of a trie which is not empty sets and overwrites the pairs of the store.
func C14_UpdateAllMore() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.base(1 + sym.Choice("nbase", 2))
	if sym.Choice("keep", 2) == 0 {
		w.tr.ClearCache()
	}
	s, r := symStore(w, 1, sym.Bound(1, 2))
	w.tr.UpdateAll(s)
	for _, p := range r {
		w.r = w.r.with(p.k, p.v)
	}
	w.tr.Commit()
	w.checkRoot(w.tr, "mass update")
	w.content(w.tr, "mass update")
	sym.Assert(len(w.tr.Reconcile(s)) == 0, "nothing to reconcile")
}

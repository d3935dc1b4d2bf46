package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// optWorld is a trie with value-size threshold t, values in a value store, and perhaps key commitments.
func optWorld(a trie.PathArity, hs trie_blake2b.HashSize, t int, opt bool) *world {
	w := &world{a: a, m: trie_blake2b.New(a, hs, t), store: trie.NewInMemoryKVStore(), vals: trie.NewInMemoryKVStore(), opt: opt}
	w.reopen()
	return w
}

// keepValues makes the value store current.
func (w *world) keepValues() {
	var old [][]byte
	w.vals.Iterate(func(k, v []byte) bool {
		old = append(old, clone(k))
		return true
	})
	for _, k := range old {
		if w.r.find(k) < 0 {
			w.vals.Set(k, nil)
		}
	}
	for _, p := range w.r {
		w.vals.Set(clone(p.k), clone(p.v))
	}
}

// optValue is a value for the key: around the threshold, the key itself or the unpacked key.
func optValue(a trie.PathArity, key []byte, t int, opt bool) []byte {
	n := 4
	if opt {
		n = 6
	}
	switch sym.Choice("kind", n) {
	case 0:
		return nil
	case 1:
		return sym.Bytes("val", 1)
	case 2:
		if t <= 1 {
			return sym.Bytes("val", 2)
		}
		return sym.Bytes("val", t)
	case 3:
		return sym.Bytes("val", t+1)
	case 4:
		return clone(key)
	}
	return digits(key, a)
}

// same states that two tries are the same for their users.
func same(w1, w2 *world, tr1, tr2 trie.NodeStore, k []byte, what string) {
	sym.Assert(eq(rootBytes(tr1), rootBytes(tr2)), what+": same root")
	p1, p2 := w1.m.Proof(k, tr1), w2.m.Proof(k, tr2)
	sym.Assert(eq(p1.Bytes(), p2.Bytes()), what+": same proof")
}

// C13_Threshold: a trie with the optimization and one without go through the same history.
func C13_Threshold() {
	a := pickArity()
	hs := trie_blake2b.HashSize256
	if sym.Thorough() {
		hs = pickHash()
	}
	t := [...]int{1, 33, 40}[sym.Choice("t", 3)]
	w1, w2 := newWorld(a, hs), optWorld(a, hs, t, false)
	n := sym.Bound(2, 3)
	var k []byte
	for i := 0; i < n; i++ {
		k = symKey("key", a, 0, maxKey(a))
		v := optValue(a, k, t, false)
		w1.update(k, v)
		w2.update(k, v)
		if sym.Choice("now", 2) == 1 {
			w2.keepValues()
		}
		if i < n-1 && sym.Choice("persist", 2) == 1 {
			w1.persist()
			w2.keepValues()
			w2.persist()
			if sym.Choice("reopen", 2) == 1 {
				w1.reopen()
				w2.reopen()
			}
		}
	}
	w1.tr.Commit()
	w2.tr.Commit()
	same(w1, w2, w1.tr, w2.tr, k, "before persisting")
	w2.keepValues()
	w1.tr.PersistMutations(w1.store)
	w2.tr.PersistMutations(w2.store)
	rd := trie.NewTrieReader(w2.m, w2.store, w2.vals)
	same(w1, w2, w1.tr, rd, k, "after persisting")
	w2.content(rd, "after persisting")
	w2.storeIs("after persisting")
}

// C13_ThresholdStep: the reopened trie goes on like the one without the optimization.
func C13_ThresholdStep() {
	a := pickArity()
	t := [...]int{1, 33, 40}[sym.Choice("t", 3)]
	w1, w2 := newWorld(a, trie_blake2b.HashSize160), optWorld(a, trie_blake2b.HashSize160, t, false)
	var prev []byte
	n := sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		k := symKey("base", a, 0, maxKey(a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		v := optValue(a, k, t, false)
		w1.update(k, v)
		w2.update(k, v)
	}
	w1.persist()
	w2.keepValues()
	w2.persist()
	w2.reopen()
	k := symKey("key", a, 0, maxKey(a))
	v := optValue(a, k, t, false)
	w1.update(k, v)
	w2.update(k, v)
	w1.tr.Commit()
	w2.tr.Commit()
	same(w1, w2, w1.tr, w2.tr, k, "going on")
	w2.content(w2.tr, "going on")
}

// C13_KeyCommitments: with key commitments (and perhaps the other optimization) a trie read back is the same.
func C13_KeyCommitments() {
	a := pickArity()
	hs := trie_blake2b.HashSize160
	if sym.Thorough() {
		hs = pickHash()
	}
	t := [...]int{0, 1, 8}[sym.Choice("t", 3)]
	w := optWorld(a, hs, t, true)
	n := sym.Bound(2, 3)
	var k []byte
	for i := 0; i < n; i++ {
		k = symKey("key", a, 0, maxKey(a))
		v := optValue(a, k, t, true)
		if len(k) > 0 && eq(k, v) && sym.Choice("insert", 2) == 1 {
			w.tr.InsertKeyCommitment(clone(k))
			w.r = w.r.with(k, v)
		} else {
			w.update(k, v)
		}
		if i < n-1 {
			switch sym.Choice("between", 3) {
			case 1:
				w.tr.Commit()
			case 2:
				w.keepValues()
				w.persist()
				w.reopen()
			}
		}
	}
	w.tr.Commit()
	w.checkRoot(w.tr, "before persisting")
	w.content(w.tr, "before persisting")
	w.keepValues()
	w.tr.PersistMutations(w.store)
	rd := trie.NewTrieReader(w.m, w.store, w.vals)
	same(w, w, w.tr, rd, k, "after persisting")
	w.content(rd, "after persisting")
	w.reopen()
	same(w, w, w.tr, rd, k, "reopened")
	sym.Assert(len(w.tr.Reconcile(w.vals)) == 0, "the reopened trie reconciles with the values")
}

// C13_LongKeys: key commitments which are hashed, and long path fragments.
func C13_LongKeys() {
	a := trie.PathArity256
	hs := pickHash()
	h := int(hs)
	w := optWorld(a, hs, [...]int{0, h + 1, 2 * h}[sym.Choice("t", 3)], true)
	l := [...]int{h - 1, h, h + 1, 63, 64, 70}[sym.Choice("len", 6)]
	k := sym.Bytes("key", l)
	w.update(k, k)
	if sym.Choice("second", 2) == 1 {
		at := [...]int{0, l / 2, l - 1}[sym.Choice("at", 3)]
		k2 := clone(k)
		k2[at] = sym.Byte("other")
		sym.Assume(k[at] <= 1 && k2[at] <= 1)
		if sym.Choice("equal", 2) == 1 {
			w.update(k2, k2)
		} else {
			w.update(k2, sym.Bytes("val", h+1))
		}
	}
	w.tr.Commit()
	w.checkRoot(w.tr, "before persisting")
	w.keepValues()
	w.tr.PersistMutations(w.store)
	rd := trie.NewTrieReader(w.m, w.store, w.vals)
	same(w, w, w.tr, rd, k, "after persisting")
	w.content(rd, "after persisting")
}

// C13_Proofs: proofs of any key, also keys which are not in the trie.
func C13_Proofs() {
	a := pickArity()
	t := [...]int{0, 1, 33}[sym.Choice("t", 3)]
	opt := sym.Choice("opt", 2) == 1
	w := optWorld(a, trie_blake2b.HashSize256, t, opt)
	var prev []byte
	n := sym.Choice("n", sym.Bound(2, 3)+1)
	for i := 0; i < n; i++ {
		k := symKey("base", a, 0, maxKey(a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		if opt && sym.Choice("equal", 2) == 1 {
			w.update(k, k)
		} else {
			w.update(k, sym.Bytes("val", 1+sym.Choice("vl", 2)))
		}
	}
	w.keepValues()
	w.persist()
	k := symKey("proofkey", a, 0, maxKey(a))
	same(w, w, w.tr, trie.NewTrieReader(w.m, w.store, w.vals), k, "after persisting")
}

package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// Longer histories than those with arbitrary operations: scripts of given operations with anything between them. + inserts or
// overwrites the key, - deletes it, | is a gap: nothing, a commit, a persist, or a persist followed by dropping the cache.
var scripts = [...]string{
	"+a+b+c|-b|+b|-a|-c",  // a chain loses and regains its middle, then its ends
	"+c+d+e|-e|-d|+d+e",   // merges followed by splits of the same nodes
	"+b+c|+b|-c|+c|-b",    // overwriting between deletions
	"+b+c|-b-c|+c|+b-c",   // emptied and filled again
	"+c|+b|+a|-b|-c",      // prefixes put above a key and removed
	"-b+b|+b|-b|-b|+b",    // the same key again and again
	"+c+e|+d|-d|+d-c|-e",  // split, merged and split again between gaps
	"+c+d|+e|-c-d|+c|-e",  // a subtree disappears and comes back
	"+f+c|-f|+f+d|-c-d",   // as before with a long key
	"+f+g|+h|-g|+g-h|-f",  // branches at the ends of a long fragment
	"+d+b-d|+d-b|+a-d|+b", // inserted and deleted between gaps
	"+a|-a|+a+e|-a|+a-e",  // the root's own terminal
}

// scriptKey are the keys of the scripts.
func scriptKey(c byte, a trie.PathArity) []byte {
	long := make([]byte, 40)
	switch c {
	case 'a':
		return []byte{}
	case 'b':
		return []byte{0}
	case 'c':
		return []byte{0, 0}
	case 'd':
		if a == trie.PathArity16 {
			return []byte{0, 0x10}
		}
		return []byte{0, 1}
	case 'e':
		return []byte{1}
	case 'f':
		return append([]byte{0}, long...)
	case 'g':
		long[0] = 1
		return append([]byte{0}, long...)
	}
	long[39] = 0x80
	return append([]byte{0}, long...)
}

// script runs an arbitrary script with at most n gaps.
func script(a trie.PathArity, n int, op func(k, v []byte), gap func(i int)) {
	s := scripts[sym.Choice("script", len(scripts))]
	lens := [...]int{1, 33, 20, 64, 2}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			i++
			op(scriptKey(s[i], a), sym.Bytes("val", lens[i%len(lens)]))
		case '-':
			i++
			op(scriptKey(s[i], a), nil)
		case '|':
			if n--; n < 0 {
				return
			}
			gap(n)
		}
	}
}

func (w *world) op(k, v []byte) {
	if v == nil {
		w.remove(k)
		return
	}
	w.update(k, v)
}

func (w *world) gap(i int) {
	switch sym.Choice("gap", 4) {
	case 1:
		w.tr.Commit()
	case 2:
		w.persist()
	case 3:
		w.persist()
		if i%2 == 0 {
			w.tr.ClearCache()
		} else {
			w.reopen()
		}
	}
}

func scripted(hs trie_blake2b.HashSize) *world {
	w := newWorld(pickArity(), hs)
	script(w.a, sym.Bound(4, 6), w.op, w.gap)
	w.tr.Commit()
	return w
}

// C04_Scripts: the content after the scripts.
func C04_Scripts() {
	w := scripted(trie_blake2b.HashSize160)
	w.content(w.tr, "after commit")
}

// C05_Scripts: the root after the scripts.
func C05_Scripts() {
	w := scripted(trie_blake2b.HashSize256)
	w.checkRoot(w.tr, "after commit")
}

// C06_Scripts: the nodes after the scripts.
func C06_Scripts() {
	w := scripted(trie_blake2b.HashSize160)
	w.checkNode(w.tr, nil, w.r.canon(w.a))
}

// C07_Scripts: the store after the scripts.
func C07_Scripts() {
	w := scripted(trie_blake2b.HashSize256)
	w.tr.PersistMutations(w.store)
	w.checkNode(trie.NewTrieReader(w.m, w.store, nil), nil, w.r.canon(w.a))
	w.storeIs("after persist")
}

func anyScriptKey(a trie.PathArity) []byte {
	return scriptKey("abcdefgh"[sym.Choice("k", 8)], a)
}

// C09_Scripts: proofs after the scripts.
func C09_Scripts() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	script(w.a, sym.Bound(2, 4), w.op, w.gap)
	w.tr.Commit()
	w.proofs(w.tr, anyScriptKey(w.a), sym.Bytes("other", 20), "trie")
}

// C12_Scripts: a clone is taken in a gap, the original or the clone goes on and is committed or dropped, the other one is
// left as it was.
func C12_Scripts() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	var c *world
	var saved ref
	script(w.a, sym.Bound(3, 5), func(k, v []byte) { w.op(k, v) }, func(i int) {
		n := 5
		if c != nil {
			n = 2 // the clone reads from the same store
		}
		switch sym.Choice("gap", n) {
		case 1:
			w.tr.Commit()
		case 2:
			w.persist()
			saved = w.r
		case 3:
			w.persist()
			w.tr.ClearCache()
			saved = w.r
		case 4:
			c = w.clone()
			if i%2 == 0 {
				w, c = c, w
			}
		}
	})
	if sym.Choice("end", 2) == 0 {
		w.committed("the one that went on")
	} else {
		w.tr.ClearCache()
		w.r = saved
		w.checkNode(w.tr, nil, w.r.canon(w.a))
		w.committed("after dropping")
	}
	if c != nil {
		c.committed("the other one")
	}
}

// C13_Scripts: a trie with the optimizations and one without them go through the scripts.
func C13_Scripts() {
	a := pickArity()
	t := [...]int{0, 1, 20, 33}[sym.Choice("t", 4)]
	w1, w2 := newWorld(a, trie_blake2b.HashSize256), optWorld(a, trie_blake2b.HashSize256, t, t == 0)
	script(a, sym.Bound(2, 4), func(k, v []byte) {
		w1.op(k, v)
		w2.op(k, v)
	}, func(i int) {
		switch sym.Choice("gap", 3) {
		case 1:
			w1.tr.Commit()
			w2.tr.Commit()
		case 2:
			w1.persist()
			w2.keepValues()
			w2.persist()
			if i%2 == 0 {
				w2.tr.ClearCache()
			} else {
				w2.reopen()
			}
		}
	})
	w1.tr.Commit()
	w2.tr.Commit()
	k := anyScriptKey(a)
	if t == 0 {
		// key commitments change the root of pairs whose value is the key
		w1 = w2
	}
	same(w1, w2, w1.tr, w2.tr, k, "before persisting")
	w2.checkRoot(w2.tr, "before persisting")
	w2.keepValues()
	w2.tr.PersistMutations(w2.store)
	rd := trie.NewTrieReader(w2.m, w2.store, w2.vals)
	same(w1, w2, w1.tr, rd, k, "after persisting")
	w2.content(rd, "after persisting")
	w2.storeIs("after persisting")
	sym.Assert(len(w2.tr.Reconcile(w2.vals)) == 0, "the trie reconciles with the values")
}

// C17_Scripts: the scripts in batches.
func C17_Scripts() {
	b := newBatchWorld()
	script(b.w.a, sym.Bound(3, 5), func(k, v []byte) {
		b.u.Update(k, v)
		b.w.r = b.w.r.with(k, v)
	}, func(i int) {
		g := sym.Choice("gap", 4)
		if g >= 2 {
			b.kvs.fail = map[string]int{[...]string{"commit", "flush"}[i%2]: 1}
			before := b.kvs.snapshot()
			err := b.u.Commit()
			if b.kvs.fail["commit"] == 0 && b.kvs.fail["flush"] == 0 {
				sym.Assert(err != nil, "a failed commit is reported")
			}
			b.kvs.fail = nil
			if err != nil && i%2 == 0 {
				sym.Assert(b.kvs.same(before), "a failed commit leaves the store unchanged")
			}
		}
		if g == 1 || g == 3 {
			sym.Assert(b.u.Commit() == nil, "the commit succeeds")
			b.stored("a batch")
			if i == 1 {
				b.open()
			}
		}
	})
	sym.Assert(b.u.Commit() == nil, "the commit succeeds")
	b.stored("the last batch")
}

package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// inspect describes everything there is to see of the trie: all nodes under the key, the proof of a key, the cache and the model.
func (w *world) inspect(tr trie.NodeStore, key []byte) {
	n, ok := tr.GetNode(key)
	if !ok {
		return
	}
	sym.Assert(trie.ToString(n) != "", "a node is described")
	if t := n.Terminal(); t != nil {
		sym.Assert(len(t.String()) > 0, "a commitment to data is described")
	}
	for i := 0; i < w.a.NumChildren(); i++ {
		if w.a == trie.PathArity256 && i >= 4 && i < 250 {
			continue
		}
		if c, ok := n.ChildCommitments()[byte(i)]; ok {
			if c != nil {
				sym.Assert(c.String() != "", "a commitment is described")
			}
			w.inspect(tr, append(append(clone(key), n.PathFragment()...), byte(i)))
		}
	}
}

func (w *world) describe(k []byte) {
	w.inspect(w.tr, nil)
	sym.Assert(trie.GetProofGeneric(w.tr, digits(k, w.a)).String() != "", "a generic proof is described")
	_ = w.tr.DangerouslyDumpCacheToString()
	sym.Assert(w.tr.Info() != "" && w.m.ShortName() != "" && w.m.Description() != "" && w.a.String() != "" && w.m.HashSize().String() != "", "the model is described")
}

// C25_Inspect: descriptions, on committed and on uncommitted changes, do not fail and change nothing.
func C25_Inspect() {
	w := newWorld(pickArity(), pickHash())
	w.history(1, sym.Bound(1, 2))
	uncommitted := sym.Choice("uncommitted", 2) == 1
	if !uncommitted {
		w.tr.Commit()
	}
	w.describe(symKey("readkey", w.a, 0, maxKey(w.a)))
	if !uncommitted {
		w.checkRoot(w.tr, "after inspection")
	}
	w.committed("commit after inspection")
	w.tr.PersistMutations(w.store)
	w.describe(nil)
	rd := trie.NewTrieReader(w.m, w.store, nil)
	w.inspect(rd, nil)
	sym.Assert(rd.Info() != "", "the reader is described")
	w.checkNode(rd, nil, w.r.canon(w.a))
	w.storeIs("persist after inspection")
}

// C25_Scripts: the same between the operations of the scripts.
func C25_Scripts() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	k := anyScriptKey(w.a)
	at := sym.Choice("at", sym.Bound(3, 5))
	script(w.a, sym.Bound(3, 5), w.op, func(i int) {
		w.gap(i)
		if i == at {
			w.describe(k)
		}
	})
	w.committed("commit after inspection")
	w.describe(k)
	w.checkRoot(w.tr, "after inspection")
}

// C25_Root: the root commitment from its bytes.
func C25_Root() {
	w := newWorld(pickArity(), pickHash())
	w.base(1 + sym.Choice("n", 2))
	c := trie.RootCommitment(w.tr)
	b := c.Bytes()
	switch sym.Choice("kind", 3) {
	case 0:
		d, err := w.tr.VectorCommitmentFromBytes(b)
		sym.Assert(err == nil && w.m.EqualCommitments(c, d) && eq(d.Bytes(), b), "the root commitment read back is equal")
	case 1:
		_, err := w.tr.VectorCommitmentFromBytes(b[:sym.Choice("cut", len(b))])
		sym.Assert(err != nil, "bytes cut short are refused")
	case 2:
		_, err := w.tr.VectorCommitmentFromBytes(append(clone(b), sym.Bytes("x", 1+sym.Choice("more", 3))...))
		sym.Assert(err != nil, "bytes that go on are refused")
	}
	sym.Cover("end")
}

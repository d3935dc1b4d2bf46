package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

func rootBytes(tr trie.NodeStore) []byte {
	c := trie.RootCommitment(tr)
	if c == nil {
		return nil
	}
	return c.Bytes()
}

// honest checks the proof for key k: v is the value the trie holds for k, nil if none; x is another value.
func honest(p *trie_blake2b.Proof, root, v, x []byte, what string) {
	sym.Assert(trie_blake2b_verify.Validate(p, root) == nil, what+": the proof validates against the root")
	sym.Assert(trie_blake2b_verify.IsProofOfAbsence(p) == (v == nil), what+": it is a proof of absence exactly if the key is absent")
	if v == nil {
		sym.Assert(trie_blake2b_verify.ValidateWithValue(p, root, x) != nil, what+": a proof of absence validates with no value")
		return
	}
	sym.Assert(trie_blake2b_verify.ValidateWithValue(p, root, v) == nil, what+": the proof validates with the value")
	if !eq(x, v) {
		bad := trie_blake2b_verify.ValidateWithValue(p, root, x) == nil
		// the commitment to data of up to the hash size is the data, so it can be the hash of longer data
		hs := int(p.HashSize)
		sym.Finding("C09-raw-hash", bad && (len(x) <= hs) != (len(v) <= hs) && eq(refCommit(x, hs), refCommit(v, hs)))
		sym.Assert(!bad, what+": the proof validates with no other value")
	}
}

func (w *world) proofs(tr trie.NodeStore, k, x []byte, what string) {
	root := rootBytes(tr)
	p := w.m.Proof(k, tr)
	sym.Assert(eq(p.Key, digits(k, w.a)), what+": the proof is about the key")
	v := w.r.get(k)
	honest(p, root, v, x, what)
	q, err := trie_blake2b.ProofFromBytes(p.Bytes())
	sym.Assert(err == nil, what+": the proof is deserialized")
	honest(q, root, v, x, what+", deserialized")
	if len(root) > 0 {
		other := sym.Bytes("root", len(root))
		if !eq(other, root) {
			sym.Assert(trie_blake2b_verify.Validate(p, other) != nil, what+": the proof validates against no other root")
		}
	}
	sym.Cover("end")
}

// C09_History: proofs of any key after a history.
func C09_History() {
	w := newWorld(pickArity(), pickHash())
	w.history(sym.Bound(1, 2), sym.Bound(1, 2))
	w.tr.Commit()
	w.proofs(w.tr, symKey("proofkey", w.a, 0, maxKey(w.a)), sym.Bytes("other", sym.Choice("otherlen", 3)), "trie")
}

// C09_Reader: proofs of any key in a persisted trie of up to 3 keys, from a reader.
func C09_Reader() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.base(sym.Choice("n", 4))
	w.proofs(trie.NewTrieReader(w.m, w.store, nil), symKey("proofkey", w.a, 0, maxKey(w.a)), sym.Bytes("other", 1), "reader")
}

// C09_Values: values around the hash size, and another value of any such length.
func C09_Values() {
	a, hs := pickArity(), pickHash()
	w := newWorld(a, hs)
	lens := [...]int{1, int(hs) - 1, int(hs), int(hs) + 1, 2*int(hs) + 3}
	k := symKey("key", a, 0, 1)
	w.update(k, sym.Bytes("val", lens[sym.Choice("len", 5)]))
	if sym.Choice("second", 2) == 1 {
		w.update(symKey("key2", a, 0, 1), sym.Bytes("val2", 2))
	}
	w.tr.Commit()
	w.proofs(w.tr, k, sym.Bytes("other", lens[sym.Choice("otherlen", 5)]), "trie")
}

// C09_Snapshot: a proof states the committed state in which it was made, whatever happens to the trie later.
func C09_Snapshot() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	n := 1 + sym.Choice("n", 2)
	w.base(n)
	if sym.Choice("keep", 2) == 0 {
		w.tr.ClearCache()
	}
	k := symKey("proofkey", w.a, 0, maxKey(w.a))
	v := w.r.get(k)
	root := rootBytes(w.tr)
	p := w.m.Proof(k, w.tr)
	data := p.Bytes()
	w.step()
	w.tr.Commit()
	if sym.Choice("persist", 2) == 1 {
		w.tr.PersistMutations(w.store)
		w.tr.ClearCache()
	}
	sym.Assert(eq(p.Bytes(), data), "a proof does not change with the trie")
	honest(p, root, v, sym.Bytes("other", 1), "old proof")
}

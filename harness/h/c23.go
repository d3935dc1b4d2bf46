package h

import (
	"io"

	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// c23World is a persisted trie of up to n pairs, with perhaps key commitments, values in a value store, or partitions of a hive store.
func c23World(n int) (*world, *trie.TrieReader) {
	a := pickArity()
	var w *world
	kind := sym.Choice("kind", 3)
	switch kind {
	case 0:
		w = newWorld(a, trie_blake2b.HashSize160)
	case 1:
		w = optWorld(a, trie_blake2b.HashSize256, 1, true)
	default:
		kvs := &fakeKVS{nolog: true}
		w = &world{a: a, m: trie_blake2b.New(a, trie_blake2b.HashSize160, 1)}
		w.store, w.vals = hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{1}), hive_adaptor.NewHiveKVStoreAdaptor(kvs, []byte{2})
		w.reopen()
	}
	var prev []byte
	l := sym.Choice("n", n+1)
	for i := 0; i < l; i++ {
		k := symKey("key", a, 0, maxKey(a))
		if i > 0 {
			sym.Assume(less(prev, k))
		}
		prev = k
		v := sym.Bytes("val", 1+sym.Choice("len", 2))
		if kind == 1 && len(k) > 0 && sym.Choice("keycommitment", 2) == 1 {
			v = k
		} else if kind == 1 {
			sym.Assume(!eq(v, digits(k, a)))
		}
		w.update(k, v)
	}
	w.tr.Commit()
	if w.vals != nil {
		w.keepValues()
	}
	w.tr.PersistMutations(w.store)
	return w, trie.NewTrieReader(w.m, w.store, w.vals)
}

// C23_Reader: nodes, root and content read from one reader.
func C23_Reader() {
	w, rd := c23World(sym.Bound(2, 3))
	u := digits(symKey("query", w.a, 0, maxKey(w.a)), w.a)
	sym.Pure("reading from a reader writes to no shared memory", func() {
		trie.RootCommitment(rd)
		if n, ok := rd.GetNode(u); ok {
			n.PathFragment()
			n.Terminal()
			n.ChildCommitments()
			n.Key()
		}
		terminals(rd, nil)
		rd.Model().PathArity()
		rd.PathArity()
		rd.Info()
	}, w, rd, u)
	sym.Pure("another reader of the same stores writes to no shared memory", func() {
		trie.RootCommitment(trie.NewTrieReader(w.m, w.store, w.vals))
	}, w, rd)
}

// C23_Proof: proofs made from one reader.
func C23_Proof() {
	w, rd := c23World(2)
	q := symKey("query", w.a, 0, maxKey(w.a))
	sym.Pure("generating a proof from a reader writes to no shared memory", func() {
		w.m.Proof(q, rd)
		trie.GetProofGeneric(rd, trie.UnpackBytes(q, w.a))
	}, w, rd, q)
}

// C23_Validate: one proof validated, serialized and inspected.
func C23_Validate() {
	w, rd := c23World(2)
	q := symKey("query", w.a, 0, maxKey(w.a))
	p := w.m.Proof(q, rd)
	if sym.Choice("read back", 2) == 1 {
		var err error
		p, err = trie_blake2b.ProofFromBytes(p.Bytes())
		sym.Assert(err == nil, "the proof is read back")
	}
	root := rootBytes(rd)
	if len(root) > 0 && sym.Choice("wrong root", 2) == 1 {
		root = sym.Bytes("root", len(root))
	}
	v := sym.Bytes("other", 1)
	sym.Pure("validating and inspecting a proof writes to no shared memory", func() {
		trie_blake2b_verify.Validate(p, root)
		trie_blake2b_verify.ValidateWithValue(p, root, v)
		trie_blake2b_verify.IsProofOfAbsence(p)
		trie_blake2b_verify.MustKeyWithTerminal(p)
		trie_blake2b_verify.CommitmentToTheTerminalNode(p)
	}, w, rd, p, root, v)
	sym.Pure("serializing a proof writes to no shared memory", func() {
		p.Bytes()
		p.Write(io.Discard)
		trie.Size(p)
	}, w, rd, p)
}

// C23_Model: the model, commitments and node data.
func C23_Model() {
	m := trie_blake2b.New(pickArity(), pickHash(), sym.Choice("threshold", 2))
	n := trie.NewNodeData()
	n.PathFragment = anyBytes("pf", 0, 2)
	hs := int(m.HashSize())
	d := sym.Bytes("data", [...]int{0, 1, hs, hs + 1}[sym.Choice("len", 4)])
	n.Terminal = m.CommitToData(d)
	switch sym.Choice("children", 3) {
	case 1:
		n.ChildCommitments[0] = symVC(m, "child")
	case 2:
		n.ChildCommitments[0] = symVC(m, "child")
		n.ChildCommitments[1] = symVC(m, "child")
	}
	for _, x := range n.PathFragment {
		sym.Assume(int(x) <= int(m.PathArity()))
	}
	sym.Pure("the model writes to no shared memory", func() {
		c := m.CalcNodeCommitment(n)
		m.CommitToData(d)
		m.EqualCommitments(c, c)
		m.EqualCommitments(n.Terminal, m.CommitToData(d))
		for _, x := range n.ChildCommitments {
			m.EqualCommitments(x, c)
			x.Bytes()
			x.Clone()
		}
		if n.Terminal != nil {
			n.Terminal.Bytes()
			n.Terminal.Clone()
			m.ForceStoreTerminalWithNode(n.Terminal)
		}
		n.Clone()
		m.NewVectorCommitment()
		m.NewTerminalCommitment()
		if n.Terminal != nil || len(n.ChildCommitments) > 0 {
			n.Write(io.Discard, m.PathArity(), false, false)
		}
	}, m, n, d)
}

// C23_Pack: packing and unpacking of keys.
func C23_Pack() {
	a := pickArity()
	k := symKey("key", a, 0, 2)
	u := digits(k, a)
	sym.Pure("packing and unpacking write to no shared memory", func() {
		trie.UnpackBytes(k, a)
		trie.EncodeUnpackedBytes(u, a)
		enc, _ := trie.EncodeUnpackedBytes(u, a)
		trie.DecodeToUnpackedBytes(enc, a)
	}, k, u)
}

package h

import (
	"bytes"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// symVC is an arbitrary vector commitment of the model.
func symVC(m *trie_blake2b.CommitmentModel, name string) trie.VCommitment {
	c := m.NewVectorCommitment()
	if err := c.Read(bytes.NewReader(sym.Bytes(name, int(m.HashSize())))); err != nil {
		panic(err)
	}
	return c
}

// symPath is an arbitrary path of lo..hi elements of the arity.
func symPath(name string, a trie.PathArity, lo, hi int) []byte {
	p := anyBytes(name, lo, hi)
	sym.Assume(inRange(p, a))
	return p
}

// valueLens are the lengths around the limits of the commitment formats.
var valueLens = [...]int{1, 2, 19, 20, 21, 31, 32, 33, 64, 100}

func symValue(name string) []byte {
	return sym.Bytes(name, valueLens[sym.Choice(name+".len", len(valueLens))])
}

// symIndices are up to max different child indices, in increasing order.
func symIndices(a trie.PathArity, max int) []byte {
	if max > int(a)+1 {
		max = int(a) + 1
	}
	idx := anyBytes("child", 0, max)
	for i := range idx {
		sym.Assume(int(idx[i]) <= int(a))
		if i > 0 {
			sym.Assume(idx[i-1] < idx[i])
		}
	}
	return idx
}

// smallIndices restricts the indices of arity 256 to a few on both ends of the range.
func smallIndices(a trie.PathArity, idx []byte) {
	if a == trie.PathArity256 {
		for _, i := range idx {
			sym.Assume(i <= 1 || i == 8 || i >= 254)
		}
	}
	if a == trie.PathArity16 {
		for _, i := range idx {
			sym.Assume(i <= 1 || i == 8 || i >= 14)
		}
	}
}

func symThreshold() int { return [...]int{0, 1, 20, 33, 1000}[sym.Choice("threshold", 5)] }

// nodeRoundTrip writes and reads a node and compares.
func nodeRoundTrip(m *trie_blake2b.CommitmentModel, a trie.PathArity, n *trie.NodeData, key []byte, keyFlag, skip bool, vals trie.KVReader) {
	var buf bytes.Buffer
	err := n.Write(&buf, a, keyFlag, skip)
	sym.Assert(err == nil, "a committing node is serialized")
	r, err := trie.NodeDataFromBytes(m, buf.Bytes(), key, a, vals)
	sym.Assert(err == nil, "a serialized node is deserialized")
	sym.Assert(eq(r.PathFragment, n.PathFragment), "same path fragment")
	sym.Assert(len(r.ChildCommitments) == len(n.ChildCommitments), "same number of children")
	for i, c := range n.ChildCommitments {
		x, ok := r.ChildCommitments[i]
		sym.Assert(ok && x != nil && m.EqualCommitments(x, c), "same child commitment at the same index")
	}
	sym.Assert((r.Terminal == nil) == (n.Terminal == nil), "the terminal is present or absent as before")
	if n.Terminal != nil {
		sym.Assert(m.EqualCommitments(r.Terminal, n.Terminal), "equal terminal")
		sym.Assert(m.ForceStoreTerminalWithNode(r.Terminal) == m.ForceStoreTerminalWithNode(n.Terminal), "the terminal is treated the same by later serializations")
	}
	sym.Assert(m.EqualCommitments(m.CalcNodeCommitment(r), m.CalcNodeCommitment(n)), "equal node commitment")
	sym.Cover("end")
}

// C03_Children: nodes with any fragment, a short terminal or none, up to 3 children.
func C03_Children() {
	a := pickArity()
	m := trie_blake2b.New(a, pickHash(), 0)
	n := trie.NewNodeData()
	n.PathFragment = symPath("pf", a, 0, 3)
	idx := symIndices(a, sym.Bound(3, 3))
	smallIndices(a, idx)
	for _, i := range idx {
		n.ChildCommitments[i] = symVC(m, "vc")
	}
	if sym.Choice("terminal", 2) == 1 {
		n.Terminal = m.CommitToData(sym.Bytes("val", 2))
	}
	if n.Terminal == nil && len(idx) == 0 {
		var buf bytes.Buffer
		sym.Assert(n.Write(&buf, a, sym.Choice("kf", 2) == 1, sym.Choice("sk", 2) == 1) != nil, "a node that commits to nothing is refused")
		return
	}
	keyFlag, skip := false, false
	if n.Terminal == nil { // the options concern the terminal only
		keyFlag, skip = sym.Choice("kf", 2) == 1, sym.Choice("sk", 2) == 1
	}
	nodeRoundTrip(m, a, n, symPath("key", a, 0, 1), keyFlag, skip, nil)
}

// C03_AnyIndex: one child at any index.
func C03_AnyIndex() {
	a := pickArity()
	m := trie_blake2b.New(a, trie_blake2b.HashSize160, 0)
	n := trie.NewNodeData()
	i := sym.Byte("index")
	sym.Assume(int(i) <= int(a))
	n.ChildCommitments[i] = symVC(m, "vc")
	nodeRoundTrip(m, a, n, nil, false, false, nil)
}

// C03_Terminals: terminals of values of any length class, stored in the node, in the key or in the value store.
func C03_Terminals() {
	a := pickArity()
	m := trie_blake2b.New(a, pickHash(), symThreshold())
	n := trie.NewNodeData()
	unit := unit(a)
	n.PathFragment = symPath("pf", a, 0, sym.Bound(2, 4))
	if sym.Choice("children", 2) == 1 {
		n.ChildCommitments[1] = symVC(m, "vc")
	}
	var key []byte
	vals := trie.NewInMemoryKVStore()
	switch sym.Choice("kind", 4) {
	case 0: // stored in the node
		key = symPath("key", a, 0, 1)
		n.Terminal = m.CommitToData(symValue("val"))
		nodeRoundTrip(m, a, n, key, false, false, vals)
	case 1: // in the value store
		key = symPath("key", a, 0, 2)
		full := append(clone(key), n.PathFragment...)
		if len(full)%unit != 0 {
			key = append(key, make([]byte, unit-len(full)%unit)...)
			full = append(clone(key), n.PathFragment...)
		}
		v := symValue("val")
		k, err := trie.PackUnpackedBytes(full, a)
		sym.Assert(err == nil, "a full key is packed")
		vals.Set(k, v)
		n.Terminal = m.CommitToData(v)
		nodeRoundTrip(m, a, n, key, false, true, vals)
	default: // in the key
		key = symPath("key", a, 1, 40)
		n.Terminal = m.CommitToData(append(clone(key), n.PathFragment...))
		nodeRoundTrip(m, a, n, key, true, sym.Choice("sk", 2) == 1, vals)
	}
}

// C03_Large: long path fragments, whose length needs more than one byte.
func C03_Large() {
	a := pickArity()
	m := trie_blake2b.New(a, trie_blake2b.HashSize256, 0)
	n := trie.NewNodeData()
	lens := [...]int{31, 32, 33, 64, 255, 256, 257, 300}
	nl := 8
	if a != trie.PathArity256 {
		nl = sym.Bound(3, 8)
	}
	l := lens[sym.Choice("len", nl)]
	n.PathFragment = sym.Bytes("pf", l)
	sym.Assume(inRange(n.PathFragment, a))
	n.Terminal = m.CommitToData(sym.Bytes("val", 1))
	nodeRoundTrip(m, a, n, symPath("key", a, 0, 1), false, false, nil)
}

package hk

import (
	"bytes"

	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// anyNode is a node with children at any of the indices 0, 1, 255.
func anyNode(n int) *trie.NodeData {
	x := trie.NewNodeData()
	x.PathFragment = sym.Bytes("pf", [...]int{0, 1, 2, 31, 32, 255, 256, 300}[sym.Choice("pf.len", sym.Bound(6, 8))])
	for _, i := range indices[:n] {
		if sym.Choice("child", 2) == 1 {
			x.ChildCommitments[i] = anyVC("vc")
		}
	}
	return x
}

func sameNode(r, n *trie.NodeData) {
	sym.Assert(eq(r.PathFragment, n.PathFragment), "same path fragment")
	sym.Assert(len(r.ChildCommitments) == len(n.ChildCommitments), "same number of children")
	for i, c := range n.ChildCommitments {
		x, ok := r.ChildCommitments[i]
		sym.Assert(ok && x != nil && m.EqualCommitments(x, c), "same child commitment at the same index")
	}
	sym.Assert((r.Terminal == nil) == (n.Terminal == nil) && m.EqualCommitments(r.Terminal, n.Terminal), "equal terminal")
	sym.Assert(m.EqualCommitments(m.CalcNodeCommitment(r), m.CalcNodeCommitment(n)), "equal node commitment")
}

// C03_KZGNode: nodes of the KZG model with the terminal in the node, in the value store or in the key.
func C03_KZGNode() {
	n := anyNode(3)
	vals := trie.NewInMemoryKVStore()
	key := sym.Bytes("key", sym.Choice("key.len", 2))
	var buf bytes.Buffer
	kind := sym.Choice("kind", 4)
	keyFlag, skip := false, false
	switch kind {
	case 1:
		n.Terminal = m.CommitToData(sym.Bytes("val", 1+sym.Choice("val.len", 2)))
	case 2:
		skip = true
		v := sym.Bytes("val", 2)
		n.Terminal = m.CommitToData(v)
		vals.Set(append(append([]byte{}, key...), n.PathFragment...), v)
	case 3:
		keyFlag = true
		n.Terminal = m.CommitToData(append(append([]byte{}, key...), n.PathFragment...))
		sym.Assume(len(key) > 0) // as the trie does: not for the root
	}
	err := n.Write(&buf, trie.PathArity256, keyFlag, skip)
	if n.Terminal == nil && len(n.ChildCommitments) == 0 {
		sym.Assert(err != nil, "a node that commits to nothing is refused")
		return
	}
	sym.Assert(err == nil, "a committing node is serialized")
	r, err := trie.NodeDataFromBytes(m, buf.Bytes(), key, trie.PathArity256, vals)
	sym.Assert(err == nil, "a serialized node is deserialized")
	sameNode(r, n)
}

// C02_KZGCut: a strict prefix of a node of the KZG model and an extended one are refused.
func C02_KZGCut() {
	sym.MaxAlloc(100)
	n := anyNode(2)
	if sym.Choice("terminal", 2) == 1 {
		n.Terminal = m.CommitToData(sym.Bytes("val", 1))
	}
	if n.Terminal == nil && len(n.ChildCommitments) == 0 {
		return
	}
	var buf bytes.Buffer
	sym.Assert(n.Write(&buf, trie.PathArity256, false, false) == nil, "a committing node is serialized")
	b := buf.Bytes()
	if sym.Choice("extend", 2) == 1 {
		b = append(b, sym.Byte("x"))
	} else {
		cut := sym.Choice("cut", 70)
		if sym.Choice("end", 2) == 1 {
			cut = len(b) - 1 - cut
		}
		sym.Assume(cut >= 0 && cut < len(b))
		b = b[:cut]
	}
	_, err := trie.NodeDataFromBytes(m, b, nil, trie.PathArity256, nil)
	sym.Assert(err != nil, "a truncated or extended node is refused")
}

// C02_KZGNode: reading arbitrary bytes as a node of the KZG model, or as a commitment, never panics.
func C02_KZGNode() {
	sym.MaxAlloc(100)
	data := sym.Bytes("data", [...]int{0, 1, 2, 3, 4, 31, 33, 65, 66, 32, 34, 35, 64, 97, 98}[sym.Choice("len", sym.Bound(9, 15))])
	switch sym.Choice("as", 3) {
	case 0:
		n, err := trie.NodeDataFromBytes(m, data, nil, trie.PathArity256, nil)
		if err != nil {
			sym.Cover("refused")
			return
		}
		m.CalcNodeCommitment(n)
	case 1:
		c := m.NewTerminalCommitment()
		if c.Read(bytes.NewReader(data)) == nil {
			sym.Assert(m.EqualCommitments(c, c.Clone()), "what is read is a commitment")
		}
	default:
		c := m.NewVectorCommitment()
		if c.Read(bytes.NewReader(data)) == nil {
			sym.Assert(m.EqualCommitments(c, c.Clone()), "what is read is a commitment")
		}
	}
}

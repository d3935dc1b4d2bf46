package h

import (
	"bytes"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// symCommitment is an arbitrary commitment of the model, of either kind or absent, made from data or read from bytes.
func symCommitment(m *trie_blake2b.CommitmentModel, name string) trie.Serializable {
	hs := int(m.HashSize())
	switch sym.Choice(name+".kind", 5) {
	case 0:
		return nil
	case 1:
		return m.CommitToData(sym.Bytes(name, [...]int{1, 2, hs - 1, hs, hs + 1}[sym.Choice(name+".len", 5)]))
	case 2: // as stored in a node
		l := [...]int{0, 1, hs - 1, hs}[sym.Choice(name+".len", 4)]
		c := m.NewTerminalCommitment()
		if err := c.Read(bytes.NewReader(append([]byte{byte(l) | 0xC0}, sym.Bytes(name, l)...))); err != nil {
			panic(err)
		}
		return c
	case 3:
		return symVC(m, name)
	}
	n := trie.NewNodeData()
	n.Terminal = m.CommitToData(sym.Bytes(name, 1))
	return m.CalcNodeCommitment(n)
}

// C18_Equality: equality of commitments is an equivalence in which absent ones are equal only to absent ones.
func C18_Equality() {
	m := trie_blake2b.New(trie.PathArity16, pickHash())
	a, b := symCommitment(m, "a"), symCommitment(m, "b")
	sym.Assert(m.EqualCommitments(a, a), "equality is reflexive")
	e := m.EqualCommitments(a, b)
	sym.Assert(e == m.EqualCommitments(b, a), "equality is symmetric")
	if a == nil || b == nil {
		sym.Assert(e == (a == nil && b == nil), "absent commitments are equal only to absent ones")
		return
	}
	_, at := a.(trie.TCommitment)
	_, bt := b.(trie.TCommitment)
	if at != bt {
		sym.Assert(!e, "commitments of different kinds are not equal")
		return
	}
	ab, bb := a.Bytes(), b.Bytes()
	if at { // the first byte holds the length and the storage hint
		ab[0], bb[0] = ab[0]&0x3f, bb[0]&0x3f
	}
	sym.Assert(e == eq(ab, bb), "equality agrees with equality of the bytes")
}

// C18_Transitive: equality is transitive.
func C18_Transitive() {
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize160)
	a, b, c := symCommitment(m, "a"), symCommitment(m, "b"), symCommitment(m, "c")
	if m.EqualCommitments(a, b) && m.EqualCommitments(b, c) {
		sym.Cover("equal")
		sym.Assert(m.EqualCommitments(a, c), "equality is transitive")
	}
}

// C18_Nils: all forms of absence are equal.
func C18_Nils() {
	m := trie_blake2b.New(pickArity(), pickHash())
	sym.Assert(m.CommitToData(nil) == nil && m.CommitToData([]byte{}) == nil, "empty data have no commitment")
	sym.Assert(m.CalcNodeCommitment(trie.NewNodeData()) == nil, "an empty node has no commitment")
	n := trie.NewNodeData()
	n.PathFragment = symPath("pf", m.PathArity(), 0, 2)
	sym.Assert(m.CalcNodeCommitment(n) == nil, "a node without terminal and children has no commitment")
	var t trie.TCommitment
	var v trie.VCommitment
	sym.Assert(m.EqualCommitments(nil, nil) && m.EqualCommitments(t, v) && m.EqualCommitments(m.CommitToData(nil), nil), "absent commitments are equal")
	sym.Assert(!m.EqualCommitments(nil, m.CommitToData(sym.Bytes("d", 1))), "a commitment is not an absent one")
}

// C18_Data: different data have different commitments, equal data equal ones; data of up to the hash size are not hashed.
func C18_Data() {
	hs := pickHash()
	m := trie_blake2b.New(trie.PathArity16, hs, [...]int{0, 10, 1000}[sym.Choice("t", 3)])
	h := int(hs)
	lens := [...]int{1, 2, 3, h - 1, h, h + 1, h + 2, 2 * h, 200}
	i, j := sym.Choice("l1", 9), sym.Choice("l2", 9)
	x, y := sym.Bytes("x", lens[i]), sym.Bytes("y", lens[j])
	cx, cy := m.CommitToData(x), m.CommitToData(y)
	sym.Assert(cx != nil && cy != nil, "data have a commitment")
	e := m.EqualCommitments(cx, cy)
	if eq(x, y) {
		sym.Assert(e, "equal data have equal commitments")
		sym.Assert(eq(cx.Bytes(), cy.Bytes()), "and equal bytes")
	} else if (len(x) <= h) == (len(y) <= h) {
		sym.Assert(!e, "different data have different commitments")
	}
}

// C18_LongData: long data, given but for two bytes.
func C18_LongData() {
	hs := pickHash()
	m := trie_blake2b.New(trie.PathArity16, hs)
	n := [...]int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537}[sym.Choice("len", sym.Bound(11, 13))]
	x := longBytes(n, func(i int) byte { return byte(i) })
	y := clone(x)
	at := [...]int{0, n / 2, n - 1}[sym.Choice("where", 3)]
	y[at] = sym.Byte("y")
	sym.Assert(m.EqualCommitments(m.CommitToData(x), m.CommitToData(y)) == (x[at] == y[at]), "exactly equal data have equal commitments")
	z := append(clone(x), sym.Byte("z"))
	sym.Assert(!m.EqualCommitments(m.CommitToData(x), m.CommitToData(z)), "longer data have another commitment")
}

// C18_RoundTrip: cloning and serializing commitments, alone and followed by other data.
func C18_RoundTrip() {
	m := trie_blake2b.New(pickArity(), pickHash(), [...]int{0, 20, 1000}[sym.Choice("t", 3)])
	var c, d, e trie.Serializable
	var force bool
	if sym.Choice("vector", 2) == 1 {
		v := symVC(m, "vc")
		c, d, e = v, v.Clone(), m.NewVectorCommitment()
	} else {
		t := m.CommitToData(symValue("val"))
		c, d, e = t, t.Clone(), m.NewTerminalCommitment()
		force = m.ForceStoreTerminalWithNode(t)
		sym.Assert(m.ForceStoreTerminalWithNode(d.(trie.TCommitment)) == force, "a clone is stored like the original")
	}
	sym.Assert(m.EqualCommitments(c, d) && eq(c.Bytes(), d.Bytes()), "a clone is equal")
	var buf bytes.Buffer
	sym.Assert(c.Write(&buf) == nil, "a commitment is written")
	sym.Assert(eq(buf.Bytes(), c.Bytes()), "the bytes are what is written")
	sym.Assert(trie.MustSize(c) == buf.Len(), "the size is the number of bytes")
	n := buf.Len()
	buf.Write(sym.Bytes("next", 2))
	rd := bytes.NewReader(buf.Bytes())
	sym.Assert(e.Read(rd) == nil, "a commitment is read")
	sym.Assert(rd.Len() == 2, "what follows is left")
	sym.Assert(m.EqualCommitments(c, e), "the commitment which was read is equal")
	if t, ok := e.(trie.TCommitment); ok {
		if _, isV := c.(trie.VCommitment); !isV {
			sym.Assert(m.ForceStoreTerminalWithNode(t) == force, "and stored alike")
		}
	}
	cut := sym.Choice("cut", n)
	r := bytes.NewReader(buf.Bytes()[:cut])
	if _, isV := c.(trie.VCommitment); isV {
		sym.Assert(m.NewVectorCommitment().Read(r) != nil, "a cut commitment is refused")
	} else {
		sym.Assert(m.NewTerminalCommitment().Read(r) != nil, "a cut commitment is refused")
	}
}

// C18_CloneIndependent: changing a clone or its source leaves the other alone.
func C18_CloneIndependent() {
	m := trie_blake2b.New(trie.PathArity16, pickHash())
	a, b := symVC(m, "a"), symVC(m, "b")
	before := a.Bytes()
	c := a.Clone()
	if sym.Choice("who", 2) == 1 {
		change(c, b)
		sym.Assert(eq(a.Bytes(), before) && eq(c.Bytes(), b.Bytes()), "updating a clone")
	} else {
		change(a, b)
		sym.Assert(eq(c.Bytes(), before) && eq(a.Bytes(), b.Bytes()), "updating the source")
	}
	n := trie.NewNodeData()
	n.PathFragment = symPath("pf", trie.PathArity16, 0, 2)
	n.Terminal = m.CommitToData(sym.Bytes("val", 2))
	n.ChildCommitments[3] = symVC(m, "child")
	x := n.Clone()
	data := nodeBytes(n)
	sym.Assert(eq(nodeBytes(x), data), "a cloned node is equal")
	x.ChildCommitments[4] = a
	change(x.ChildCommitments[3], b)
	if len(x.PathFragment) > 0 {
		x.PathFragment[0] = (x.PathFragment[0] + 1) % 16
	}
	x.Terminal = nil
	sym.Assert(eq(nodeBytes(n), data), "changing a cloned node leaves the node alone")
}

// change makes c the commitment b, in place.
func change(c, b trie.VCommitment) {
	if err := c.Read(bytes.NewReader(b.Bytes())); err != nil {
		panic(err)
	}
}

func nodeBytes(n *trie.NodeData) []byte {
	var buf bytes.Buffer
	if err := n.Write(&buf, trie.PathArity16, false, false); err != nil {
		return nil
	}
	return buf.Bytes()
}

// C18_Incremental: an incremental update of a node is the computation from scratch.
func C18_Incremental() {
	a := pickArity()
	m := trie_blake2b.New(a, pickHash())
	n := trie.NewNodeData()
	n.PathFragment = symPath("pf", a, 0, 1)
	want := trie.NewNodeData()
	want.PathFragment = clone(n.PathFragment)
	ends := func(idx []byte) []byte {
		for _, i := range idx {
			sym.Assume(i <= 1 || int(i) == int(a))
		}
		return idx
	}
	idx := ends(symIndices(a, 2))
	for _, i := range idx {
		c := symVC(m, "vc")
		n.ChildCommitments[i], want.ChildCommitments[i] = c, c.Clone()
	}
	if sym.Choice("terminal", 2) == 1 {
		n.Terminal = m.CommitToData(sym.Bytes("val", 1))
	}
	old := m.CalcNodeCommitment(n)
	// updates: of existing and of new children, and deletions
	upd := map[byte]trie.VCommitment{}
	uidx := ends(symIndices(a, 2))
	for _, i := range uidx {
		if sym.Choice("delete", 2) == 1 {
			upd[i] = nil
			delete(want.ChildCommitments, i)
		} else {
			c := symVC(m, "upd")
			upd[i] = c
			want.ChildCommitments[i] = c.Clone()
		}
	}
	var term trie.TCommitment
	switch sym.Choice("newterminal", 3) {
	case 0:
	case 1:
		term = m.CommitToData(sym.Bytes("newval", 2))
	default:
		term = n.Terminal
	}
	want.Terminal = term
	if len(want.ChildCommitments) == 0 && term == nil {
		return
	}
	var res trie.VCommitment
	delta := sym.Choice("delta", 2) == 1
	update := &res
	switch sym.Choice("old", 3) {
	case 1:
		if old != nil {
			res = old.Clone()
		}
	case 2:
		update = nil
	}
	m.UpdateNodeCommitment(n, upd, delta, term, update)
	sym.Assert(eq(n.PathFragment, want.PathFragment), "the path fragment stays")
	sym.Assert(len(n.ChildCommitments) == len(want.ChildCommitments), "the same number of children")
	for i, c := range want.ChildCommitments {
		x, ok := n.ChildCommitments[i]
		sym.Assert(ok && m.EqualCommitments(x, c), "the same child commitments")
	}
	sym.Assert(m.EqualCommitments(n.Terminal, term), "the new terminal")
	sym.Assert(m.EqualCommitments(m.CalcNodeCommitment(n), m.CalcNodeCommitment(want)), "the commitment of the node is that from scratch")
	if update != nil {
		sym.Assert(m.EqualCommitments(res, m.CalcNodeCommitment(want)), "the updated commitment is that from scratch")
	}
}

// C18_Binding: nodes with equal commitments have the same children, terminals and fragments (up to the known padding and raw data).
func C18_Binding() {
	a := pickArity()
	hs := pickHash()
	m := trie_blake2b.New(a, hs)
	mk := func(name string) *trie.NodeData {
		n := trie.NewNodeData()
		n.PathFragment = symPath(name+"pf", a, 0, 2)
		for _, i := range [...]byte{0, 1} {
			if sym.Choice(name+"child", 2) == 1 {
				n.ChildCommitments[i] = symVC(m, name+"vc")
			}
		}
		n.Terminal = m.CommitToData(sym.Bytes(name+"val", sym.Choice(name+"vl", 3)))
		return n
	}
	x, y := mk("x"), mk("y")
	cx, cy := m.CalcNodeCommitment(x), m.CalcNodeCommitment(y)
	if cx == nil || cy == nil || !m.EqualCommitments(cx, cy) {
		return
	}
	sym.Cover("equal")
	zero := make([]byte, int(hs))
	for _, i := range [...]byte{0, 1} {
		p, q := zero, zero
		if c := x.ChildCommitments[i]; c != nil {
			p = c.Bytes()
		}
		if c := y.ChildCommitments[i]; c != nil {
			q = c.Bytes()
		}
		sym.Assert(eq(p, q), "the commitment binds the children")
	}
	term := func(n *trie.NodeData) []byte {
		if n.Terminal == nil {
			return nil
		}
		return n.Terminal.Bytes()[1:]
	}
	sym.Assert(samePadded(term(x), term(y)), "the commitment binds the terminal")
	sym.Assert(samePadded(x.PathFragment, y.PathFragment), "the commitment binds the path fragment")
}

package hk

import (
	"bytes"

	kzg "github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

var m = kzg.Model

// anyVC is the commitment of a node with an arbitrary value, one of up to 256.
func anyVC(name string) trie.VCommitment {
	n := trie.NewNodeData()
	n.Terminal = m.CommitToData(sym.Bytes(name, 1))
	return m.CalcNodeCommitment(n)
}

func write(c trie.Serializable) []byte {
	var buf bytes.Buffer
	if err := c.Write(&buf); err != nil {
		return nil
	}
	return buf.Bytes()
}

// anyC is an arbitrary commitment: absent, of data, of a node, or one of these read back.
func anyC(name string) trie.Serializable {
	switch sym.Choice(name+".kind", 6) {
	case 0:
		return nil
	case 1:
		return m.CommitToData(sym.Bytes(name, 1+sym.Choice(name+".len", 2)))
	case 2:
		c := m.NewTerminalCommitment()
		if err := c.Read(bytes.NewReader(m.CommitToData(sym.Bytes(name, 1)).Bytes())); err != nil {
			panic(err)
		}
		return c
	case 3:
		return anyVC(name)
	case 4:
		c := m.NewVectorCommitment()
		if err := c.Read(bytes.NewReader(anyVC(name).Bytes())); err != nil {
			panic(err)
		}
		return c
	}
	c := anyVC(name)
	m.UpdateVCommitment(&c, anyVC(name+".delta"))
	return c
}

// C18_KZGEquality: equality of commitments is an equivalence in which absent ones are equal only to absent ones.
func C18_KZGEquality() {
	a, b := anyC("a"), anyC("b")
	sym.Assert(m.EqualCommitments(a, a), "equality is reflexive")
	e := m.EqualCommitments(a, b)
	sym.Assert(e == m.EqualCommitments(b, a), "equality is symmetric")
	if a == nil || b == nil {
		sym.Assert(e == (a == nil && b == nil), "absent commitments are equal only to absent ones")
		return
	}
	sym.Assert(e == eq(a.Bytes(), b.Bytes()), "equality agrees with equality of the bytes")
}

// C18_KZGNils: all forms of absence are equal.
func C18_KZGNils() {
	sym.Assert(m.CommitToData(nil) == nil && m.CommitToData([]byte{}) == nil, "empty data have no commitment")
	var t trie.TCommitment
	var v trie.VCommitment
	sym.Assert(m.EqualCommitments(nil, nil) && m.EqualCommitments(t, v) && m.EqualCommitments(m.CommitToData(nil), nil), "absent commitments are equal")
	sym.Assert(!m.EqualCommitments(nil, m.CommitToData(sym.Bytes("d", 1))), "a commitment is not an absent one")
}

// C18_KZGData: different data have different commitments.
func C18_KZGData() {
	lens := [...]int{1, 2, 31, 32, 33, 70}
	x, y := sym.Bytes("x", lens[sym.Choice("l1", 6)]), sym.Bytes("y", lens[sym.Choice("l2", 6)])
	cx, cy := m.CommitToData(x), m.CommitToData(y)
	sym.Assert(cx != nil && cy != nil, "data have a commitment")
	sym.Assert(m.EqualCommitments(cx, cy) == eq(x, y), "exactly equal data have equal commitments")
}

// C18_KZGRoundTrip: cloning and serializing commitments, alone and followed by other data.
func C18_KZGRoundTrip() {
	c := anyC("c")
	if c == nil {
		return
	}
	var d, e trie.Serializable
	switch x := c.(type) {
	case trie.VCommitment:
		d, e = x.Clone(), m.NewVectorCommitment()
	case trie.TCommitment:
		sym.Assert(m.ForceStoreTerminalWithNode(x), "terminals can not be recomputed from values: they are stored with the node")
		d, e = x.Clone(), m.NewTerminalCommitment()
	}
	sym.Assert(m.EqualCommitments(c, d) && eq(c.Bytes(), d.Bytes()), "a clone is equal")
	b := write(c)
	sym.Assert(b != nil && eq(b, c.Bytes()), "the bytes are what is written")
	sym.Assert(trie.MustSize(c) == len(b), "the size is the number of bytes")
	rd := bytes.NewReader(append(append([]byte{}, b...), sym.Bytes("next", 2)...))
	sym.Assert(e.Read(rd) == nil, "a commitment is read")
	sym.Assert(rd.Len() == 2, "what follows is left")
	sym.Assert(m.EqualCommitments(c, e) && eq(e.Bytes(), b), "the commitment which was read is equal")
	cut := sym.Choice("cut", len(b))
	if sym.Choice("twice", 2) == 0 {
		sym.Assert(e.Read(bytes.NewReader(b[:cut])) != nil, "a cut commitment is refused")
	}
	sym.Assert(eq(d.Bytes(), b) && eq(c.Bytes(), b), "reading another commitment leaves the clone and the source alone")
}

// C18_KZGCloneIndependent: changing a clone or its source leaves the other alone.
func C18_KZGCloneIndependent() {
	a, b := anyVC("a"), anyVC("b")
	was, other := a.Bytes(), b.Bytes()
	c := a.Clone()
	x, y := c, a
	if sym.Choice("who", 2) == 1 {
		x, y = a, c
	}
	if sym.Choice("how", 2) == 1 {
		m.UpdateVCommitment(&x, b)
	} else if err := x.Read(bytes.NewReader(other)); err != nil {
		panic(err)
	}
	sym.Assert(eq(y.Bytes(), was), "changing a clone or its source leaves the other alone")
	sym.Assert(eq(b.Bytes(), other), "the delta stays")
	var null trie.VCommitment
	m.UpdateVCommitment(&null, b)
	sym.Assert(m.EqualCommitments(null, b), "a delta to an absent commitment is the commitment")
	m.UpdateVCommitment(&null, a)
	sym.Assert(eq(b.Bytes(), other), "the first delta stays")
}

var indices = [...]byte{0, 255, 1}

// C18_KZGIncremental: an incremental update of a node is the computation from scratch.
func C18_KZGIncremental() { incremental(2, sym.Thorough(), true) }

// C18_KZGIncremental3: with three children, deltas only.
func C18_KZGIncremental3() { incremental(3, false, false) }

func incremental(count int, fragments, all bool) {
	n, want := trie.NewNodeData(), trie.NewNodeData()
	if fragments {
		n.PathFragment = anyKey("pf", 1)
	} else {
		n.PathFragment = []byte{1, 2}
	}
	want.PathFragment = append([]byte{}, n.PathFragment...)
	upd := map[byte]trie.VCommitment{}
	kept := map[byte][]byte{}
	names := []string{"a", "b", "c"}
	pick := func(name string) trie.VCommitment {
		if all {
			return anyVC(name)
		}
		x := trie.NewNodeData()
		x.Terminal = m.CommitToData([]byte(name))
		return m.CalcNodeCommitment(x)
	}
	for j, i := range indices[:count] {
		var old trie.VCommitment
		if sym.Choice("child", 2) == 1 {
			old = pick(names[j])
			n.ChildCommitments[i], want.ChildCommitments[i] = old, old.Clone()
			kept[i] = old.Bytes()
		}
		switch sym.Choice("update", 3) {
		case 1:
			upd[i] = nil
			delete(want.ChildCommitments, i)
		case 2:
			upd[i] = pick("new " + names[j])
			want.ChildCommitments[i] = upd[i].Clone()
		}
	}
	if sym.Choice("terminal", 2) == 1 {
		n.Terminal = m.CommitToData([]byte{1, 1})
	}
	old := m.CalcNodeCommitment(n)
	sym.Assert(old != nil, "a node has a commitment")
	was := old.Bytes()
	var term trie.TCommitment
	switch sym.Choice("newterminal", 3) {
	case 0:
	case 1:
		term = m.CommitToData([]byte{2, 2})
	default:
		if n.Terminal != nil {
			term = n.Terminal.Clone()
		}
	}
	want.Terminal = term
	var res trie.VCommitment
	update := &res
	delta := false
	mode := 3
	if all {
		mode = sym.Choice("old", 4)
	}
	switch mode {
	case 1:
		res = old
	case 2:
		update = nil
	case 3:
		res, delta = old, true
	}
	children := map[byte]trie.VCommitment{}
	for i, c := range n.ChildCommitments {
		children[i] = c
	}
	m.UpdateNodeCommitment(n, upd, delta, term, update)
	sym.Assert(eq(old.Bytes(), was), "the old commitment stays")
	for i, c := range children {
		sym.Assert(eq(c.Bytes(), kept[i]), "the old child commitments stay")
	}
	sym.Assert(eq(n.PathFragment, want.PathFragment), "the path fragment stays")
	sym.Assert(len(n.ChildCommitments) == len(want.ChildCommitments), "the same number of children")
	for i, c := range want.ChildCommitments {
		x, ok := n.ChildCommitments[i]
		sym.Assert(ok && m.EqualCommitments(x, c), "the same child commitments")
	}
	sym.Assert(m.EqualCommitments(n.Terminal, term), "the new terminal")
	scratch := m.CalcNodeCommitment(want)
	sym.Assert(m.EqualCommitments(m.CalcNodeCommitment(n), scratch), "the commitment of the node is that from scratch")
	if update != nil {
		sym.Assert(m.EqualCommitments(res, scratch), "the updated commitment is that from scratch")
	}
}

// C18_KZGBinding: nodes with equal commitments are equal.
func C18_KZGBinding() {
	mk := func(name string) *trie.NodeData {
		n := trie.NewNodeData()
		n.PathFragment = anyKey(name+"pf", 2)
		for _, i := range indices[:2] {
			if sym.Choice(name+"child", 2) == 1 {
				n.ChildCommitments[i] = anyVC(name + "vc")
			}
		}
		if sym.Choice(name+"terminal", 2) == 1 {
			n.Terminal = m.CommitToData(sym.Bytes(name+"val", 1))
		}
		return n
	}
	x, y := mk("x"), mk("y")
	same := eq(x.PathFragment, y.PathFragment) && m.EqualCommitments(x.Terminal, y.Terminal)
	for _, i := range indices[:2] {
		p, q := x.ChildCommitments[i], y.ChildCommitments[i]
		if p == nil || q == nil {
			same = same && p == nil && q == nil
		} else {
			same = same && m.EqualCommitments(p, q)
		}
	}
	sym.Assert(m.EqualCommitments(m.CalcNodeCommitment(x), m.CalcNodeCommitment(y)) == same, "exactly equal nodes have equal commitments")
}

// C18_KZGNode: a cloned node is equal and independent.
func C18_KZGNode() {
	n := trie.NewNodeData()
	n.PathFragment = anyKey("pf", 2)
	n.Terminal = m.CommitToData(sym.Bytes("val", 1))
	n.ChildCommitments[3] = anyVC("child")
	data := func(n *trie.NodeData) []byte {
		var buf bytes.Buffer
		if err := n.Write(&buf, trie.PathArity256, false, false); err != nil {
			return nil
		}
		return buf.Bytes()
	}
	x, was := n.Clone(), data(n)
	sym.Assert(eq(data(x), was), "a cloned node is equal")
	d := anyVC("delta")
	c := x.ChildCommitments[3]
	m.UpdateVCommitment(&c, d)
	x.ChildCommitments[4] = d
	if len(x.PathFragment) > 0 {
		x.PathFragment[0]++
	}
	x.Terminal = nil
	sym.Assert(eq(data(n), was), "changing a cloned node leaves the node alone")
}

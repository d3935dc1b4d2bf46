package hk

import (
	"bytes"
	"errors"
	"io"

	kzg "github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// faulty fails in one of its calls, or from one of its calls on; as a reader it delivers pieces.
type faulty struct {
	at, calls int
	sticky    bool
	short     int // the call which delivers less, counted from 1
	most      int
	data      []byte
}

var errFault = errors.New("fault")

func (f *faulty) fails() bool {
	f.calls++
	return f.calls-1 == f.at || f.sticky && f.calls-1 > f.at
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.fails() {
		return 0, errFault
	}
	f.data = append(f.data, p...)
	return len(p), nil
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.fails() {
		return 0, errFault
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(f.data) {
		n = len(f.data)
	}
	if f.most > 0 && n > f.most {
		n = f.most
	}
	if f.calls == f.short && n > 1 {
		n = [...]int{1, n / 2, n - 1}[sym.Choice("chunk", 3)]
	}
	copy(p, f.data[:n])
	f.data = f.data[n:]
	return n, nil
}

// faults states that a failure of any single call of a writer or reader is reported, and that the pieces in which a reader
// delivers the bytes do not matter.
func faults(write func(w io.Writer) error, read func(r io.Reader) error, same func() bool) {
	w := &faulty{at: -1}
	sym.Assert(write(w) == nil, "written")
	data := w.data
	switch sym.Choice("fault", 3) {
	case 0:
		f := &faulty{at: sym.Choice("at", w.calls), sticky: sym.Choice("sticky", 2) == 1}
		sym.Assert(write(f) != nil, "a failure of the writer is reported")
	case 1:
		r := &faulty{data: append([]byte{}, data...), at: -1}
		sym.Assert(read(r) == nil && same(), "read back")
		f := &faulty{data: append([]byte{}, data...), at: sym.Choice("at", r.calls), sticky: sym.Choice("sticky", 2) == 1}
		sym.Assert(read(f) != nil, "a failure of the reader is reported")
	case 2:
		r := &faulty{data: append([]byte{}, data...), at: -1}
		if sym.Choice("one", 2) == 1 {
			c := &faulty{data: append([]byte{}, data...), at: -1}
			sym.Assert(read(c) == nil, "read back")
			r.short = 1 + sym.Choice("at", c.calls)
		} else {
			r.most = [...]int{1, 2, 7, 31}[sym.Choice("most", 4)]
		}
		sym.Assert(read(r) == nil, "read in pieces")
		sym.Assert(same(), "the same however the bytes are delivered")
	}
	sym.Cover("end")
}

// C24_KZGNode: nodes of the KZG model.
func C24_KZGNode() {
	n := trie.NewNodeData()
	n.PathFragment = sym.Bytes("pf", sym.Choice("pf.len", 3))
	if sym.Choice("terminal", 2) == 1 {
		n.Terminal = m.CommitToData(sym.Bytes("v", 2))
	}
	c := sym.Choice("children", 3)
	for i := 0; i < c; i++ {
		n.ChildCommitments[indices[i]] = anyVC("c")
	}
	if n.Terminal == nil && c == 0 {
		return
	}
	var got *trie.NodeData
	faults(func(w io.Writer) error { return n.Write(w, trie.PathArity256, false, false) }, func(r io.Reader) error {
		got = trie.NewNodeData()
		return got.Read(r, m, nil, trie.PathArity256, nil)
	}, func() bool {
		return eq(got.PathFragment, n.PathFragment) && len(got.ChildCommitments) == c && m.EqualCommitments(m.CalcNodeCommitment(got), m.CalcNodeCommitment(n))
	})
}

// C24_KZGProof: proofs of inclusion of 1..2 elements.
func C24_KZGProof() {
	w := newWorld()
	w.set([]byte{1}, sym.Bytes("v", 1))
	if sym.Choice("two", 2) == 1 {
		w.set([]byte{1, 0}, sym.Bytes("v", 1))
	}
	w.tr.Commit()
	k := w.ref[len(w.ref)-1].k
	p, ok := m.ProofOfInclusion(k, w.tr)
	sym.Assert(ok, "there is a proof")
	var got *kzg.ProofOfInclusion
	faults(p.Write, func(r io.Reader) error {
		got = &kzg.ProofOfInclusion{}
		return got.Read(r)
	}, func() bool { return eq(got.Bytes(), p.Bytes()) && got.Validate(w.root()) == nil })
}

// C24_KZGCommitments: commitments of the KZG model.
func C24_KZGCommitments() {
	c := anyC("c")
	if c == nil {
		return
	}
	var got trie.Serializable
	faults(c.Write, func(r io.Reader) error {
		if _, ok := c.(trie.VCommitment); ok {
			got = m.NewVectorCommitment()
		} else {
			got = m.NewTerminalCommitment()
		}
		return got.Read(r)
	}, func() bool { return m.EqualCommitments(c, got) && bytes.Equal(c.Bytes(), got.Bytes()) })
}

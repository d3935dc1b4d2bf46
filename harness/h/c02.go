package h

import (
	"bytes"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// C02_Path: decoding arbitrary bytes as a path never panics (results are checked by C01).
func C02_Path() {
	a := trie.PathArity(sym.Byte("arity"))
	if sym.Choice("valid", 2) == 1 {
		a = pickArity()
	}
	data := anyBytes("data", 0, sym.Bound(6, 10))
	_, err := trie.DecodeToUnpackedBytes(data, a)
	sym.ObserveBool("err", err != nil)
}

// C02_Node: reading arbitrary bytes as a node never panics.
func C02_Node() {
	sym.MaxAlloc(33)
	a := pickArity()
	m := trie_blake2b.New(a, trie_blake2b.HashSize160, 1)
	data := anyBytes("data", 0, sym.Bound(8, 12))
	var vals trie.KVReader
	switch sym.Choice("vals", 3) {
	case 1:
		vals = trie.NewInMemoryKVStore()
	case 2:
		vals = constReader(sym.Bytes("value", 2))
	}
	key := symPath("key", a, 0, sym.Bound(0, 1))
	n, err := trie.NodeDataFromBytes(m, data, key, a, vals)
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	m.CalcNodeCommitment(n)
}

type constReader []byte

func (c constReader) Get(key []byte) []byte { return c }
func (c constReader) Has(key []byte) bool   { return true }

// C02_NodeTerminal: a node with a terminal of any claimed and any actual length: what is read can be used and written.
func C02_NodeTerminal() {
	a := pickArity()
	hs := pickHash()
	m := trie_blake2b.New(a, hs, 0)
	data := []byte{1, sym.Byte("claimed")}
	n := [...]int{0, 1, 19, 20, 21, 31, 32, 33, 34, 62, 63, 64, 65}[sym.Choice("len", 13)]
	data = append(data, sym.Bytes("term", n)...)
	r, err := trie.NodeDataFromBytes(m, data, nil, a, nil)
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	m.CalcNodeCommitment(r)
	var buf bytes.Buffer
	sym.Assert(r.Write(&buf, a, false, false) == nil, "a node which was read can be written")
	x, err := trie.NodeDataFromBytes(m, buf.Bytes(), nil, a, nil)
	sym.Assert(err == nil && m.EqualCommitments(x.Terminal, r.Terminal), "and be read again")
}

// C02_NodeChildren: arbitrary bytes with child flags, long enough to hold children.
func C02_NodeChildren() {
	sym.MaxAlloc(100)
	a := pickArity()
	m := trie_blake2b.New(a, pickHash(), 0)
	flags := sym.Byte("flags")
	sym.Assume(flags&0x08 != 0)
	data := []byte{flags}
	if flags&0x10 != 0 {
		n := sym.Choice("frag.len", sym.Bound(2, 3))
		data = append(append(data, byte(n), 0), sym.Bytes("frag", n)...)
	}
	if flags&0x07 == 0x01 {
		n := 1 + sym.Choice("term.len", 2)
		data = append(append(data, byte(n)), sym.Bytes("term", n)...)
	}
	nf := (int(a) + 1 + 7) / 8
	cf := make([]byte, nf)
	switch a {
	case trie.PathArity2:
		cf[0] = sym.Byte("cf")
	case trie.PathArity16:
		b := sym.Byte("cf")
		sym.Assume(b&0x7c == 0)
		cf[sym.Choice("cfpos", 2)] = b
	default:
		b := sym.Byte("cf")
		sym.Assume(b&0x7c == 0)
		cf[[...]int{0, 1, 31}[sym.Choice("cfpos", 3)]] = b
	}
	data = append(data, cf...)
	hl := int(m.HashSize())
	rest := [...]int{0, hl - 1, hl, 2 * hl, 2*hl + 1, 1, hl + 1, 3 * hl}[sym.Choice("rest.len", sym.Bound(5, 8))]
	data = append(data, sym.Bytes("rest", rest)...)
	n, err := trie.NodeDataFromBytes(m, data, nil, a, constReader(sym.Bytes("value", 1)))
	if err != nil {
		return
	}
	sym.Cover("accepted")
	m.CalcNodeCommitment(n)
}

// cutOrExtend returns the bytes cut at any point or extended by one.
func cutOrExtend(data []byte) []byte {
	n := sym.Choice("cut", len(data)+1)
	if n == len(data) {
		return append(clone(data), sym.Byte("tail"))
	}
	return data[:n]
}

// C02_NodeCut: a strict prefix of a serialized node and an extended one are refused.
func C02_NodeCut() {
	sym.MaxAlloc(100)
	a := pickArity()
	m := trie_blake2b.New(a, pickHash(), 0)
	n := trie.NewNodeData()
	n.PathFragment = symPath("pf", a, 0, 2)
	if sym.Choice("terminal", 2) == 1 {
		n.Terminal = m.CommitToData(sym.Bytes("val", [...]int{1, 2, 33}[sym.Choice("val.len", 3)]))
	}
	nc := sym.Choice("children", 3)
	idx := []byte{0, byte(a)}
	for i := 0; i < nc; i++ {
		n.ChildCommitments[idx[i]] = symVC(m, "vc")
	}
	if n.Terminal == nil && nc == 0 {
		return
	}
	var buf bytes.Buffer
	err := n.Write(&buf, a, false, false)
	sym.Assert(err == nil, "a committing node is serialized")
	_, err = trie.NodeDataFromBytes(m, cutOrExtend(buf.Bytes()), nil, a, nil)
	sym.Assert(err != nil, "a truncated or extended node is refused")
}

// tryProof decodes and validates.
func tryProof(data []byte, full bool) {
	p, err := trie_blake2b.ProofFromBytes(data)
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	if !full {
		for _, e := range p.Path {
			sym.Assume(e.ChildIndex <= 2 || e.ChildIndex >= 16 && e.ChildIndex <= 18 || e.ChildIndex >= 255)
		}
		err = trie_blake2b_verify.Validate(p, sym.Bytes("root", int(p.HashSize)))
		sym.ObserveBool("valid", err == nil)
		return
	}
	root := sym.Bytes("root", [...]int{0, 20, 32}[sym.Choice("root.len", 3)])
	err = trie_blake2b_verify.Validate(p, root)
	sym.ObserveBool("valid", err == nil)
	err = trie_blake2b_verify.ValidateWithValue(p, root, sym.Bytes("value", 1))
	sym.ObserveBool("validval", err == nil)
}

// C02_Proof: decoding arbitrary bytes as a proof and validating it never panics.
func C02_Proof() {
	n := sym.Bound(12, 16)
	sym.MaxAlloc(n + 1) // sizes which exceed the data are represented by one
	tryProof(anyBytes("data", 0, n), sym.Thorough())
}

// proofIndices are the indices around the limits of each arity and of the encoding.
var proofIndices = [...]uint16{1, 2, 3, 17, 257, 0, 15, 16, 18, 255, 256, 258, 65535}

type proofBytes struct {
	data []byte
	hs   byte
}

func (d *proofBytes) put(name string, n int) {
	d.data = append(d.data, byte(n), 0)
	d.data = append(d.data, sym.Bytes(name, n)...)
}

func newProofBytes() *proofBytes {
	ar, hs := byte(pickArity()), byte(pickHash())
	d := &proofBytes{[]byte{ar, hs}, hs}
	d.put("key", sym.Choice("keylen", 3))
	return d
}

// element appends an element with one of the first ni indices, nf kinds of content, nt lengths of terminals and nc children.
func (d *proofBytes) element(ni, nf, nt, nc int) {
	d.put("pf", sym.Choice("pflen", 2))
	idx := proofIndices[sym.Choice("index", ni)]
	d.data = append(d.data, byte(idx), byte(idx>>8))
	switch f := sym.Choice("flags", nf); f {
	case 0:
		d.data = append(d.data, 0)
	default:
		d.data = append(d.data, byte(f))
		if f&1 != 0 {
			n := [...]int{0, 1, 34, 70, 255}[sym.Choice("termlen", nt)]
			d.data = append(d.data, byte(n))
			d.data = append(d.data, sym.Bytes("term", n)...)
		}
		if f&2 != 0 {
			c := make([]byte, 32)
			i := sym.Choice("ci", nc)
			c[[...]int{0, 0, 2, 31}[i]] = [...]byte{1, 4, 2, 0x80}[i]
			d.data = append(d.data, c...)
			d.data = append(d.data, sym.Bytes("child", int(d.hs))...)
		}
	}
}

// C02_ProofOne: proofs of one element: valid framing, arbitrary content.
func C02_ProofOne() {
	sym.MaxAlloc(40)
	d := newProofBytes()
	d.data = append(d.data, 1, 0)
	d.element(len(proofIndices), 4, sym.Bound(3, 5), 4)
	tryProof(d.data, true)
}

// C02_ProofTwo: proofs of two elements: valid framing, arbitrary content.
func C02_ProofTwo() {
	sym.MaxAlloc(40)
	d := newProofBytes()
	d.data = append(d.data, 2, 0)
	d.element(sym.Bound(7, len(proofIndices)), 1+sym.Bound(0, 2), 1, sym.Bound(1, 2))
	d.element(sym.Bound(4, len(proofIndices)), 2, sym.Bound(1, 2), 1)
	tryProof(d.data, true)
}

// C02_ProofArity: proofs which claim any arity and hash size.
func C02_ProofArity() {
	sym.MaxAlloc(40)
	d := &proofBytes{[]byte{sym.Byte("arity"), sym.Byte("hs")}, 20}
	d.put("key", 0)
	d.data = append(d.data, 1, 0)
	d.element(5, 2, 1, 1)
	tryProof(d.data, true)
}

// C02_ProofCut: a strict prefix of a serialized proof and an extended one are refused.
func C02_ProofCut() {
	sym.MaxAlloc(100)
	a := pickArity()
	hs := pickHash()
	p := &trie_blake2b.Proof{PathArity: a, HashSize: hs, Key: symPath("pkey", a, 0, 1)}
	n := sym.Choice("elems", 3)
	for i := 0; i < n; i++ {
		e := &trie_blake2b.ProofElement{PathFragment: symPath("pf", a, 0, 1), Children: map[byte][]byte{}, ChildIndex: int(sym.Byte("ci"))}
		if sym.Choice("child", 2) == 1 {
			e.Children[byte(a)] = sym.Bytes("pchild", int(hs))
		}
		if sym.Choice("pterm", 2) == 1 {
			e.Terminal = sym.Bytes("pt", 1)
		}
		p.Path = append(p.Path, e)
	}
	_, err := trie_blake2b.ProofFromBytes(cutOrExtend(p.Bytes()))
	sym.Assert(err != nil, "a truncated or extended proof is refused")
}

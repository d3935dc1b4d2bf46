package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// symProof is an arbitrary well-formed proof of up to ne elements with up to nc children each.
func symProof(a trie.PathArity, hs trie_blake2b.HashSize, ne, nc int) *trie_blake2b.Proof {
	p := &trie_blake2b.Proof{PathArity: a, HashSize: hs, Key: symPath("pkey", a, 0, 3)}
	n := sym.Choice("elems", ne+1)
	for i := 0; i < n; i++ {
		p.Path = append(p.Path, symElement(a, hs, nc, ne == 1))
	}
	return p
}

func symElement(a trie.PathArity, hs trie_blake2b.HashSize, nc int, rich bool) *trie_blake2b.ProofElement {
	max, terms := 1, 2
	if rich {
		max, terms = 2, 4
	}
	e := &trie_blake2b.ProofElement{PathFragment: symPath("pf", a, 0, max), Children: map[byte][]byte{}}
	idx := symIndices(a, nc)
	smallIndices(a, idx)
	if !rich && len(idx) > 0 {
		sym.Assume(idx[0] <= 1)
	}
	for _, i := range idx {
		e.Children[i] = sym.Bytes("pchild", int(hs))
	}
	ci := sym.Uint16("ci")
	sym.Assume(int(ci) <= a.PathFragmentCommitmentIndex())
	e.ChildIndex = int(ci)
	if t := sym.Choice("pterm", terms); t > 0 {
		e.Terminal = sym.Bytes("pt", [...]int{0, int(hs), 1, 0}[t])
	}
	return e
}

func sameProof(p, q *trie_blake2b.Proof) {
	sym.Assert(p.PathArity == q.PathArity && p.HashSize == q.HashSize, "same arity and hash size")
	sym.Assert(eq(p.Key, q.Key), "same key")
	sym.Assert(len(p.Path) == len(q.Path), "same number of elements")
	for i, e := range p.Path {
		f := q.Path[i]
		sym.Assert(eq(e.PathFragment, f.PathFragment), "same path fragment")
		sym.Assert(e.ChildIndex == f.ChildIndex, "same index")
		sym.Assert((e.Terminal == nil) == (f.Terminal == nil) && eq(e.Terminal, f.Terminal), "same terminal")
		sym.Assert(len(e.Children) == len(f.Children), "same number of children")
		for j, c := range e.Children {
			d, ok := f.Children[j]
			sym.Assert(ok && eq(c, d), "same child at the same index")
		}
	}
}

func proofRoundTrip(p *trie_blake2b.Proof) {
	data := p.Bytes()
	q, err := trie_blake2b.ProofFromBytes(data)
	sym.Assert(err == nil, "a serialized proof is deserialized")
	sameProof(p, q)
	sym.Assert(eq(q.Bytes(), data), "serializing again gives the same bytes")
	n, err := trie.Size(p)
	sym.Assert(err == nil && n == len(data), "the reported size is the number of bytes")
	sym.Assert(trie.MustSize(q) == len(data), "the reported size of the deserialized proof is the number of bytes")
	sym.Cover("end")
}

// C11_One: proofs of one element with up to 3 children.
func C11_One() {
	proofRoundTrip(symProof(pickArity(), pickHash(), 1, sym.Bound(2, 3)))
}

// C11_Many: proofs of up to 3 elements.
func C11_Many() {
	proofRoundTrip(symProof(pickArity(), pickHash(), sym.Bound(2, 3), 1))
}

// C11_AnyIndex: a child at any index.
func C11_AnyIndex() {
	a := pickArity()
	hs := pickHash()
	i := sym.Byte("index")
	sym.Assume(int(i) <= int(a))
	e := &trie_blake2b.ProofElement{Children: map[byte][]byte{i: sym.Bytes("pchild", int(hs))}, ChildIndex: a.TerminalCommitmentIndex()}
	proofRoundTrip(&trie_blake2b.Proof{PathArity: a, HashSize: hs, Path: []*trie_blake2b.ProofElement{e}})
}

// C11_Generated: proofs generated from a trie.
func C11_Generated() {
	w := newWorld(pickArity(), pickHash())
	w.base(2)
	p := w.m.Proof(symKey("key", w.a, 0, maxKey(w.a)), w.tr)
	proofRoundTrip(p)
}

// C11_Long: proofs with many elements, with long keys, and with long fragments.
func C11_Long() {
	a := pickArity()
	hs := trie_blake2b.HashSize160
	p := &trie_blake2b.Proof{PathArity: a, HashSize: hs}
	per := 1
	switch a {
	case trie.PathArity16:
		per = 2
	case trie.PathArity2:
		per = 8
	}
	lens := [...]int{127, 128, 255, 256, 257, 300, 1025}
	switch sym.Choice("what", 3) {
	case 0: // elements
		n := lens[sym.Choice("n", 6)]
		for i := 0; i < n; i++ {
			e := &trie_blake2b.ProofElement{PathFragment: []byte{}, Children: map[byte][]byte{}, ChildIndex: i & 1}
			if i == 0 || i == n-1 || i == 255 || i == 256 {
				e.PathFragment = symPath("pf", a, 0, 1)
				e.Terminal = sym.Bytes("t", 1)
			}
			p.Path = append(p.Path, e)
		}
	case 1: // key
		n := lens[sym.Choice("n", 7)]
		k := make([]byte, n/per)
		for _, i := range []int{0, n / per / 2, n/per - 1} {
			k[i] = sym.Byte("k")
		}
		p.Key = digits(k, a)
	case 2: // fragment
		n := lens[sym.Choice("n", 7)]
		k := make([]byte, n/per)
		for _, i := range []int{0, n / per / 2, n/per - 1} {
			k[i] = sym.Byte("k")
		}
		for i := 0; i < 2; i++ {
			p.Path = append(p.Path, &trie_blake2b.ProofElement{PathFragment: digits(k, a), Children: map[byte][]byte{1: sym.Bytes("c", int(hs))}, ChildIndex: i})
		}
	}
	proofRoundTrip(p)
}

// C11_Terminals: terminals of all kinds of lengths.
func C11_Terminals() {
	a := pickArity()
	hs := pickHash()
	t := sym.Bytes("t", [...]int{0, 1, 2, 3, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 200, 254, 255}[sym.Choice("t.len", 18)])
	e := &trie_blake2b.ProofElement{Children: map[byte][]byte{}, Terminal: t, ChildIndex: a.TerminalCommitmentIndex()}
	if sym.Choice("child", 2) == 1 {
		e.Children[byte(a)] = sym.Bytes("pchild", int(hs))
	}
	p := &trie_blake2b.Proof{PathArity: a, HashSize: hs, Path: []*trie_blake2b.ProofElement{e}}
	data := p.Bytes()
	q, err := trie_blake2b.ProofFromBytes(data)
	if len(t) == 0 || len(t) > int(hs) {
		// no commitment to data: to be read back as it is, or not at all
		if err != nil {
			return
		}
	}
	sym.Assert(err == nil, "a serialized proof is deserialized")
	sameProof(p, q)
	sym.Assert(eq(q.Bytes(), data), "serializing again gives the same bytes")
}

package h

import (
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// samePadded: equal up to zeros at the end.
func samePadded(a, b []byte) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	ok := eq(a, b[:len(a)])
	for _, x := range b[len(a):] {
		ok = ok && x == 0
	}
	return ok
}

// claims states that what an accepted proof says is true of the trie.
func (w *world) claims(p *trie_blake2b.Proof) {
	key, term := trie_blake2b_verify.MustKeyWithTerminal(p)
	absent := trie_blake2b_verify.IsProofOfAbsence(p)
	sym.Assert(absent == (len(term) == 0), "a proof of absence is one without a terminal")
	var val []byte
	for _, x := range w.r {
		if eq(digits(x.k, w.a), key) {
			val = x.v
		}
	}
	truth := false
	if absent {
		truth = val == nil
	} else if val != nil {
		truth = eq(term, refCommit(val, int(w.m.HashSize())))
	}
	// vector elements are padded with zeros: the proof can be one for the trie with zeros appended to, or removed from, path
	// fragments and terminals
	n := w.r.canon(w.a)
	padded := false
	for _, e := range p.Path {
		if n == nil {
			break
		}
		if !eq(e.PathFragment, n.pf) && samePadded(e.PathFragment, n.pf) {
			padded = true
		}
		t := refCommit(n.term, int(w.m.HashSize()))
		if !eq(e.Terminal, t) && samePadded(e.Terminal, t) {
			padded = true
		}
		n = n.ch[byte(e.ChildIndex)]
	}
	sym.Finding("C10-zero-padding", !truth && padded)
	sym.Assert(truth, "an accepted proof states the truth")
}

// advPath is an arbitrary path of one of the lengths at which fragments and keys of the trie can end, and beyond.
func advPath(name string, a trie.PathArity, short bool) []byte {
	lens := []int{0, 1, 2}
	switch a {
	case trie.PathArity16:
		lens = []int{0, 1, 2, 3}
	case trie.PathArity2:
		lens = []int{0, 8, 7, 1, 9}
	}
	if short {
		lens = lens[:2]
	}
	p := sym.Bytes(name, lens[sym.Choice(name+".len", len(lens))])
	sym.Assume(inRange(p, a))
	return p
}

// advLast is an arbitrary last element: any fragment, terminal and index, any content of the children 0 and 1.
func advLast(a trie.PathArity, hs trie_blake2b.HashSize, short bool) *trie_blake2b.ProofElement {
	e := &trie_blake2b.ProofElement{PathFragment: advPath("pf", a, short), Children: map[byte][]byte{}}
	e.ChildIndex = [...]int{a.TerminalCommitmentIndex(), a.PathFragmentCommitmentIndex(), 0, 1}[sym.Choice("ci", 4)]
	c := 0
	if short {
		c = sym.Choice("children", 2)
	} else {
		c = sym.Choice("children", 4)
	}
	for i := 0; i < 2; i++ {
		if c&(1<<uint(i)) != 0 {
			e.Children[byte(i)] = sym.Bytes("c", int(hs))
		}
	}
	nt := 5
	if short {
		nt = 3
	}
	switch sym.Choice("t", nt) {
	case 1:
		e.Terminal = sym.Bytes("t", 1)
	case 2:
		e.Terminal = sym.Bytes("t", 2)
	case 3:
		e.Terminal = []byte{}
	case 4: // longer than a commitment can be
		e.Terminal = sym.Bytes("t", int(hs)+[...]int{1, 2, 33}[sym.Choice("t.over", sym.Bound(2, 3))])
	}
	return e
}

// advInner is an arbitrary element before the last.
func advInner(a trie.PathArity, hs trie_blake2b.HashSize, short bool) *trie_blake2b.ProofElement {
	e := &trie_blake2b.ProofElement{PathFragment: advPath("pf", a, short), Children: map[byte][]byte{}}
	e.ChildIndex = sym.Choice("ci", 2)
	switch sym.Choice("children", 3) {
	case 1:
		e.Children[byte(1-e.ChildIndex)] = sym.Bytes("c", int(hs))
	case 2:
		e.Children[byte(e.ChildIndex)] = sym.Bytes("c", int(hs))
	}
	if sym.Choice("t", 2) == 1 {
		e.Terminal = sym.Bytes("t", 1)
	}
	return e
}

func (w *world) attack(ne int, short bool) {
	root := rootBytes(w.tr)
	p := &trie_blake2b.Proof{PathArity: w.a, HashSize: w.m.HashSize(), Key: advPath("pkey", w.a, false)}
	for i := 0; i < ne; i++ {
		if i < ne-1 {
			p.Path = append(p.Path, advInner(w.a, w.m.HashSize(), short))
		} else {
			p.Path = append(p.Path, advLast(w.a, w.m.HashSize(), short))
		}
	}
	if trie_blake2b_verify.Validate(p, root) != nil {
		return
	}
	sym.Cover("accepted")
	w.claims(p)
}

// C10_One: any proof of at most one element against a trie of up to two keys.
func C10_One() {
	w := newWorld(pickArity(), trie_blake2b.HashSize256)
	w.base(sym.Choice("n", 3))
	w.attack(sym.Choice("elems", 2), false)
}

// C10_Two: any proof of two elements against a trie of two keys.
func C10_Two() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	w.base(2)
	w.attack(2, !sym.Thorough())
}

// C10_Three: any proof of three elements against a trie of three keys.
func C10_Three() {
	if !sym.Thorough() {
		return
	}
	w := newWorld(trie.PathArity256, trie_blake2b.HashSize160)
	w.base(3)
	w.attack(3, true)
}

// C10_Wide: children anywhere: the honest root element with any index and any child left out, for any key.
func C10_Wide() {
	w := newWorld(pickArity(), trie_blake2b.HashSize160)
	ks := [...]byte{0x00, 0xff, 0xf0, 0x01, 0x80}
	n := sym.Bound(3, 5)
	w.update([]byte{ks[sym.Choice("k1", n)]}, sym.Bytes("v1", 1))
	w.update([]byte{ks[sym.Choice("k2", n)]}, sym.Bytes("v2", 1))
	w.tr.Commit()
	k := digits(sym.Bytes("proofkey", 1), w.a)
	c := w.r.canon(w.a)
	e := &trie_blake2b.ProofElement{PathFragment: c.pf, Children: map[byte][]byte{}, Terminal: c.term}
	ci := sym.Uint16("ci")
	sym.Assume(int(ci) <= w.a.PathFragmentCommitmentIndex())
	e.ChildIndex = int(ci)
	for i := 0; i < 256; i++ {
		if x, ok := c.ch[byte(i)]; ok && sym.Choice("drop", 2) == 0 {
			e.Children[byte(i)] = x.commitment(w.m).Bytes()
		}
	}
	p := &trie_blake2b.Proof{PathArity: w.a, HashSize: w.m.HashSize(), Key: k, Path: []*trie_blake2b.ProofElement{e}}
	if trie_blake2b_verify.Validate(p, rootBytes(w.tr)) != nil {
		return
	}
	sym.Cover("accepted")
	w.claims(p)
}

// C10_Long: keys with long fragments; the honest proof of a key or of the absence of one, its key, a fragment and an index
// changed arbitrarily.
func C10_Long() {
	a := pickArity()
	hs := trie_blake2b.HashSize160
	if sym.Thorough() {
		hs = pickHash()
	}
	w := newWorld(a, hs)
	per := 1
	switch a {
	case trie.PathArity16:
		per = 2
	case trie.PathArity2:
		per = 8
	}
	lens := [...]int{2, 24 / per, int(hs)/per + 1, 64/per + 1, 136/per + 1}
	lc := lens[sym.Choice("lc", 5)]
	lt := lens[sym.Choice("lt", 5)]
	mk := func(c, t []byte, b byte) []byte { return append(append(clone(c), b), t...) }
	c, t := make([]byte, lc), make([]byte, lt)
	i := [...]int{lc - 1, 0, lc / 2}[sym.Choice("i", 3)]
	j := [...]int{lt - 1, 0, lt / 2}[sym.Choice("j", 3)]
	c[i], t[j] = 0x11, 0x11
	k1 := mk(c, t, 0x00)
	w.update(k1, []byte{1})
	w.update(mk(c, t, 0xff), []byte{2})
	w.tr.Commit()
	k := k1
	if sym.Choice("absent", 2) == 1 {
		if sym.Choice("where", 2) == 0 {
			c[i] = 0x22
		} else {
			t[j] = 0x22
		}
		k = mk(c, t, 0x00)
	}
	p := w.m.Proof(k, w.tr)
	// the key the proof is said to be about: any two bytes changed, or shorter or longer
	q := clone(k)
	switch sym.Choice("key", 4) {
	case 0:
		q[i] = sym.Byte("x")
		q[lc+1+j] = sym.Byte("y")
	case 1:
		q = q[:len(q)-1]
	case 2:
		q = append(q, sym.Byte("x"))
	case 3:
		q[lc] = sym.Byte("z")
	}
	p.Key = digits(q, a)
	last := p.Path[len(p.Path)-1]
	switch sym.Choice("change", 4) {
	case 1:
		last.ChildIndex = a.TerminalCommitmentIndex()
	case 2:
		last.ChildIndex = a.PathFragmentCommitmentIndex()
	case 3:
		last.ChildIndex = int(q[lc]) & 1
	}
	if trie_blake2b_verify.Validate(p, rootBytes(w.tr)) != nil {
		return
	}
	sym.Cover("accepted")
	w.claims(p)
}

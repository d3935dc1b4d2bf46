package h

import (
	"bytes"
	"errors"
	"io"
	"os"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// faultWriter fails in one of its calls, or from one of its calls on.
type faultWriter struct {
	at, calls int
	sticky    bool
	b         bytes.Buffer
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls-1 == w.at || w.sticky && w.calls-1 > w.at {
		return 0, errWrite
	}
	return w.b.Write(p)
}

// faultReader delivers the data and fails in one of its calls, or from one of its calls on.
type faultReader struct {
	data      []byte
	at, calls int
	sticky    bool
}

var errRead = errors.New("read failed")

func (r *faultReader) Read(p []byte) (int, error) {
	r.calls++
	if r.calls-1 == r.at || r.sticky && r.calls-1 > r.at {
		return 0, errRead
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

// shortReader delivers the data in pieces, as a reader may: at most most bytes each time, or less than asked for in the call at
// and the one at2 calls after it; the end of the data comes with the last piece or after it.
type shortReader struct {
	data           []byte
	at, at2, calls int
	most           int
	early          bool
}

func (r *shortReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(r.data) {
		n = len(r.data)
	}
	if r.most > 0 && n > r.most {
		n = r.most
	}
	if r.at >= 0 && (r.calls == r.at || r.calls == r.at+r.at2) {
		if n > 1 {
			n = [...]int{1, n / 2, n - 1, 0}[sym.Choice("short", 4)]
		} else {
			n = 0
		}
	}
	r.calls++
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.early && len(r.data) == 0 && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

// faults states that a failure of any single call of a writer or reader is reported, and that the pieces in which a reader
// delivers the bytes do not matter.
func faults(write func(w io.Writer) error, read func(r io.Reader) error, same func() bool) {
	w := &faultWriter{at: -1}
	sym.Assert(write(w) == nil, "written")
	data := w.b.Bytes()
	switch sym.Choice("fault", 3) {
	case 0:
		if w.calls == 0 {
			return // nothing to write
		}
		f := &faultWriter{at: sym.Choice("at", w.calls), sticky: sym.Choice("sticky", 2) == 1}
		sym.Assert(write(f) != nil, "a failure of the writer is reported")
	case 1:
		r := &faultReader{data: clone(data), at: -1}
		sym.Assert(read(r) == nil && same(), "read back")
		f := &faultReader{data: clone(data), at: sym.Choice("at", r.calls), sticky: sym.Choice("sticky", 2) == 1}
		sym.Assert(read(f) != nil, "a failure of the reader is reported")
	case 2:
		r := &shortReader{data: clone(data), early: sym.Choice("early", 2) == 1}
		if sym.Choice("one", 2) == 1 { // one call of all is short
			c := &shortReader{data: clone(data), at: -1}
			sym.Assert(read(c) == nil && same(), "read back")
			r.at = sym.Choice("at", c.calls)
			if sym.Thorough() && r.at+1 < c.calls {
				r.at2 = sym.Choice("at2", c.calls-r.at)
			}
		} else {
			r.at, r.most = -1, [...]int{1, 2, 3, 7}[sym.Choice("most", 4)]
		}
		sym.Assert(read(r) == nil, "read in pieces")
		sym.Assert(same(), "the same however the bytes are delivered")
	}
	sym.Cover("end")
}

// C24_Node: nodes with every kind of terminal and 0..2 children.
func C24_Node() {
	a, hs := pickArity(), pickHash()
	m := trie_blake2b.New(a, hs, [...]int{0, 33}[sym.Choice("threshold", 2)])
	n := trie.NewNodeData()
	n.PathFragment = symPath("pf", a, 0, 2)
	key := []byte{1, 0}
	vals := trie.NewInMemoryKVStore()
	flag, skip := false, false
	switch sym.Choice("terminal", 4) {
	case 1:
		n.Terminal = m.CommitToData(sym.Bytes("v", [...]int{1, 32, 40}[sym.Choice("vl", 3)]))
	case 2: // a commitment to the key
		flag = true
		n.Terminal = m.CommitToData(append(clone(key), n.PathFragment...))
	case 3: // in the value store
		v := sym.Bytes("v", 34)
		kk := append(clone(key), n.PathFragment...)
		if len(kk)*bitsOf(a)%8 != 0 {
			return
		}
		vals.Set(packed(kk, a), v)
		n.Terminal = m.CommitToData(v)
		skip = !m.ForceStoreTerminalWithNode(n.Terminal)
	}
	c := sym.Choice("children", 3)
	for i := 0; i < c; i++ {
		n.ChildCommitments[[...]byte{0, byte(a)}[i]] = symVC(m, "c")
	}
	if n.Terminal == nil && c == 0 {
		return
	}
	var got *trie.NodeData
	faults(func(w io.Writer) error { return n.Write(w, a, flag, skip) }, func(r io.Reader) error {
		got = trie.NewNodeData()
		return got.Read(r, m, key, a, vals)
	}, func() bool {
		return eq(got.PathFragment, n.PathFragment) && len(got.ChildCommitments) == c && m.EqualCommitments(m.CalcNodeCommitment(got), m.CalcNodeCommitment(n))
	})
}

func bitsOf(a trie.PathArity) int {
	switch a {
	case trie.PathArity256:
		return 8
	case trie.PathArity16:
		return 4
	}
	return 1
}

// packed is the key of a path of whole bytes.
func packed(p []byte, a trie.PathArity) []byte {
	per := 8 / bitsOf(a)
	var ret []byte
	for i := 0; i+per <= len(p); i += per {
		var b byte
		for _, x := range p[i : i+per] {
			b = byte(int(b)<<bitsOf(a)) | x
		}
		ret = append(ret, b)
	}
	return ret
}

// C24_Proof: proofs of 0..2 elements.
func C24_Proof() {
	a, hs := pickArity(), pickHash()
	p := &trie_blake2b.Proof{PathArity: a, HashSize: hs, Key: symPath("key", a, 0, 1)}
	n := sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		e := &trie_blake2b.ProofElement{PathFragment: symPath("pf", a, 0, 1), Children: map[byte][]byte{}, ChildIndex: a.TerminalCommitmentIndex()}
		full := n == 2 && !sym.Thorough()
		if full || sym.Choice("child", 2) == 1 {
			e.Children[1] = sym.Bytes("c", int(hs))
		}
		if full || sym.Choice("terminal", 2) == 1 {
			e.Terminal = sym.Bytes("t", 3)
		}
		p.Path = append(p.Path, e)
	}
	var got *trie_blake2b.Proof
	faults(p.Write, func(r io.Reader) error {
		got = &trie_blake2b.Proof{}
		return got.Read(r)
	}, func() bool { return eq(got.Bytes(), p.Bytes()) })
}

// C24_Commitments: commitments.
func C24_Commitments() {
	m := trie_blake2b.New(pickArity(), pickHash())
	var c, got trie.Serializable
	mk := func() trie.Serializable { return m.NewVectorCommitment() }
	if sym.Choice("terminal", 2) == 1 {
		c = m.CommitToData(symValue("v"))
		mk = func() trie.Serializable { return m.NewTerminalCommitment() }
	} else {
		c = symVC(m, "c")
	}
	faults(c.Write, func(r io.Reader) error {
		got = mk()
		return got.Read(r)
	}, func() bool { return m.EqualCommitments(c, got) })
}

// C24_Fields: fields and integers.
func C24_Fields() {
	d := sym.Bytes("d", sym.Choice("n", 4))
	x := sym.Uint32("x")
	var got []byte
	var y uint32
	eqd := func() bool { return eq(got, d) }
	switch sym.Choice("kind", 6) {
	case 0:
		faults(func(w io.Writer) error { return trie.WriteBytes8(w, d) }, func(r io.Reader) (err error) {
			got, err = trie.ReadBytes8(r)
			return
		}, eqd)
	case 1:
		faults(func(w io.Writer) error { return trie.WriteBytes16(w, d) }, func(r io.Reader) (err error) {
			got, err = trie.ReadBytes16(r)
			return
		}, eqd)
	case 2:
		faults(func(w io.Writer) error { return trie.WriteBytes32(w, d) }, func(r io.Reader) (err error) {
			got, err = trie.ReadBytes32(r)
			return
		}, eqd)
	case 3:
		faults(func(w io.Writer) error { return trie.WriteUint32(w, x) }, func(r io.Reader) error { return trie.ReadUint32(r, &y) }, func() bool { return x == y })
	case 4:
		var z uint16
		faults(func(w io.Writer) error { return trie.WriteUint16(w, uint16(x)) }, func(r io.Reader) error { return trie.ReadUint16(r, &z) }, func() bool { return uint16(x) == z })
	case 5:
		var z byte
		faults(func(w io.Writer) error { return trie.WriteByte(w, byte(x)) }, func(r io.Reader) (err error) {
			z, err = trie.ReadByte(r)
			return
		}, func() bool { return byte(x) == z })
	}
}

// C24_Stream: streams of 0..2 pairs; after a failure the pairs delivered before it are those written.
func C24_Stream() {
	pairs := symPairs(0, 2, 1, 1)
	var got []kv
	faults(func(w io.Writer) error {
		sw := trie.NewBinaryStreamWriter(w)
		for _, p := range pairs {
			if err := sw.Write(p.k, p.v); err != nil {
				return err
			}
		}
		return nil
	}, func(r io.Reader) (err error) {
		got, err = collect(trie.NewBinaryStreamIterator(r), -1)
		return
	}, func() bool { return samePairs(got, pairs) })
}

// C24_File: files that take no data or deliver none.
func C24_File() {
	s := trie.NewInMemoryKVStore()
	for i := 1 + sym.Choice("n", 3); i > 0; i-- {
		s.Set([]byte{byte(i)}, sym.Bytes("v", 1+sym.Choice("len", 2)*300))
	}
	os.Remove("full")
	os.Remove("dir")
	os.Remove("none")
	fault := sym.Choice("fault", 7)
	if fault == 1 || fault == 2 || fault == 4 || fault == 5 {
		if err := os.Mkdir("dir", 0o700); err != nil {
			panic(err)
		}
	}
	if fault == 0 || fault == 6 {
		if err := os.Symlink("/dev/full", "full"); err != nil {
			panic(err)
		}
	}
	switch fault {
	case 0:
		_, err := trie.DumpToFile(s, "full")
		sym.Assert(err != nil, "a dump that does not fit is reported")
	case 1:
		_, err := trie.DumpToFile(s, "dir")
		sym.Assert(err != nil, "a dump that cannot be written is reported")
	case 2:
		n := 0
		_, err := trie.UnDumpFromFile(countSets{&n}, "dir")
		sym.Assert(err != nil && n == 0, "a dump that cannot be read is reported")
	case 3:
		_, err := trie.OpenKVStreamFile("none")
		sym.Assert(err != nil, "a stream file that does not exist is reported")
	case 4:
		_, err := trie.CreateKVStreamFile("dir")
		sym.Assert(err != nil, "a stream file that cannot be created is reported")
	case 5:
		it, err := trie.OpenKVStreamFile("dir")
		if err == nil {
			n := 0
			err = it.Iterate(func(k, v []byte) bool {
				n++
				return true
			})
			sym.Assert(n == 0, "a stream file that cannot be read has no pairs")
			it.Close()
		}
		sym.Assert(err != nil, "a stream file that cannot be read is reported")
	case 6:
		w, err := trie.CreateKVStreamFile("full")
		if err == nil {
			err = w.Write([]byte("k"), []byte("v"))
			if err1 := w.Close(); err == nil {
				err = err1
			}
		}
		sym.Assert(err != nil, "a stream that does not fit is reported")
	}
	sym.Cover("end")
}

type countSets struct{ n *int }

func (c countSets) Set(k, v []byte) { *c.n++ }

package h

import (
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

// unit is the number of path elements per key byte.
func unit(a trie.PathArity) int {
	switch a {
	case trie.PathArity2:
		return 8
	case trie.PathArity16:
		return 2
	}
	return 1
}

// C01_Keys: unpacking a key gives the big-endian digits of the key, and packing gives the key back.
func C01_Keys() {
	a := pickArity()
	key := anyBytes("key", 0, sym.Bound(4, 12))
	orig := clone(key)
	u := trie.UnpackBytes(key, a)
	n := unit(a)
	sym.Assert(len(u) == n*len(key), "length of the unpacked key")
	sym.Assert(inRange(u, a), "elements of the unpacked key in range")
	for i := range key {
		v := 0
		for j := 0; j < n; j++ {
			v = v*(int(a)+1) + int(u[i*n+j])
		}
		sym.Assert(v == int(orig[i]), "digits of the key byte")
	}
	back, err := trie.PackUnpackedBytes(u, a)
	sym.Assert(err == nil, "packing an unpacked key")
	sym.Assert(eq(back, orig), "pack(unpack(key)) == key")
	sym.Cover("end")
}

// C01_Paths: encoding a path is lossless; a path with an element out of range is refused.
func C01_Paths() {
	a := pickArity()
	max := sym.Bound(9, 20)
	if a == trie.PathArity2 {
		max = sym.Bound(17, 33)
	}
	p := anyBytes("path", 0, max)
	ok := true
	for i := 0; ok && i < len(p); i++ { // a path of the executor for each first element out of range
		if int(p[i]) > int(a) {
			ok = false
		}
	}
	enc, err := trie.EncodeUnpackedBytes(p, a)
	if !ok {
		sym.Assert(err != nil, "encoding a path with an element out of range is refused")
		_, err = trie.PackUnpackedBytes(p, a)
		sym.Assert(err != nil, "packing a path with an element out of range is refused")
		return
	}
	sym.Assert(err == nil, "a valid path can be encoded")
	if len(p) > 0 {
		sym.Assert(len(enc) > 0, "the encoding of a non-empty path is not empty")
	}
	dec, err := trie.DecodeToUnpackedBytes(enc, a)
	sym.Assert(err == nil, "the encoding of a path can be decoded")
	sym.Assert(eq(dec, p), "decode(encode(path)) == path")
	if len(p)%unit(a) == 0 {
		k, err := trie.PackUnpackedBytes(p, a)
		sym.Assert(err == nil, "a valid path of whole bytes can be packed")
		sym.Assert(eq(trie.UnpackBytes(k, a), p), "unpack(pack(path)) == path")
	}
	sym.Observe("enc", enc)
}

// C01_Unambiguous: two different paths have different encodings.
func C01_Unambiguous() {
	a := pickArity()
	max := sym.Bound(6, 10)
	if a == trie.PathArity2 {
		max = sym.Bound(12, 18)
	}
	p := anyBytes("p", 0, max)
	q := anyBytes("q", 0, max)
	sym.Assume(len(p) <= len(q))
	sym.Assume(inRange(p, a) && inRange(q, a))
	ep, err := trie.EncodeUnpackedBytes(p, a)
	sym.Assume(err == nil)
	eq_, err := trie.EncodeUnpackedBytes(q, a)
	sym.Assume(err == nil)
	sym.Assert(eq(p, q) || !eq(ep, eq_), "different paths have different encodings")
}

// C01_Canonical: whatever decodes to a non-empty path is the encoding of that path.
func C01_Canonical() {
	a := pickArity()
	data := anyBytes("data", 0, sym.Bound(6, 12))
	orig := clone(data)
	p, err := trie.DecodeToUnpackedBytes(data, a)
	if err != nil || len(p) == 0 {
		return
	}
	sym.Assert(inRange(p, a), "decoded elements in range")
	enc, err := trie.EncodeUnpackedBytes(p, a)
	sym.Assert(err == nil, "a decoded path can be encoded")
	sym.Assert(eq(enc, orig), "decoding accepts only the encoding of the path")
	sym.Cover("accepted")
}

// longBytes is a path or byte string of given elements, two of which are arbitrary: at one of the ends or in the middle.
func longBytes(n int, f func(i int) byte) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = f(i)
	}
	for i, at := range [...]int{n - 1, [...]int{0, n / 2, n - 2}[sym.Choice("at", 3)]} {
		if at >= 0 {
			p[at] = sym.Bytes([...]string{"last", "other"}[i], 1)[0]
		}
	}
	return p
}

var longLens = [...]int{15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}

// C01_Long: long keys and paths, and changes of their encodings.
func C01_Long() {
	a := pickArity()
	n := longLens[sym.Choice("len", len(longLens))]
	switch sym.Choice("what", 3) {
	case 0:
		k := longBytes(n, func(i int) byte { return byte(7 * i) })
		u := trie.UnpackBytes(clone(k), a)
		sym.Assert(eq(u, digits(k, a)), "digits of the key")
		back, err := trie.PackUnpackedBytes(u, a)
		sym.Assert(err == nil && eq(back, k), "pack(unpack(key)) == key")
	case 1:
		p := longBytes(n, func(i int) byte { return byte(7*i) & byte(a) })
		enc, err := trie.EncodeUnpackedBytes(clone(p), a)
		if !inRange(p, a) {
			sym.Assert(err != nil, "encoding a path with an element out of range is refused")
			_, err = trie.PackUnpackedBytes(clone(p), a)
			sym.Assert(err != nil, "packing a path with an element out of range is refused")
			return
		}
		sym.Assert(err == nil, "a valid path can be encoded")
		dec, err := trie.DecodeToUnpackedBytes(enc, a)
		sym.Assert(err == nil && eq(dec, p), "decode(encode(path)) == path")
		if n%unit(a) == 0 {
			k, err := trie.PackUnpackedBytes(p, a)
			sym.Assert(err == nil && eq(trie.UnpackBytes(k, a), p), "unpack(pack(path)) == path")
		}
	case 2:
		data := longBytes(n, func(i int) byte { return byte(5 * i) })
		p, err := trie.DecodeToUnpackedBytes(clone(data), a)
		if err != nil {
			return
		}
		sym.Assert(inRange(p, a), "decoded elements in range")
		enc, err := trie.EncodeUnpackedBytes(p, a)
		sym.Assert(err == nil && eq(enc, data), "decoding accepts only the encoding of the path")
		sym.Cover("accepted")
	}
}

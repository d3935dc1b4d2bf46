// Package h holds the harnesses: each exported function Cnn_* states (a part of) property Cnn over symbolic inputs.
package h

import (
	"bytes"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/iotaledger/trie.go/verifh/sym"
)

var arities = [3]trie.PathArity{trie.PathArity2, trie.PathArity16, trie.PathArity256}

func pickArity() trie.PathArity { return arities[sym.Choice("arity", 3)] }

func pickHash() trie_blake2b.HashSize {
	if sym.Choice("hash", 2) == 0 {
		return trie_blake2b.HashSize160
	}
	return trie_blake2b.HashSize256
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

// inRange: every element of an unpacked path is an index of the arity.
func inRange(p []byte, a trie.PathArity) bool {
	ok := true
	for _, x := range p {
		ok = ok && int(x) <= int(a)
	}
	return ok
}

// anyBytes is a byte string of symbolic length lo..hi and symbolic content.
func anyBytes(name string, lo, hi int) []byte {
	n := lo + sym.Choice(name+".len", hi-lo+1)
	return sym.Bytes(name, n)
}

// refCommit is the reference for commitments to data: the data itself up to the hash size, else its hash.
func refCommit(data []byte, hs int) []byte {
	if len(data) <= hs {
		return clone(data)
	}
	return sym.Hash(data, hs)
}

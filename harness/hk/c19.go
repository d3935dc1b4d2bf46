package hk

import (
	kzg "github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/verifh/shimk"
	"github.com/iotaledger/trie.go/verifh/sym"
	"go.dedis.ch/kyber/v3"
)

func proofCase(ts *kzg.TrustedSetup, d int) {
	v, b := vector("v", ts, d)
	i := sym.Choice("index", d)
	c := ts.VerifCommit(v)
	pi := ts.VerifProve(v, i)
	for j := range v {
		if v[j] != nil {
			sym.Assert(v[j].Equal(b[j]), "the vector stays as it was")
		}
	}
	sym.Assert(ts.VerifVerify(c, pi, b[i], i), "the proof of an element verifies")
	w := shimk.AsVar(intScalar(ts.Suite, element("other", order)))
	sym.Assume(!w.Equal(b[i]))
	sym.Assert(!ts.VerifVerify(c, pi, w, i), "the proof verifies for no other value")
}

func natural() bool { return sym.Choice("natural", 2) == 1 }

// C19_Symbolic2, 3: proofs of all elements of all vectors with a symbolic secret in the field of order 7.
func C19_Symbolic2() { proofCase(smallSetup(7, 2, natural(), true), 2) }
func C19_Symbolic3() { proofCase(smallSetup(7, 3, natural(), true), 3) }

// C19_Proof3, 4: every secret and domain of the field of order 13, symbolic vectors.
func C19_Proof3() { proofCase(smallSetup(uint64(sym.Bound(7, 13)), 3, natural(), false), 3) }
func C19_Proof4() { proofCase(smallSetup(13, 4, natural(), false), 4) }

// C19_Degree1: the degenerate vector of one element.
func C19_Degree1() { proofCase(smallSetup(13, 1, natural(), true), 1) }

func linearCase(ts *kzg.TrustedSetup, d int) {
	v, a := vector("v", ts, d)
	w, b := vector("w", ts, d)
	sum := make([]kyber.Scalar, d)
	for i := range sum {
		sum[i] = ts.Suite.G1().Scalar().Add(a[i], b[i])
	}
	cv, cw := ts.VerifCommit(v), ts.VerifCommit(w)
	sym.Assert(ts.VerifCommit(sum).Equal(ts.Suite.G1().Point().Add(cv, cw)), "the commitment is linear, absent elements count as zero")
	// the commitment is the polynomial's value at the secret: constant vectors have constant commitments
	k := shimk.AsVar(intScalar(ts.Suite, element("k", order)))
	con := make([]kyber.Scalar, d)
	for i := range con {
		con[i] = k.Clone()
	}
	sym.Assert(ts.VerifCommit(con).Equal(ts.Suite.G1().Point().Mul(k, nil)), "the commitment to a constant vector")
}

// C19_Linear: the commitment is linear.
func C19_Linear2() { linearCase(smallSetup(7, 2, natural(), true), 2) }
func C19_Linear3() { linearCase(smallSetup(13, 3, natural(), false), 3) }

func allCase(ts *kzg.TrustedSetup, d int) {
	v, b := vector("v", ts, d)
	c, pi := ts.VerifCommitAll(v)
	sym.Assert(c.Equal(ts.VerifCommit(v)), "the commitment to the whole vector")
	sym.Assert(len(pi) == d, "a proof for each element")
	for i := range v {
		sym.Assert((pi[i] == nil) == (v[i] == nil), "a proof for each element which is there")
		if v[i] != nil {
			sym.Assert(ts.VerifVerify(c, pi[i], b[i], i), "the proof of the element verifies")
		}
	}
	sym.Assert(ts.VerifVerifyVector(v, c), "the commitment is verified to be that of the vector")
	other := ts.Suite.G1().Point().Add(c, ts.Suite.G1().Point().Mul(shimk.AsVar(intScalar(ts.Suite, element("off", order))), nil))
	if !other.Equal(c) {
		sym.Assert(!ts.VerifVerifyVector(v, other), "no other commitment is")
	}
}

// C19_All: all elements of a vector at once.
func C19_All2() { allCase(smallSetup(7, 2, natural(), true), 2) }
func C19_All3() { allCase(smallSetup(7, 3, natural(), false), 3) }

package trie_kzg_bn256

import "go.dedis.ch/kyber/v3"

// VerifCommit, VerifProve and VerifVerify give the harnesses access to the vector commitment (same names as in trusted_test.go).
func (sd *TrustedSetup) VerifCommit(v []kyber.Scalar) kyber.Point       { return sd.commit(v) }
func (sd *TrustedSetup) VerifProve(v []kyber.Scalar, i int) kyber.Point { return sd.prove(v, i) }
func (sd *TrustedSetup) VerifVerify(c, pi kyber.Point, v kyber.Scalar, i int) bool {
	return sd.verify(c, pi, v, i)
}
func (sd *TrustedSetup) VerifVerifyVector(v []kyber.Scalar, c kyber.Point) bool {
	return sd.verifyVector(v, c)
}
func (sd *TrustedSetup) VerifCommitAll(v []kyber.Scalar) (kyber.Point, []kyber.Point) {
	return sd.commitAll(v)
}

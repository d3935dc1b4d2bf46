// Package hk holds the harnesses for the KZG model. Under the executor kyber's groups are the ideal groups of package
// shimk, natively they are the real ones.
package hk

import (
	"os"

	kzg "github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/verifh/shimk"
	"github.com/iotaledger/trie.go/verifh/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

// intScalar is the scalar x (x below the small field order).
func intScalar(s *bn256.Suite, x byte) kyber.Scalar {
	return s.G1().Scalar().SetInt64(int64(x))
}

// longScalar is a long constant plus x: as x runs through the small field, so does the result.
func longScalar(s *bn256.Suite, x byte) kyber.Scalar {
	k := s.G1().Scalar().SetInt64(0x7123456789abcdef)
	r := s.G1().Scalar().SetInt64(1)
	for i := 0; i < 4; i++ {
		r.Mul(r, k)
	}
	return r.Add(r, intScalar(s, x))
}

var order uint64

func element(name string, p uint64) byte {
	x := sym.Byte(name)
	sym.Assume(x < byte(p))
	return x
}

// smallSetup is any setup of the small field of order p and degree d: natural domain, or powers of an element of order
// at least d. The secret is any element outside the domain (in the domain the setup is degenerate, with negligible
// probability in the real field), symbolic or explored one by one.
func smallSetup(p uint64, d int, natural, symbolic bool) *kzg.TrustedSetup {
	shimk.Small(p)
	order = p
	suite := bn256.NewSuite()
	var x byte
	if symbolic {
		x = element("secret", p)
	} else {
		x = byte(sym.Choice("secret", int(p)))
	}
	secret := longScalar(suite, x)
	var ts *kzg.TrustedSetup
	var err error
	if natural {
		for i := 0; i < d; i++ {
			sym.Assume(!secret.Equal(intScalar(suite, byte(i))))
		}
		ts, err = kzg.TrustedSetupFromSecretNaturalDomain(suite, uint16(d), secret)
	} else {
		omega := intScalar(suite, byte(2+sym.Choice("omega", int(p)-2)))
		one, w := intScalar(suite, 1), intScalar(suite, 1)
		for i := 0; i < d; i++ {
			sym.Assume(i == 0 || !w.Equal(one)) // omega is a primitive root of unity of sufficient order
			sym.Assume(!secret.Equal(w))
			w = suite.G1().Scalar().Mul(w, omega)
		}
		ts, err = kzg.TrustedSetupFromSecretPowers(suite, uint16(d), omega, secret)
	}
	sym.Assert(err == nil, "a valid secret and domain give a setup")
	return ts
}

// vector is a vector of arbitrary scalars, any of them absent; the second result stands in for the absent ones.
func vector(name string, ts *kzg.TrustedSetup, d int) ([]kyber.Scalar, []kyber.Scalar) {
	v, b := make([]kyber.Scalar, d), make([]kyber.Scalar, d)
	for i := range v {
		b[i] = intScalar(ts.Suite, 0)
		if sym.Choice(name+".present", 2) == 1 {
			b[i] = shimk.AsVar(intScalar(ts.Suite, element(name, order)))
			v[i] = b[i].Clone()
		}
	}
	return v, b
}

func writeFile(name string, b []byte) error { return os.WriteFile(name, b, 0o600) }

func filePath(name string) string { return name }

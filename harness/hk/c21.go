package hk

import (
	kzg "github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/verifh/shimk"
	"github.com/iotaledger/trie.go/verifh/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

// setupOf is a trusted setup of degree d of the big field, natural or over powers of a root of unity of order 5743.
func setupOf(d int, natural bool) *kzg.TrustedSetup {
	suite := bn256.NewSuite()
	secret := longScalar(suite, byte(17+29*sym.Choice("secret", secrets)))
	var ts *kzg.TrustedSetup
	var err error
	if natural {
		ts, err = kzg.TrustedSetupFromSecretNaturalDomain(suite, uint16(d), secret)
	} else {
		ts, err = kzg.TrustedSetupFromSecretPowers(suite, uint16(d), kzg.Model.Omega.Clone(), secret)
	}
	if err != nil {
		panic(err)
	}
	return ts
}

var secrets = 3

func sameSetup(a, b *kzg.TrustedSetup) bool {
	if a.D != b.D || !a.Omega.Equal(b.Omega) || len(a.LagrangeBasis) != len(b.LagrangeBasis) || len(a.Diff2) != len(b.Diff2) ||
		len(a.Domain) != len(b.Domain) || len(a.AprimeDomainI) != len(b.AprimeDomainI) || !a.ZeroG1.Equal(b.ZeroG1) || !a.OneG1.Equal(b.OneG1) {
		return false
	}
	r := true
	for i := range a.Domain {
		r = r && a.LagrangeBasis[i].Equal(b.LagrangeBasis[i]) && a.Diff2[i].Equal(b.Diff2[i]) && a.Domain[i].Equal(b.Domain[i]) && a.AprimeDomainI[i].Equal(b.AprimeDomainI[i])
	}
	return r
}

// byteVector is a vector of arbitrary small scalars, any of them absent.
func byteVector(name string, s *bn256.Suite, d int) []kyber.Scalar {
	v := make([]kyber.Scalar, d)
	for i := range v {
		if sym.Choice(name+".present", 2) == 1 {
			v[i] = shimk.AsVar(intScalar(s, sym.Byte(name)))
		}
	}
	return v
}

func roundTrip(d int) {
	ts := setupOf(d, natural())
	b := ts.Bytes()
	ts2, err := kzg.TrustedSetupFromBytes(bn256.NewSuite(), b)
	sym.Assert(err == nil, "a setup can be read back")
	sym.Assert(sameSetup(ts, ts2), "the setup read back is the same")
	sym.Assert(eq(ts2.Bytes(), b), "and has the same bytes")
	v := byteVector("v", ts.Suite, d)
	i := sym.Choice("index", d)
	c, c2 := ts.VerifCommit(v), ts2.VerifCommit(v)
	sym.Assert(c.Equal(c2), "both make the same commitment")
	p, p2 := ts.VerifProve(v, i), ts2.VerifProve(v, i)
	sym.Assert(p.Equal(p2), "both make the same proof")
	x := v[i]
	if x == nil {
		x = intScalar(ts.Suite, 0)
	}
	sym.Assert(ts.VerifVerify(c2, p2, x, i) && ts2.VerifVerify(c, p, x, i), "the proof of one verifies with the other")
	w := shimk.AsVar(intScalar(ts.Suite, sym.Byte("other")))
	sym.Assume(!w.Equal(x))
	sym.Assert(!ts.VerifVerify(c2, p2, w, i) && !ts2.VerifVerify(c, p, w, i), "and for no other value")
}

// C21_RoundTrip: setups of degree 1..4 and more.
func C21_RoundTrip() { roundTrip(1 + sym.Choice("d", sym.Bound(3, 4))) }

// C21_Large: a bigger degree, one element of the vector.
func C21_Large() {
	d := sym.Bound(16, 60)
	secrets = 1
	ts := setupOf(d, natural())
	ts2, err := kzg.TrustedSetupFromBytes(bn256.NewSuite(), ts.Bytes())
	sym.Assert(err == nil && sameSetup(ts, ts2), "the setup read back is the same")
	v := make([]kyber.Scalar, d)
	k := sym.Choice("k", d)
	v[k] = shimk.AsVar(intScalar(ts.Suite, sym.Byte("v")))
	v[d-1] = intScalar(ts.Suite, 3)
	i := sym.Choice("i", d)
	x := v[i]
	if x == nil {
		x = intScalar(ts.Suite, 0)
	}
	sym.Assert(ts2.VerifVerify(ts.VerifCommit(v), ts2.VerifProve(v, i), x, i), "the proof of one verifies with the other")
}

// C21_File: through a file.
func C21_File() {
	ts := setupOf(3, natural())
	if err := writeFile("setup", ts.Bytes()); err != nil {
		panic(err)
	}
	ts2, err := kzg.TrustedSetupFromFile(bn256.NewSuite(), filePath("setup"))
	sym.Assert(err == nil && sameSetup(ts, ts2), "the setup read from a file is the same")
	_, err = kzg.TrustedSetupFromFile(bn256.NewSuite(), filePath("none"))
	sym.Assert(err != nil, "a file that does not exist")
	b := ts.Bytes()
	if err := writeFile("cut", b[:[...]int{0, 1, 3, len(b) / 2, len(b) - 1}[sym.Choice("cut", 5)]]); err != nil {
		panic(err)
	}
	_, err = kzg.TrustedSetupFromFile(bn256.NewSuite(), filePath("cut"))
	sym.Assert(err != nil, "a file cut short is refused")
	sym.Assert(sameSetup(&kzg.New().TrustedSetup, &kzg.Model.TrustedSetup), "the models of the package have the same setup")
}

// C21_Cut: bytes that are cut or extended are refused.
func C21_Cut() {
	b := setupOf(2, natural()).Bytes()
	if sym.Choice("extend", 2) == 1 {
		_, err := kzg.TrustedSetupFromBytes(bn256.NewSuite(), append(b, sym.Bytes("x", 1+sym.Choice("n", 2))...))
		sym.Assert(err != nil, "an extended setup is refused")
		return
	}
	n := sym.Choice("cut", 100)
	if sym.Choice("end", 2) == 1 {
		n = len(b) - 1 - n
	}
	sym.Assume(n < len(b))
	_, err := kzg.TrustedSetupFromBytes(bn256.NewSuite(), b[:n])
	sym.Assert(err != nil, "a setup cut short is refused")
}

// C21_Bytes: what is read from arbitrary bytes is written as these bytes.
func C21_Bytes() {
	suite := bn256.NewSuite()
	d := sym.Choice("d", 3)
	w := kzg.Model.Omega.Clone()
	switch sym.Choice("omega", 4) {
	case 0:
		w.Zero()
	case 1:
		w.Mul(w, w)
	case 2:
		w.One()
	}
	wb, err := w.MarshalBinary()
	if err != nil {
		panic(err)
	}
	b := append([]byte{byte(d), 0}, wb...)
	for i := 0; i < 2*d; i++ {
		g := suite.G1()
		if i >= d {
			g = suite.G2()
		}
		x, err := g.Point().Mul(intScalar(suite, sym.Byte("point")), nil).MarshalBinary()
		if err != nil {
			panic(err)
		}
		b = append(b, x...)
	}
	if len(b) > 40 && sym.Choice("flip", 2) == 1 {
		b[34+sym.Choice("pos", 3)*10] ^= sym.Byte("bits")
	}
	ts, err := kzg.TrustedSetupFromBytes(suite, b)
	if err == nil {
		sym.Cover("read")
		sym.Assert(int(ts.D) == d && eq(ts.Bytes(), b), "what is read is what is written")
	}
}

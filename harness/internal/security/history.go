package security

import (
	"crypto/ecdsa"
	"crypto/sha1"
	"math/big"

	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
)

// A verification after an earlier one, of the same or of other certificate bytes.
//
//v:bounds one certificate that verifies (any content), under a key of exponent one; then a copy of it, freshly decoded, under the same key, a modulus of one, no modulus, or an issuer of any other reference; or a certificate with the same content and a signature or plain part that differs in one byte; issuers certificates and roots
//v:bigstrip 1
func vh_C24_rsa() {
	content := vBytes("content", 164)
	h := sha1.Sum(content)
	rec := append(append(append([]byte{0x6A}, content[:106]...), h[:]...), 0xBC)
	car := content[1:9]
	raw := append(append(append([]byte{}, rec...), content[106:]...), car...)
	n := make([]byte, 128)
	for i := range n {
		n[i] = 0xFF
	}
	verify := func(c *securityv1.RsaCertificate, n []byte, chr string, root bool) error {
		if root {
			r := &securityv1.RootCertificate{}
			r.SetRsaModulus(n)
			r.SetRsaExponent([]byte{1})
			r.SetKeyId(chr)
			return VerifyRsaCertificateWithRoot(c, r)
		}
		r := &securityv1.RsaCertificate{}
		r.SetRsaModulus(n)
		r.SetRsaExponent([]byte{1})
		r.SetCertificateHolderReference(chr)
		return VerifyRsaCertificateWithCA(c, r)
	}
	x, err := UnmarshalRsaCertificate(raw)
	vAssert(err == nil, "C24 certificate decodes")
	root := vPick("root", 2) == 1
	vAssert(verify(x, n, rsaDec(car), root) == nil && x.GetSignatureValid(), "C24 certificate accepted")
	first := proto.Clone(x)
	if vPick("again root", 2) == 1 {
		root = !root
	}
	raw2, n2, chr := vCopy(raw), n, rsaDec(car)
	good := true
	switch vPick("then", 7) {
	case 1: // another issuer
		other := vBytes("issuer", 8)
		chr = rsaDec(other)
		good = vEq(other, car)
	case 2: // another key, which recovers nothing
		n2 = make([]byte, 128)
		n2[127] = 1
		good = false
	case 6: // no key
		n2 = nil
		good = false
	case 3: // another signature
		i := []int{0, 1, 64, 106, 107, 126, 127}[vPick("byte", 7)]
		raw2[i] ^= vU8("flip")
	case 4: // another plain part
		i := 128 + []int{0, 1, 30, 57}[vPick("byte", 4)]
		raw2[i] ^= vU8("flip")
	case 5: // another reference
		raw2[186+vPick("byte", 8)] ^= vU8("flip")
	}
	h2 := sha1.Sum(append(vCopy(raw2[1:107]), raw2[128:186]...))
	same := bAnd(vEq(raw2[1:107], content[:106]), vEq(raw2[128:186], content[106:]))
	vAssume(same || !vEq(h2[:], h[:])) // no collisions
	good = bAnd(good, bAnd(bAnd(raw2[0] == 0x6A, raw2[127] == 0xBC), bAnd(vEq(raw2[107:127], h2[:]), vEq(raw2[186:], car))))
	y, err := UnmarshalRsaCertificate(raw2)
	vAssert(err == nil, "C24 certificate decodes")
	vAssert(!y.GetSignatureValid() && len(y.GetRsaModulus()) == 0, "C24 decoding alone gives no key and no validity, whatever was verified before")
	err = verify(y, n2, chr, root)
	vAssert((err == nil) == good, "C24 a certificate is judged by itself, whatever was verified before")
	vAssert(y.GetSignatureValid() == good, "C24 a certificate is judged by itself, whatever was verified before")
	vAssert(vSame(x, first), "C24 certificate verified earlier stays as it was")
	if !good {
		// what failed before does not spoil what is right
		z, err := UnmarshalRsaCertificate(raw)
		vAssert(err == nil, "C24 certificate decodes")
		vAssert(verify(z, n, rsaDec(car), root) == nil, "C24 certificate accepted again")
		vAssert(vSame(z, first), "C24 certificate accepted again")
		vReach("refused")
		return
	}
	if vEq(raw2, raw) {
		vAssert(vSame(y, first), "C24 certificate accepted again")
	}
	vReach("accepted")
}

// The same for the second generation.
//
//v:nomerge 1
//v:bounds one certificate that verifies under a key of one of three curves; then the same bytes decoded again, under the same issuer, one of another curve, one with another point of the same curve or one without key; or a certificate of the same content with another signature
func vh_C24_ecc() {
	ca := &vCurves[[]int{0, 2, 4}[vPick("ca", 3)]]
	p := vEccParts(&vCurves[1])
	body := p.body()
	h := ca.hash(body)
	r, s := ca.sign(h)
	raw := eccCert(body, r, s)
	x, err := UnmarshalEccCertificate(raw)
	vAssert(err == nil, "C24 certificate decodes")
	vAssert(VerifyEccCertificateWithCA(x, ca.ca()) == nil && x.GetSignatureValid(), "C24 certificate accepted")
	first := proto.Clone(x)
	raw2, issuer, good := raw, ca.ca(), true
	switch vPick("then", 4) {
	case 1:
		issuer = vCurves[(vPick("other curve", 5)+1)%6].ca()
		if issuer.GetPublicKey().GetDomainParametersOid() == ca.name {
			return
		}
		pub := &ecdsa.PublicKey{}
		for i := range vCurves {
			if k := &vCurves[i]; k.name == issuer.GetPublicKey().GetDomainParametersOid() {
				pub.Curve, pub.X, pub.Y = k.curve(), new(big.Int).SetBytes(vHex(k.gx)), new(big.Int).SetBytes(vHex(k.gy))
				vAssume(!ecdsa.Verify(pub, k.hash(body), new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)))
			}
		}
		good = false
	case 2:
		issuer.SetPublicKey(nil)
		good = false
	case 3:
		r2, s2 := vBytes("r", 66)[:ca.size], vBytes("s", 66)[:ca.size]
		pub := &ecdsa.PublicKey{Curve: ca.curve(), X: new(big.Int).SetBytes(vHex(ca.gx)), Y: new(big.Int).SetBytes(vHex(ca.gy))}
		vAssume(!ecdsa.Verify(pub, h, new(big.Int).SetBytes(r2), new(big.Int).SetBytes(s2)))
		raw2 = eccCert(body, r2, s2)
		good = false
	}
	y, err := UnmarshalEccCertificate(raw2)
	vAssert(err == nil, "C24 certificate decodes")
	vAssert(!y.GetSignatureValid(), "C24 decoding alone gives no validity, whatever was verified before")
	err = VerifyEccCertificateWithCA(y, issuer)
	vAssert((err == nil) == good && y.GetSignatureValid() == good, "C24 a certificate is judged by itself, whatever was verified before")
	vAssert(vSame(x, first), "C24 certificate verified earlier stays as it was")
	if !good {
		z, err := UnmarshalEccCertificate(raw)
		vAssert(err == nil && VerifyEccCertificateWithCA(z, ca.ca()) == nil && vSame(z, first), "C24 certificate accepted again")
		vReach("refused")
		return
	}
	vAssert(vSame(y, first), "C24 certificate accepted again")
	vReach("accepted")
}

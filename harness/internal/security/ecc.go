package security

import (
	"crypto/ecdsa"
	"encoding/binary"
	"math/big"

	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
)

// --- certificates in their DER structure (Appendix 11, table 4) ---

func derLen(n int) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x100:
		return []byte{0x81, byte(n)}
	}
	return []byte{0x82, byte(n >> 8), byte(n)}
}

func der(tag []byte, v ...[]byte) []byte {
	n := 0
	for _, x := range v {
		n += len(x)
	}
	b := append(append([]byte{}, tag...), derLen(n)...)
	for _, x := range v {
		b = append(b, x...)
	}
	return b
}

type eccParts struct {
	cpi, car, cha, x, y, chr, cefd, cexd []byte
	curve                                *vCurveT
}

// vEccParts is any content of a certificate for a key on curve c.
func vEccParts(c *vCurveT) *eccParts {
	p := &eccParts{curve: c}
	p.cpi, p.car, p.cha = vBytes("cpi", 1), vBytes("car", 8), vBytes("cha", 7)
	p.x, p.y = vBytes("x", 66)[:c.size], vBytes("y", 66)[:c.size]
	p.chr, p.cefd, p.cexd = vBytes("chr", 8), vBytes("cefd", 4), vBytes("cexd", 4)
	return p
}

func (p *eccParts) body() []byte {
	return der([]byte{0x7F, 0x4E},
		der([]byte{0x5F, 0x29}, p.cpi),
		der([]byte{0x42}, p.car),
		der([]byte{0x5F, 0x4C}, p.cha),
		der([]byte{0x7F, 0x49}, der([]byte{0x06}, p.curve.oid), der([]byte{0x86}, []byte{4}, p.x, p.y)),
		der([]byte{0x5F, 0x20}, p.chr),
		der([]byte{0x5F, 0x25}, p.cefd),
		der([]byte{0x5F, 0x24}, p.cexd))
}

func eccCert(body, r, s []byte) []byte {
	return der([]byte{0x7F, 0x21}, body, der([]byte{0x5F, 0x37}, r, s))
}

func (p *eccParts) check(c *securityv1.EccCertificate, raw, r, s []byte) {
	vAssert(c.GetCertificateProfileIdentifier() == int32(p.cpi[0]), "C13 profile identifier")
	vAssert(c.GetCertificateAuthorityReference() == rsaDec(p.car), "C13 authority reference")
	vAssert(vEq(c.GetCertificateHolderAuthorisation(), p.cha), "C13 holder authorisation")
	vAssert(c.GetPublicKey().GetDomainParametersOid() == p.curve.name, "C13 curve")
	vAssert(vEq(c.GetPublicKey().GetPublicPointX(), p.x) && vEq(c.GetPublicKey().GetPublicPointY(), p.y), "C13 public point")
	vAssert(c.GetCertificateHolderReference() == rsaDec(p.chr), "C13 holder reference")
	vAssert(c.GetCertificateEffectiveDate().GetSeconds() == int64(binary.BigEndian.Uint32(p.cefd)) && c.GetCertificateEffectiveDate().GetNanos() == 0, "C13 effective date")
	vAssert(c.GetCertificateExpirationDate().GetSeconds() == int64(binary.BigEndian.Uint32(p.cexd)) && c.GetCertificateExpirationDate().GetNanos() == 0, "C13 expiration date")
	vAssert(vEq(c.GetSignature().GetR(), r) && vEq(c.GetSignature().GetS(), s), "C13 signature components")
	vAssert(vEq(c.GetRawData(), raw), "C13 certificate keeps its bytes")
	vAssert(!c.GetSignatureValid(), "C13 decoding alone marks nothing valid")
}

//v:bounds certificates in the prescribed DER structure with keys on any of the six curves and signatures of 64, 96, 128 or 132 bytes, every content byte symbolic; total sizes 204 to 341 accepted, others refused
func vh_C13_decode() {
	p := vEccParts(&vCurves[vPick("curve", 6)])
	k := []int{32, 48, 64, 66}[vPick("signature", 4)]
	r, s := vBytes("r", 66)[:k], vBytes("s", 66)[:k]
	raw := eccCert(p.body(), r, s)
	c, err := UnmarshalEccCertificate(raw)
	if len(raw) < 204 || len(raw) > 341 {
		vAssert(c == nil && err != nil, "C13 certificate outside the permitted sizes refused")
		vReach("size")
		return
	}
	vAssert(err == nil, "C13 well-formed certificate accepted")
	p.check(c, raw, r, s)
	out, err := AppendEccCertificate([]byte{9}, c)
	vAssert(err == nil && vEq(out, append([]byte{9}, raw...)), "C13 certificate encodes to its bytes")
	vReach("end")
}

// --- verification ---

func (c *vCurveT) ca() *securityv1.EccCertificate {
	ca := &securityv1.EccCertificate{}
	pk := &securityv1.EccCertificate_PublicKey{}
	pk.SetDomainParametersOid(c.name)
	pk.SetPublicPointX(vHex(c.gx))
	pk.SetPublicPointY(vHex(c.gy))
	ca.SetPublicKey(pk)
	return ca
}

func eccRefused(c, before *securityv1.EccCertificate, err error) {
	vAssert(err != nil, "C13 certificate that does not verify is refused")
	vAssert(!c.GetSignatureValid(), "C13 refused certificate is not marked valid")
	before.SetSignatureValid(c.GetSignatureValid())
	vAssert(vSame(c, before), "C13 verification changes nothing else")
}

// Accepted exactly if the signature over the body verifies under the issuer's key.
//
//v:bounds certificates of every content for keys on two curves, signed with a real key on any of the six curves, or carrying any other signature of that size; certificates fresh or with the result of an earlier verification; the primitive an uninterpreted predicate of curve, key, hash and signature
func vh_C13_verify() {
	ca := &vCurves[vPick("ca", 6)]
	p := vEccParts(&vCurves[[]int{0, 2}[vPick("curve", 2)]])
	body := p.body()
	h := ca.hash(body)
	var r, s []byte
	good := vPick("signature", 2) == 0
	if good {
		r, s = ca.sign(h)
	} else {
		r, s = vBytes("r", 66)[:ca.size], vBytes("s", 66)[:ca.size]
		pub := &ecdsa.PublicKey{Curve: ca.curve(), X: new(big.Int).SetBytes(vHex(ca.gx)), Y: new(big.Int).SetBytes(vHex(ca.gy))}
		vAssume(!ecdsa.Verify(pub, h, new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)))
	}
	raw := eccCert(body, r, s)
	if len(raw) < 204 || len(raw) > 341 {
		return
	}
	c, err := UnmarshalEccCertificate(raw)
	vAssert(err == nil, "C13 well-formed certificate accepted")
	c.SetSignatureValid(vBool("was valid"))
	before := proto.Clone(c).(*securityv1.EccCertificate)
	err = VerifyEccCertificateWithCA(c, ca.ca())
	if !good {
		eccRefused(c, before, err)
		vReach("refused")
		return
	}
	vAssert(err == nil, "C13 certificate with a valid signature accepted")
	vAssert(c.GetSignatureValid(), "C13 accepted certificate is marked valid")
	before.SetSignatureValid(true)
	vAssert(vSame(c, before), "C13 verification changes nothing else")
	vReach("accepted")
}

// Issuers and certificates that are no proper ones.
//
//v:bounds one certificate, validly signed or not, fresh or with the result of an earlier verification; issuers missing, without key, point or curve, of unknown or differently written curves, with any point on any of the six curves; certificates missing, too short, too long, without signature, with absent or zero components
func vh_C13_malformed() {
	ca := &vCurves[vPick("ca", 6)]
	p := &eccParts{curve: &vCurves[1], cpi: []byte{0}, car: make([]byte, 8), cha: make([]byte, 7), x: make([]byte, 48), y: make([]byte, 48), chr: make([]byte, 8), cefd: make([]byte, 4), cexd: make([]byte, 4)}
	body := p.body()
	r, s := ca.sign(ca.hash(body))
	c, err := UnmarshalEccCertificate(eccCert(body, r, s))
	vAssert(err == nil, "C13 well-formed certificate accepted")
	c.SetSignatureValid(vBool("was valid"))
	issuer := ca.ca()
	missing := false
	switch vPick("what", 12) {
	case 0:
		issuer = nil
	case 1:
		issuer.SetPublicKey(nil)
	case 2:
		issuer.GetPublicKey().SetPublicPointX(nil)
	case 3:
		issuer.GetPublicKey().SetPublicPointY(nil)
	case 4:
		issuer.GetPublicKey().SetDomainParametersOid([]string{"", "1.2.3", "1.3.36.3.3.2.8.1.1.1", "1.3.36.3.3.2.8.1.1.70", "x", "\x06\x01"}[vPick("oid", 6)])
	case 5: // any point off the curve
		x, y := vBytes("x", 66)[:ca.size], vBytes("y", 66)[:ca.size]
		vAssume(!ca.curve().IsOnCurve(new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)))
		issuer.GetPublicKey().SetPublicPointX(x)
		issuer.GetPublicKey().SetPublicPointY(y)
	case 6:
		k := vPick("size", 3)
		c.SetRawData([][]byte{nil, make([]byte, 203), make([]byte, 342)}[k])
	case 7:
		c.SetSignature(nil)
	case 8:
		c.GetSignature().SetR(nil)
	case 9:
		c.GetSignature().SetS(nil)
	case 10:
		c.GetSignature().SetR(make([]byte, 32))
	case 11:
		missing = true
	}
	if missing {
		vAssert(VerifyEccCertificateWithCA(nil, issuer) != nil, "C13 missing certificate is refused")
		vReach("nil")
		return
	}
	before := proto.Clone(c).(*securityv1.EccCertificate)
	eccRefused(c, before, VerifyEccCertificateWithCA(c, issuer))
	vReach("end")
}

// --- malformed structures ---

// One element's tag or length replaced.
//
//v:bounds a certificate with a key on brainpoolP256r1 and its signature of 64 bytes where the last tag byte or the first length byte of any one of the twelve elements is replaced by any other byte
//v:cost 10
func vh_C13_structure() {
	p := &eccParts{curve: &vCurves[0], cpi: []byte{0}, car: make([]byte, 8), cha: make([]byte, 7), x: make([]byte, 32), y: make([]byte, 32), chr: make([]byte, 8), cefd: make([]byte, 4), cexd: make([]byte, 4)}
	raw := eccCert(p.body(), make([]byte, 32), make([]byte, 32))
	// positions of the last tag byte of each element
	k := vPick("element", 12)
	at := []int{1, 5, 9, 12, 23, 33, 35, 46, 114, 125, 132, 139}[k]
	vAssert(raw[at] == []byte{0x21, 0x4E, 0x29, 0x42, 0x4C, 0x49, 0x06, 0x86, 0x20, 0x25, 0x24, 0x37}[k], "C13 harness position")
	at += vPick("field", 2)
	x := vU8("byte")
	vAssume(x != raw[at])
	raw[at] = x
	c, err := UnmarshalEccCertificate(raw)
	vAssert((c == nil) == (err != nil), "C13 certificate or error")
	if err == nil {
		vAssert(vEq(c.GetRawData(), raw), "C13 certificate keeps its bytes")
		vReach("accepted")
	}
	vReach("end")
}

//v:bounds a certificate of 204 to 341 bytes with a key on brainpoolP256r1, cut anywhere
func vh_C13_cut() {
	p := &eccParts{curve: &vCurves[0], cpi: []byte{0}, car: make([]byte, 8), cha: make([]byte, 7), x: make([]byte, 32), y: make([]byte, 32), chr: make([]byte, 8), cefd: make([]byte, 4), cexd: make([]byte, 4)}
	raw := eccCert(p.body(), make([]byte, 66), make([]byte, 66))
	n := vRange("n", 0, len(raw)-1)
	c, err := UnmarshalEccCertificate(raw[:n])
	vAssert(c == nil && err != nil, "C13 certificate with missing bytes refused")
	vReach("end")
}

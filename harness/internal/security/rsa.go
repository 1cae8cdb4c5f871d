package security

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math/big"
	"strconv"

	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func rsaDec(b []byte) string { return fmt.Sprintf("%d", binary.BigEndian.Uint64(b)) }

// rsaKey is an issuer key and how to sign with it.
//
// Kind 0: exponent one and any modulus above the recovered message, so that the
// signature is the recovered message itself. Kind 1: a real key pair.
func rsaKey(kind int, rec []byte) (sig, n, e []byte) {
	if kind == 0 {
		k := []int{128, 129, 160}[vPick("modulus size", 3)]
		n = vBytes("modulus", 160)[:k]
		vAssume(new(big.Int).SetBytes(rec).Cmp(new(big.Int).SetBytes(n)) < 0)
		e = make([]byte, 1+7*vPick("exponent size", 2))
		e[len(e)-1] = 1
		return rec, n, e
	}
	return vRsaSign(rec), vHex(vRsaN), vHex(vRsaE)
}

// rsaEarlier puts a certificate into the state an earlier verification left.
func rsaEarlier(c *securityv1.RsaCertificate) {
	if vPick("earlier", 2) == 1 {
		c.SetSignatureValid(vBool("was valid"))
		c.SetCertificateHolderReference("77")
		c.SetRsaModulus([]byte{1, 2, 3})
		c.SetRsaExponent([]byte{4, 5})
		c.SetEndOfValidity(&timestamppb.Timestamp{Seconds: 12345})
	}
}

// rsaVerify calls the verification with the key in a certificate or in a root certificate.
func rsaVerify(c *securityv1.RsaCertificate, n, e []byte, chr string) error {
	if vPick("issuer kind", 2) == 0 {
		ca := &securityv1.RsaCertificate{}
		ca.SetRsaModulus(n)
		ca.SetRsaExponent(e)
		ca.SetCertificateHolderReference(chr)
		return VerifyRsaCertificateWithCA(c, ca)
	}
	root := &securityv1.RootCertificate{}
	root.SetRsaModulus(n)
	root.SetRsaExponent(e)
	root.SetKeyId(chr)
	return VerifyRsaCertificateWithRoot(c, root)
}

func rsaRefused(c, before *securityv1.RsaCertificate, err error) {
	vAssert(err != nil, "C12 certificate that fails a check is refused")
	vAssert(!c.GetSignatureValid(), "C12 refused certificate is not marked valid")
	before.SetSignatureValid(c.GetSignatureValid())
	vAssert(vEq(c.GetRsaModulus(), before.GetRsaModulus()) && vEq(c.GetRsaExponent(), before.GetRsaExponent()), "C12 refusal fills in no key")
	vAssert(c.GetCertificateHolderReference() == before.GetCertificateHolderReference(), "C12 refusal fills in no holder reference")
	vAssert(c.GetEndOfValidity().GetSeconds() == before.GetEndOfValidity().GetSeconds(), "C12 refusal fills in no validity")
	vAssert(c.GetCertificateAuthorityReference() == before.GetCertificateAuthorityReference(), "C12 refusal keeps the issuer reference")
	vAssert(vEq(c.GetRawData(), before.GetRawData()), "C12 refusal keeps the certificate bytes")
}

// Accepted exactly if header, trailer, content hash and issuer reference are right.
//
//v:bounds certificates of any content, header, trailer, content hash (as difference from the right one), authority reference; issuer keys with exponent one and any modulus of 128, 129 or 160 bytes above the recovered message, and one real key pair; issuer references right or of any other number; issuer a certificate or the root; certificates fresh or with the results of an earlier verification
//v:bigstrip 1
func vh_C12_verify() {
	content := vBytes("content", 164)
	h := sha1.Sum(content)
	diff := vBytes("hash diff", 20)
	rec := []byte{vU8("header")}
	rec = append(rec, content[:106]...)
	for i, x := range h {
		rec = append(rec, x^diff[i])
	}
	rec = append(rec, vU8("trailer"))
	sig, n, e := rsaKey(vPick("key", 2), rec)
	car := vBytes("car", 8)
	raw := append(append(append([]byte{}, sig...), content[106:]...), car...)
	c, err := UnmarshalRsaCertificate(raw)
	vAssert(err == nil && c.GetCertificateAuthorityReference() == rsaDec(car), "C12 decoded authority reference is the one in the certificate")
	rsaEarlier(c)
	before := proto.Clone(c).(*securityv1.RsaCertificate)
	ref := vBytes("issuer", 8)
	err = rsaVerify(c, n, e, rsaDec(ref))
	zero := true
	for _, x := range diff {
		zero = bAnd(zero, x == 0)
	}
	good := bAnd(bAnd(rec[0] == 0x6A, rec[127] == 0xBC), bAnd(zero, vEq(ref, car)))
	if !good {
		rsaRefused(c, before, err)
		vReach("refused")
		return
	}
	vAssert(err == nil, "C12 certificate that passes every check is accepted")
	vAssert(c.GetSignatureValid(), "C12 accepted certificate is marked valid")
	vAssert(vEq(c.GetRsaModulus(), content[28:156]), "C12 modulus from the authenticated content")
	vAssert(vEq(c.GetRsaExponent(), content[156:164]), "C12 exponent from the authenticated content")
	vAssert(c.GetCertificateHolderReference() == rsaDec(content[20:28]), "C12 holder reference from the authenticated content")
	vAssert(c.GetCertificateAuthorityReference() == rsaDec(content[1:9]), "C12 authority reference from the authenticated content")
	vAssert(c.GetEndOfValidity().GetSeconds() == int64(binary.BigEndian.Uint32(content[16:20])) && c.GetEndOfValidity().GetNanos() == 0, "C12 end of validity from the authenticated content")
	vAssert(vEq(c.GetRawData(), raw), "C12 acceptance keeps the certificate bytes")
	vReach("accepted")
}

// Written references: the certificate's reference against an issuer reference of other text.
//
//v:bounds certificates naming authority 0, 1, 12, 2^32, 2^63 or 2^64-1, otherwise any content of which the authenticated part passes; issuer references any of these numbers, and the same with a digit, a blank, a zero or a sign before or after it, and none
//v:bigstrip 1
func vh_C12_references() {
	content := vBytes("content", 164)
	h := sha1.Sum(content)
	rec := append(append(append([]byte{0x6A}, content[:106]...), h[:]...), 0xBC)
	nums := []uint64{0, 1, 12, 1 << 32, 1 << 63, 1<<64 - 1}
	x := nums[vPick("car", len(nums))]
	want := strconv.FormatUint(x, 10)
	ref := ""
	switch k := vPick("issuer", len(nums)+9); {
	case k < len(nums):
		ref = strconv.FormatUint(nums[k], 10)
	default:
		ref = []string{"", want + "1", "1" + want, want + " ", " " + want, "0" + want, "+" + want, want[:len(want)-1], want[1:]}[k-len(nums)]
	}
	var car [8]byte
	binary.BigEndian.PutUint64(car[:], x)
	c, err := UnmarshalRsaCertificate(append(append(rec, content[106:]...), car[:]...))
	vAssert(err == nil && c.GetCertificateAuthorityReference() == want, "C12 decoded authority reference is the one in the certificate")
	rsaEarlier(c)
	before := proto.Clone(c).(*securityv1.RsaCertificate)
	n := make([]byte, 128)
	n[0] = 0xFF
	err = rsaVerify(c, n, []byte{1}, ref)
	if ref != want {
		rsaRefused(c, before, err)
		vReach("refused")
		return
	}
	vAssert(err == nil && c.GetSignatureValid(), "C12 certificate that passes every check is accepted")
	vReach("accepted")
}

// Signatures, keys and sizes that are no proper ones.
//
//v:bounds any signature bytes against the real key, a modulus of zero and of one; no issuer, no key, no certificate, certificates of 0, 193 and 195 bytes; certificates fresh or with the results of an earlier verification
//v:bigstrip 3
func vh_C12_malformed() {
	c := &securityv1.RsaCertificate{}
	raw := vBytes("raw", 194)
	c.SetRawData(raw)
	rsaEarlier(c)
	before := proto.Clone(c).(*securityv1.RsaCertificate)
	ref := rsaDec(raw[186:])
	one := []byte{0, 0, 0, 0, 0, 0, 0, 1}
	var err error
	switch vPick("what", 9) {
	case 0:
		err = VerifyRsaCertificateWithCA(c, nil)
	case 1:
		err = VerifyRsaCertificateWithRoot(c, nil)
	case 2:
		err = rsaVerify(c, nil, one, ref)
	case 3:
		err = rsaVerify(c, vBytes("modulus", 128), nil, ref)
	case 4:
		err = rsaVerify(nil, vBytes("modulus", 128), one, ref)
		vAssert(err != nil, "C12 missing certificate is refused")
		vReach("nil")
		return
	case 5:
		k := vPick("size", 3)
		c.SetRawData(append(append([]byte{}, raw...), 0)[:[]int{0, 193, 195}[k]])
		before.SetRawData(c.GetRawData())
		err = rsaVerify(c, vHex(vRsaN), vHex(vRsaE), ref)
	case 6: // zero modulus
		err = rsaVerify(c, make([]byte, 128), vBytes("exponent", 8), ref)
	case 7: // modulus of one: recovers zero
		m := make([]byte, 128)
		m[127] = 1
		err = rsaVerify(c, m, vBytes("exponent", 8), ref)
	case 8: // an issuer reference that is no number, or not written as one
		err = rsaVerify(c, vHex(vRsaN), vHex(vRsaE), []string{"", "x", "00", " 1", "+1", "-1", "18446744073709551616"}[vPick("text", 7)])
	}
	rsaRefused(c, before, err)
	vReach("end")
}

// A recovered message with leading zero bytes.
//
//v:bounds recovered messages of 1, 64 or 128 leading zero bytes and any others, any plain content; exponent one with any modulus of 1024 bits, and one real key pair
//v:bigstrip 128
func vh_C12_zeros() {
	rec := append(make([]byte, []int{1, 64, 128}[vPick("zeros", 3)]), vBytes("rest", 127)...)[:128]
	sig, n, e := rec, vBytes("modulus", 128), []byte{1}
	n[0] |= 0x80
	if vPick("key", 2) == 1 {
		sig, n, e = vRsaSign(rec), vHex(vRsaN), vHex(vRsaE)
	}
	plain := vBytes("plain", 66)
	c, err := UnmarshalRsaCertificate(append(append([]byte{}, sig...), plain...))
	vAssert(err == nil, "C12 certificate decodes")
	before := proto.Clone(c).(*securityv1.RsaCertificate)
	rsaRefused(c, before, rsaVerify(c, n, e, rsaDec(plain[58:])))
	vReach("refused")
}

// Decoding and encoding.
//
//v:bounds all certificates of 194 bytes; sizes 0, 193 and 195
func vh_C12_decode() {
	raw := vBytes("raw", 195)
	k := vPick("size", 4)
	raw = raw[:[]int{194, 0, 193, 195}[k]]
	c, err := UnmarshalRsaCertificate(raw)
	if k != 0 {
		vAssert(c == nil && err != nil, "C12 certificate of another size refused")
		vReach("refused")
		return
	}
	vAssert(err == nil, "C12 certificate decodes")
	vAssert(c.GetCertificateAuthorityReference() == rsaDec(raw[186:194]), "C12 decoded authority reference is the one in the certificate")
	vAssert(!c.GetSignatureValid() && len(c.GetRsaModulus()) == 0 && len(c.GetRsaExponent()) == 0 && c.GetCertificateHolderReference() == "", "C12 decoding alone gives no key and no validity")
	out, err := AppendRsaCertificate([]byte{9}, c)
	vAssert(err == nil && vEq(out, append([]byte{9}, raw...)), "C12 certificate encodes to its bytes")
	vReach("end")
}

//v:bounds all root certificates of 144 bytes; sizes 0, 143 and 145
func vh_C12_root() {
	raw := vBytes("raw", 145)
	k := vPick("size", 4)
	raw = raw[:[]int{144, 0, 143, 145}[k]]
	c, err := UnmarshalRootCertificate(raw)
	if k != 0 {
		vAssert(c == nil && err != nil, "C12 root certificate of another size refused")
		vReach("refused")
		return
	}
	vAssert(err == nil, "C12 root certificate decodes")
	vAssert(c.GetKeyId() == rsaDec(raw[:8]) && vEq(c.GetRsaModulus(), raw[8:136]) && vEq(c.GetRsaExponent(), raw[136:144]), "C12 root certificate fields are those in its bytes")
	vReach("end")
}

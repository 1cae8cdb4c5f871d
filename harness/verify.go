package tachograph

import (
	"context"
	"crypto/ecdsa"
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

func vDec(b []byte) string { return fmt.Sprintf("%d", binary.BigEndian.Uint64(b)) }

// vRsaCert is a first generation certificate, signed for issuer keys of exponent one and a
// modulus above all messages; it verifies exactly if wrong is zero and the issuer is car.
func vRsaCert(car, chr []byte, wrong byte) []byte {
	content := make([]byte, 164)
	content[0] = 1
	copy(content[1:], car)
	copy(content[20:], chr)
	for i := 28; i < 156; i++ {
		content[i] = 0xFF
	}
	content[163] = 1
	h := sha1.Sum(content)
	h[0] ^= wrong
	raw := append(append(append([]byte{0x6A}, content[:106]...), h[:]...), 0xBC)
	return append(append(raw, content[106:]...), car...)
}

func vDer(tag []byte, v ...[]byte) []byte {
	n := 0
	for _, x := range v {
		n += len(x)
	}
	b := append([]byte{}, tag...)
	if n >= 0x80 {
		b = append(b, 0x81)
	}
	b = append(b, byte(n))
	for _, x := range v {
		b = append(b, x...)
	}
	return b
}

// vEccCert is a second generation certificate, signed by the key of curve ca or not.
func vEccCert(ca *vCurveT, car, chr []byte, good bool) []byte {
	c := &vCurves[0]
	body := vDer([]byte{0x7F, 0x4E},
		vDer([]byte{0x5F, 0x29}, []byte{0}),
		vDer([]byte{0x42}, car),
		vDer([]byte{0x5F, 0x4C}, make([]byte, 7)),
		vDer([]byte{0x7F, 0x49}, vDer([]byte{0x06}, c.oid), vDer([]byte{0x86}, []byte{4}, vHex(c.gx), vHex(c.gy))),
		vDer([]byte{0x5F, 0x20}, chr),
		vDer([]byte{0x5F, 0x25}, make([]byte, 4)),
		vDer([]byte{0x5F, 0x24}, make([]byte, 4)))
	h := ca.hash(body)
	var r, s []byte
	if good {
		r, s = ca.sign(h)
	} else {
		r, s = vBytes("r", 66)[:ca.size], vBytes("s", 66)[:ca.size]
		vAssume(!ecdsa.Verify(&ecdsa.PublicKey{Curve: ca.curve(), X: new(big.Int).SetBytes(vHex(ca.gx)), Y: new(big.Int).SetBytes(vHex(ca.gy))}, h, new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)))
	}
	return vDer([]byte{0x7F, 0x21}, body, vDer([]byte{0x5F, 0x37}, r, s))
}

// vResolver answers as told and records the questions.
type vResolver struct {
	rsa            *securityv1.RsaCertificate
	ecc            *securityv1.EccCertificate
	root           *securityv1.RootCertificate
	noRsa, noEcc   bool
	noRoot         bool
	rsaAsk, eccAsk []string
	rootAsk        int
	ctx            context.Context
	sameCtx        bool
}

func (r *vResolver) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	r.rootAsk++
	r.sameCtx = r.sameCtx && ctx == r.ctx
	if r.noRoot {
		return nil, errors.New("no root")
	}
	return r.root, nil
}

func (r *vResolver) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	r.rsaAsk = append(r.rsaAsk, chr)
	r.sameCtx = r.sameCtx && ctx == r.ctx
	if r.noRsa {
		return nil, errors.New("no certificate")
	}
	return r.rsa, nil
}

func (r *vResolver) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	r.eccAsk = append(r.eccAsk, chr)
	r.sameCtx = r.sameCtx && ctx == r.ctx
	if r.noEcc {
		return nil, errors.New("no certificate")
	}
	return r.ecc, nil
}

type vCtx struct {
	context.Context
	tag int
}

// vGen1 puts a first generation application into the card; it tells whether its certificate verifies.
func vGen1(d *cardv1.DriverCardFile, r *vResolver) (crt *securityv1.RsaCertificate, car string, good bool) {
	app := &cardv1.DriverCardFile_Tachograph{}
	d.SetTachograph(app)
	rootID, caID, cardID := []byte{0xFD, 0, 0, 0, 0, 0, 0, 1}, vBytes("authority", 8), []byte{1, 2, 3, 4, 5, 6, 7, 8}
	good = true
	have := vPick("card certificate", 3)
	if have > 0 {
		app.SetCardCertificate(&cardv1.CardCertificate{})
		good = false
	}
	wrong := vU8("wrong card")
	crt = &securityv1.RsaCertificate{}
	if have != 1 {
		if have == 0 {
			app.SetCardCertificate(&cardv1.CardCertificate{})
			app.GetCardCertificate().SetRsaCertificate(crt)
		} else {
			app.SetCardCertificate(nil)
		}
		crt.SetRawData(vRsaCert(caID, cardID, wrong))
		crt.SetCertificateAuthorityReference(vDec(caID))
		crt.SetSignatureValid(vBool("card was valid"))
	}
	good = bAnd(good, wrong == 0)
	// the issuer
	key := make([]byte, 128)
	for i := range key {
		key[i] = 0xFF
	}
	holder := vBytes("authority holder", 8)
	if vPick("embedded authority", 2) == 1 { // plays no part: the authority is to be resolved
		own := &securityv1.RsaCertificate{}
		own.SetRawData(vRsaCert(rootID, caID, 0))
		own.SetCertificateAuthorityReference(vDec(rootID))
		own.SetCertificateHolderReference(vDec(caID))
		own.SetRsaModulus(key)
		own.SetRsaExponent([]byte{1})
		own.SetSignatureValid(true)
		app.SetCaCertificate(&cardv1.CaCertificate{})
		app.GetCaCertificate().SetRsaCertificate(own)
	}
	r.rsa = &securityv1.RsaCertificate{}
	r.root = &securityv1.RootCertificate{}
	r.root.SetKeyId(vDec(rootID))
	r.root.SetRsaModulus(key)
	r.root.SetRsaExponent([]byte{1})
	switch vPick("issuer", 6) {
	case 0: // its key is known
		r.rsa.SetRsaModulus(key)
		r.rsa.SetRsaExponent([]byte{1})
		r.rsa.SetCertificateHolderReference(vDec(holder))
		good = bAnd(good, vEq(holder, caID))
	case 1: // its key is in its certificate
		wrongCA := vU8("wrong authority")
		r.rsa.SetRawData(vRsaCert(rootID, holder, wrongCA))
		r.rsa.SetCertificateAuthorityReference(vDec(rootID))
		if vPick("half a key", 2) == 1 {
			r.rsa.SetRsaModulus(key)
			r.rsa.SetCertificateHolderReference(vDec(caID))
		}
		good = bAnd(good, bAnd(wrongCA == 0, vEq(holder, caID)))
		switch vPick("root", 4) {
		case 1:
			r.noRoot = true
			good = false
		case 2:
			r.root = nil
			good = false
		case 3: // another root
			r.root.SetKeyId("12345")
			good = false
		}
	case 2:
		r.noRsa = true
		good = false
	case 3:
		r.rsa = nil
		good = false
	case 4: // empty
		good = false
	case 5: // certificate of another authority
		r.rsa.SetRawData(vRsaCert([]byte{1, 1, 1, 1, 1, 1, 1, 1}, caID, 0))
		r.rsa.SetCertificateHolderReference(vDec(caID))
		r.rsa.SetSignatureValid(true)
		good = false
	}
	return crt, vDec(caID), good
}

// vGen2 puts a second generation application into the card; it tells whether its certificate verifies.
func vGen2(d *cardv1.DriverCardFile, r *vResolver) (crt *securityv1.EccCertificate, car string, good bool) {
	app := &cardv1.DriverCardFile_TachographG2{}
	d.SetTachographG2(app)
	caID, cardID := vBytes("ecc authority", 8), []byte{1, 2, 3, 4, 5, 6, 7, 8}
	ca := &vCurves[[]int{0, 4}[vPick("ecc curve", 2)]]
	signed := vPick("ecc signed", 2) == 0
	good = signed
	named := vDec(caID)
	crt = &securityv1.EccCertificate{}
	raw := vEccCert(ca, caID, cardID, signed)
	crt.SetRawData(raw)
	crt.SetCertificateAuthorityReference(vDec(caID))
	sig := &securityv1.EccCertificate_EccSignature{}
	sig.SetR(raw[len(raw)-2*ca.size : len(raw)-ca.size])
	sig.SetS(raw[len(raw)-ca.size:])
	crt.SetSignature(sig)
	crt.SetSignatureValid(vBool("ecc card was valid"))
	// the certificate for mutual authentication plays no part
	other := &cardv1.CardMaCertificate{}
	other.SetEccCertificate(&securityv1.EccCertificate{})
	app.SetCardMaCertificate(other)
	switch vPick("ecc card certificate", 3) {
	case 0:
		app.SetCardSignCertificate(&cardv1.CardSignCertificate{})
		app.GetCardSignCertificate().SetEccCertificate(crt)
	case 1:
		app.SetCardSignCertificate(&cardv1.CardSignCertificate{})
		good = false
	case 2:
		good = false
	}
	r.ecc = &securityv1.EccCertificate{}
	r.ecc.SetCertificateHolderReference(vDec(caID))
	pk := &securityv1.EccCertificate_PublicKey{}
	pk.SetDomainParametersOid(ca.name)
	pk.SetPublicPointX(vHex(ca.gx))
	pk.SetPublicPointY(vHex(ca.gy))
	r.ecc.SetPublicKey(pk)
	if vPick("ecc embedded", 2) == 1 { // play no part
		own := &securityv1.EccCertificate{}
		own.SetCertificateHolderReference(vDec(caID))
		own.SetPublicKey(pk)
		own.SetSignatureValid(true)
		app.SetCaCertificate(&cardv1.CaCertificateG2{})
		app.GetCaCertificate().SetEccCertificate(own)
		app.SetLinkCertificate(&cardv1.LinkCertificate{})
		app.GetLinkCertificate().SetEccCertificate(own)
		if vPick("ecc nameless", 2) == 1 {
			crt.SetCertificateAuthorityReference("")
			named = ""
		}
	}
	switch vPick("ecc ca", 4) {
	case 1:
		r.noEcc = true
		good = false
	case 2:
		r.ecc = nil
		good = false
	case 3:
		r.ecc.SetPublicKey(nil)
		good = false
	}
	return crt, named, good
}

//v:bounds driver cards with none, either or both generations; first generation card certificates missing, empty, right or wrong in their hash, of any authority reference; resolvers that fail, give nothing, an authority certificate with its key and any holder reference, one whose key must first be verified under a root (missing, failing, nil, another, right), an empty one; with or without authority certificates of their own in the card; second generation likewise with real signatures on two curves and any other signature
//v:budget 200
//v:cost 20
//v:bigstrip 1
func vh_C14_driver() {
	d := &cardv1.DriverCardFile{}
	r := &vResolver{ctx: &vCtx{context.Background(), 1}, sameCtx: true}
	has1, has2 := vPick("first generation", 2) == 1, vPick("second generation", 2) == 1
	good1, good2 := true, true
	var crt1 *securityv1.RsaCertificate
	var crt2 *securityv1.EccCertificate
	var car1, car2 string
	if has1 {
		crt1, car1, good1 = vGen1(d, r)
	}
	if has2 {
		crt2, car2, good2 = vGen2(d, r)
	}
	f := &tachographv1.File{}
	f.SetType(tachographv1.File_DRIVER_CARD)
	f.SetDriverCard(d)
	err := VerifyOptions{CertificateResolver: r}.VerifyFile(r.ctx, f)
	vAssert((err == nil) == bAnd(good1, good2), "C14 succeeds exactly if every card certificate verifies")
	vAssert(r.sameCtx, "C14 passes the context on")
	for _, a := range r.rsaAsk {
		vAssert(has1 && a == car1, "C14 asks for the authority the certificate names")
	}
	for _, a := range r.eccAsk {
		vAssert(has2 && a == car2, "C14 asks for the authority the certificate names")
	}
	if err == nil {
		vAssert(!has1 || crt1.GetSignatureValid(), "C14 verified certificate is marked valid")
		vAssert(!has2 || crt2.GetSignatureValid(), "C14 verified certificate is marked valid")
		if has1 && has2 {
			vReach("both")
		}
		vReach("success")
	} else {
		vReach("failure")
	}
}

//v:bounds files of any kind, with no content, with vehicle unit or raw card content, and driver cards without content; no file
func vh_C14_kinds() {
	r := &vResolver{sameCtx: true}
	o := VerifyOptions{CertificateResolver: r}
	ctx := context.Background()
	if vPick("file", 2) == 0 {
		vAssert(o.VerifyFile(ctx, nil) != nil, "C14 missing file is an error")
		vReach("nil")
		return
	}
	f := &tachographv1.File{}
	t := tachographv1.File_Type(vRange("kind", -1, 9))
	f.SetType(t)
	switch vPick("content", 3) {
	case 1:
		f.SetVehicleUnit(&vuv1.VehicleUnitFile{})
	case 2:
		f.SetRawCard(&cardv1.RawCardFile{})
	}
	err := o.VerifyFile(ctx, f)
	known := t == tachographv1.File_VEHICLE_UNIT || t == tachographv1.File_RAW_CARD
	vAssert((err == nil) == known, "C14 succeeds without certificates exactly for vehicle unit and raw card files")
	vAssert(len(r.rsaAsk) == 0 && len(r.eccAsk) == 0 && r.rootAsk == 0, "C14 files without card certificates ask for none")
	vReach("end")
}

package tachograph

import (
	"context"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

// A card is verified, then again, or another one, with resolvers that answer differently.
//
//v:bounds first generation cards; verified first by a resolver that knows the authority, or one that fails; then a card of the same or of another authority reference, signed or wrong in its hash, in the same or another options value, by a resolver that gives the right authority, one of any other reference, fails, or gives nothing
//v:bigstrip 1
func vh_C24_verify() {
	caID := vBytes("authority", 8)
	key := make([]byte, 128)
	for i := range key {
		key[i] = 0xFF
	}
	card := func(car []byte, wrong byte) (*tachographv1.File, *securityv1.RsaCertificate) {
		crt := &securityv1.RsaCertificate{}
		crt.SetRawData(vRsaCert(car, []byte{1, 2, 3, 4, 5, 6, 7, 8}, wrong))
		crt.SetCertificateAuthorityReference(vDec(car))
		app := &cardv1.DriverCardFile_Tachograph{}
		app.SetCardCertificate(&cardv1.CardCertificate{})
		app.GetCardCertificate().SetRsaCertificate(crt)
		d := &cardv1.DriverCardFile{}
		d.SetTachograph(app)
		f := &tachographv1.File{}
		f.SetType(tachographv1.File_DRIVER_CARD)
		f.SetDriverCard(d)
		return f, crt
	}
	authority := func(ref []byte) *securityv1.RsaCertificate {
		a := &securityv1.RsaCertificate{}
		a.SetRsaModulus(key)
		a.SetRsaExponent([]byte{1})
		a.SetCertificateHolderReference(vDec(ref))
		return a
	}
	ctx := context.Background()
	r := &vResolver{ctx: ctx, sameCtx: true, rsa: authority(caID)}
	r.noRsa = vPick("first fails", 2) == 1
	before := proto.Clone(r.rsa)
	o := VerifyOptions{CertificateResolver: r}
	f, crt := card(caID, 0)
	err := o.VerifyFile(ctx, f)
	vAssert((err == nil) == !r.noRsa, "C24 first card")
	vAssert(vSame(r.rsa, before), "C24 verification leaves an authority with a key alone")
	first := proto.Clone(f)
	id, wrong, good := caID, vU8("wrong"), true
	if vPick("another", 2) == 1 {
		id = vBytes("other authority", 8)
	}
	good = wrong == 0
	if vPick("other options", 2) == 1 {
		r = &vResolver{ctx: ctx, sameCtx: true}
		o = VerifyOptions{CertificateResolver: r}
	}
	r.noRsa, r.rsa, r.rsaAsk = false, nil, nil
	switch vPick("resolver", 4) {
	case 0:
		r.rsa = authority(id)
	case 1:
		holder := vBytes("holder", 8)
		r.rsa = authority(holder)
		good = bAnd(good, vEq(holder, id))
	case 2:
		r.noRsa = true
		good = false
	case 3:
		good = false
	}
	g, crt2 := card(id, wrong)
	err = o.VerifyFile(ctx, g)
	vAssert((err == nil) == good, "C24 the second card is judged by itself")
	vAssert(crt2.GetSignatureValid() == good, "C24 the second card is judged by itself")
	vAssert(len(r.rsaAsk) > 0 && r.rsaAsk[0] == vDec(id), "C24 the resolver is asked for the second card too")
	vAssert(vSame(f, first), "C24 card verified earlier stays as it was")
	_ = crt
	vReach("end")
}

//v:bounds two files, each a driver card of an ICC (any 25 bytes) with or without an IC (any 8 bytes), a raw card of another type, a vehicle unit file (refused or not) or no file at all; parsed and encoded one after the other and the first again
func vh_C24_file() {
	img := func(id string) []byte {
		icc := append([]byte{0, 2, 0, 0, 25}, vBytes("icc"+id, 25)...)
		switch vPick("kind"+id, 5) {
		case 0:
			return icc
		case 1:
			return append(append(icc, 0, 5, 0, 0, 8), vBytes("ic"+id, 8)...)
		case 2: // a calibration file, which a driver card does not have
			return append(append(icc, 5, 0x0A, 0, 0, 8), vBytes("ic"+id, 8)...)
		case 3:
			return []byte{0x76, 4, 0, vU8("n" + id)}
		}
		return vBytes("other"+id, 3)
	}
	b, c := img("b"), img("c")
	x, err := UnmarshalFile(b)
	first := proto.Clone(x)
	out, e := MarshalFile(x)
	keep := vCopy(out)
	y, err2 := UnmarshalFile(c)
	second := proto.Clone(y)
	MarshalFile(y)
	vAssert(err != nil || vSame(x, first), "C24 file decoded earlier stays as it was")
	vAssert(vEq(out, keep), "C24 file encoded earlier stays as it was")
	z, e2 := UnmarshalFile(b)
	vAssert((e2 == nil) == (err == nil), "C24 file decodes the same again")
	vAssert(err != nil || vSame(z, first), "C24 file decodes the same again")
	out2, e3 := MarshalFile(z)
	vAssert((e == nil) == (e3 == nil) && vEq(out2, keep), "C24 file encodes the same again")
	w, e4 := UnmarshalFile(c)
	vAssert((e4 == nil) == (err2 == nil), "C24 file decodes the same again")
	vAssert(err2 != nil || vSame(w, second), "C24 file decodes the same again")
	vReach("end")
}

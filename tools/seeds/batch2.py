C="internal/card/"; D="internal/dd/"; V="internal/vu/"; S="internal/security/"
def t(pkg,imports,body):
    return "package "+pkg+"\n\nimport (\n\t\"testing\"\n"+"".join("\t"+i+"\n" for i in imports)+")\n\nfunc TestSeededDemo(t *testing.T) {\n"+body+"}\n"
seeds=[
dict(id="C12-car-prefix",property="C12",pkg="internal/security",
 needs="a certificate whose authority reference, in decimal, is a proper prefix of the verifying key's reference",
 breaks="the issuer reference is compared as a prefix only, so that a certificate naming another authority is accepted",
 edits=[(S+"rsa_verify.go","	if carPrimeStr != caCHR {","	if len(caCHR) < len(carPrimeStr) || caCHR[:len(carPrimeStr)] != carPrimeStr {")],
 demo=t("security",['"crypto/sha1"','"bytes"','securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"'],'''
	content := bytes.Repeat([]byte{7}, 164)
	h := sha1.Sum(content)
	sig := append([]byte{0x6A}, content[:106]...)
	sig = append(append(sig, h[:]...), 0xBC)
	raw := append(append(sig, content[106:]...), 0, 0, 0, 0, 0, 0, 0, 12)
	try := func(chr string) (bool, error) {
		c, ca := &securityv1.RsaCertificate{}, &securityv1.RsaCertificate{}
		c.SetRawData(raw)
		ca.SetRsaModulus(bytes.Repeat([]byte{0xFF}, 128))
		ca.SetRsaExponent([]byte{1})
		ca.SetCertificateHolderReference(chr)
		err := VerifyRsaCertificateWithCA(c, ca)
		return c.GetSignatureValid(), err
	}
	if ok, err := try("12"); !ok || err != nil {
		t.Fatal("right authority refused", err)
	}
	if ok, err := try("123"); ok || err == nil {
		t.Fatal("certificate of authority 12 accepted under authority 123")
	}
''')),
dict(id="C13-brainpool384-hash",property="C13",pkg="internal/security",
 needs="an issuer key on brainpoolP384r1",
 breaks="certificates issued by a brainpoolP384r1 key are hashed with SHA-256, so that genuine ones are refused",
 edits=[(S+"ecc_verify.go",'''	case oid.Equal(asn1.ObjectIdentifier{1, 3, 36, 3, 3, 2, 8, 1, 1, 11}):
		return 384,''','''	case oid.Equal(asn1.ObjectIdentifier{1, 3, 36, 3, 3, 2, 8, 1, 1, 11}):
		return 256,'''),(S+"ecc_verify.go",'''		case "1.3.36.3.3.2.8.1.1.11":
			return 384,''','''		case "1.3.36.3.3.2.8.1.1.11":
			return 256,''')],
 demo=t("security",['"crypto/ecdsa"','"crypto/rand"','"crypto/sha512"','"encoding/asn1"','"github.com/keybase/go-crypto/brainpool"','securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"'],'''
	key, err := ecdsa.GenerateKey(brainpool.P384r1(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	body, _ := asn1.Marshal(asn1.RawValue{Class: 1, Tag: 0x4E, IsCompound: true, Bytes: make([]byte, 210)})
	h := sha512.Sum384(body)
	r, s, err := ecdsa.Sign(rand.Reader, key, h[:])
	if err != nil {
		t.Fatal(err)
	}
	raw, _ := asn1.Marshal(asn1.RawValue{Class: 1, Tag: 0x21, IsCompound: true, Bytes: body})
	c, ca := &securityv1.EccCertificate{}, &securityv1.EccCertificate{}
	c.SetRawData(raw)
	sig := &securityv1.EccCertificate_EccSignature{}
	sig.SetR(r.Bytes())
	sig.SetS(s.Bytes())
	c.SetSignature(sig)
	pk := &securityv1.EccCertificate_PublicKey{}
	pk.SetDomainParametersOid("1.3.36.3.3.2.8.1.1.11")
	pk.SetPublicPointX(key.X.Bytes())
	pk.SetPublicPointY(key.Y.Bytes())
	ca.SetPublicKey(pk)
	if err := VerifyEccCertificateWithCA(c, ca); err != nil || !c.GetSignatureValid() {
		t.Fatal("genuine certificate refused: ", err)
	}
''')),
dict(id="C15-cancelled-context",property="C15",pkg="internal/cert",
 needs="a chain asked under a context that has ended, whose first resolver fails and whose second (offline) one has the certificate",
 breaks="the chain gives up after the first failure when the context has ended, although a later resolver has the certificate",
 edits=[("internal/cert/chain.go",'''		cert, err := resolver.GetEccCertificate(ctx, chr)
		if err == nil {
			return cert, nil
		}
''','''		cert, err := resolver.GetEccCertificate(ctx, chr)
		if err == nil {
			return cert, nil
		}
		if ctx.Err() != nil {
			return nil, fmt.Errorf("failed to get ECC certificate: %w", err)
		}
''')],
 demo='''package cert

import (
	"context"
	"errors"
	"testing"

	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
)

type stub struct{ c *securityv1.EccCertificate }

func (s stub) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	return nil, errors.New("none")
}

func (s stub) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("none")
}

func (s stub) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	if s.c == nil {
		return nil, errors.New("none")
	}
	return s.c, nil
}

func TestSeededDemo(t *testing.T) {
	want := &securityv1.EccCertificate{}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	got, err := NewChainResolver(stub{}, stub{want}).GetEccCertificate(ctx, "1")
	if err != nil || got != want {
		t.Fatal("certificate of the second resolver not returned: ", err)
	}
}
'''),
dict(id="C17-second-byte",property="C17",pkg=".",
 needs="a file whose first byte is not zero and whose second byte is 2",
 breaks="only the second leading byte is checked, so that a file with another leading tag is parsed as a card",
 edits=[("unmarshal.go","	case binary.BigEndian.Uint16(data[0:2]) == 0x0002:","	case byte(binary.BigEndian.Uint16(data[0:2])) == 0x02:")],
 demo=t("tachograph",[],'''
	if f, err := UnmarshalFile([]byte{0x05, 0x02, 0x00, 0x00, 0x00}); err == nil {
		t.Fatal("a file with leading tag 0502 was parsed as", f.GetType())
	}
''')),
dict(id="C21-trim-latin",property="C21",pkg="internal/dd",
 needs="a text that starts or ends with the letter y with diaeresis (byte FF in ISO 8859-1)",
 breaks="the letter is taken for padding and removed from the ends of texts",
 edits=[(D+"string_value.go",'''	cutset := "\\t\\n\\v\\f\\r \\x85\\xA0\\x00\\xFF"''','''	cutset := "\\t\\n\\v\\f\\r \\x85\\xA0\\x00\\xFF\\u00FF"''')],
 demo=t("dd",[],'''
	var o UnmarshalOptions
	x, err := o.UnmarshalStringValue([]byte{1, 'L', 'o', 'u', 0xFF, ' ', ' '})
	if err != nil || x.GetValue() != "Lou\\u00FF" {
		t.Fatalf("got %q %v", x.GetValue(), err)
	}
''')),
dict(id="C07-unrecognised-signed",property="C07",pkg="internal/dd",
 needs="an unrecognised authentication status of 128 or more",
 breaks="the kept code of an unrecognised status is sign-extended, so that it is not the original code",
 edits=[(D+"gnss_place_auth_record.go","		record.SetUnrecognizedAuthenticationStatus(int32(data[idxAuthStatus]))","		record.SetUnrecognizedAuthenticationStatus(int32(int8(data[idxAuthStatus])))")],
 demo=t("dd",[],'''
	var o UnmarshalOptions
	b := make([]byte, 12)
	b[11] = 0xE7
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	if err != nil || x.GetUnrecognizedAuthenticationStatus() != 0xE7 {
		t.Fatal(x.GetUnrecognizedAuthenticationStatus(), err)
	}
''')),
dict(id="C11-keep-own-region",property="C11",pkg="internal/dd",
 needs="a place record with an odometer below 100 km",
 breaks="the odometer of a place record below 100 km is kept instead of rounded down",
 edits=[(D+"place_record_g2.go",'''	roundedOdometer := (originalOdometer / 100) * 100
''','''	roundedOdometer := originalOdometer
	if originalOdometer >= 100 {
		roundedOdometer = (originalOdometer / 100) * 100
	}
''')],
 demo=t("dd",['ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"'],'''
	x := &ddv1.PlaceRecordG2{}
	x.SetVehicleOdometerKm(57)
	if got := AnonymizePlaceRecordG2(x).GetVehicleOdometerKm(); got != 0 {
		t.Fatal(got)
	}
''')),
dict(id="C16-g2-signature-size",property="C16",pkg="internal/card",
 needs="a second-generation card whose faults file has a signature of a size other than 128 bytes",
 breaks="the signature of the second-generation faults file is dropped unless it has the first generation's size",
 edits=[(C+"driver_card_file.go",'''			if signature != nil {
				faultsData.SetSignature(signature)
			}
''','''			if len(signature) == 128 || efGeneration == ddv1.Generation_GENERATION_1 && signature != nil {
				faultsData.SetSignature(signature)
			}
''')],
 demo=t("card",['"bytes"'],'''
	block := func(tag, ap byte, tag2 byte, v []byte) []byte {
		return append([]byte{tag, tag2, ap, byte(len(v) >> 8), byte(len(v))}, v...)
	}
	rec := make([]byte, 24*12*2)
	data := block(0x05, 2, 0x03, rec)
	sig := bytes.Repeat([]byte{9}, 64)
	data = append(data, block(0x05, 3, 0x03, sig)...)
	raw, err := UnmarshalRawCardFile(data)
	if err != nil {
		t.Fatal(err)
	}
	f, err := UnmarshalDriverCardFile(raw)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(f.GetTachographG2().GetFaultsData().GetSignature(), sig) {
		t.Fatal("signature lost")
	}
''')),
dict(id="C19-shared-canvas",property="C19",pkg="internal/card",
 needs="a decoded places file whose newest-record index is changed before encoding, encoded and looked at afterwards",
 breaks="encoding paints over the stored original bytes of the message instead of over a copy",
 edits=[(C+"places.go",'''		// Make a copy to use as canvas
		canvas := make([]byte, expectedSize)
		copy(canvas, rawData)

		// Paint newest record index over canvas (1 byte for Gen1)''','''		canvas := rawData[:expectedSize]

		// Paint newest record index over canvas (1 byte for Gen1)''')],
 demo=t("card",[],'''
	var o UnmarshalOptions
	in := make([]byte, 1+2*10)
	x, err := o.unmarshalPlaces(in)
	if err != nil {
		t.Fatal(err)
	}
	x.SetNewestRecordIndex(1)
	if _, err := appendPlaces(nil, x); err != nil {
		t.Fatal(err)
	}
	if x.GetRawData()[0] != 0 || in[0] != 0 {
		t.Fatal("encoding changed the message or the input")
	}
''')),
dict(id="C08-record-array-16bit",property="C08",pkg="internal/vu",
 needs="a detailed speed transfer of more than 1023 blocks",
 breaks="the size of the speed blocks is computed in 16 bits and wraps",
 edits=[(V+"detailed_speed.go","	offset += int(noOfSpeedBlocks) * vuDetailedSpeedBlockSize","	offset += int(noOfSpeedBlocks * vuDetailedSpeedBlockSize)")],
 demo=t("vu",[],'''
	b := make([]byte, 2+2+1024*64+128)
	b[0], b[1], b[2], b[3] = 0x76, 0x04, 0x04, 0x00
	f, err := UnmarshalVehicleUnitFile(b)
	if err != nil || f == nil {
		t.Fatal("well-formed detailed speed refused:", err)
	}
''')),
dict(id="C14-ca-half-key",property="C14",pkg=".",
 needs="a resolver that serves a CA certificate with a modulus but without an exponent",
 breaks="the CA certificate is not verified under the root when only its exponent is missing",
 edits=[(C+"driver_card_file.go","		if len(caCert.GetRsaModulus()) == 0 || len(caCert.GetRsaExponent()) == 0 {","		if len(caCert.GetRsaModulus()) == 0 && len(caCert.GetRsaExponent()) == 0 {")],
 demo="""package tachograph

import (
	"context"
	"errors"
	"testing"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

type resolver struct {
	ca   *securityv1.RsaCertificate
	root int
}

func (r *resolver) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	r.root++
	return nil, errors.New("none")
}

func (r *resolver) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return r.ca, nil
}

func (r *resolver) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return nil, errors.New("none")
}

func TestSeededDemo(t *testing.T) {
	r := &resolver{ca: &securityv1.RsaCertificate{}}
	r.ca.SetRsaModulus(make([]byte, 128))
	crt := &securityv1.RsaCertificate{}
	crt.SetCertificateAuthorityReference("1")
	crt.SetRawData(make([]byte, 194))
	cc := &cardv1.CardCertificate{}
	cc.SetRsaCertificate(crt)
	g1 := &cardv1.DriverCardFile_Tachograph{}
	g1.SetCardCertificate(cc)
	d := &cardv1.DriverCardFile{}
	d.SetTachograph(g1)
	f := &tachographv1.File{}
	f.SetType(tachographv1.File_DRIVER_CARD)
	f.SetDriverCard(d)
	if err := (VerifyOptions{CertificateResolver: r}).VerifyFile(context.Background(), f); err == nil {
		t.Fatal("verified")
	}
	if r.root != 1 {
		t.Fatal("the CA certificate was not verified under the root")
	}
}
"""),
dict(id="C14-g2-without-sign",property="C14",pkg="internal/card",
 needs="a card of both generations whose second generation lacks the sign certificate",
 breaks="a second generation without a sign certificate is skipped instead of refused when the first one verified",
 edits=[(C+"driver_card_file.go","	if tachographG2 := file.GetTachographG2(); tachographG2 != nil {\n		if err := o.verifyGen2","	if tachographG2 := file.GetTachographG2(); tachographG2 != nil && (tachographG2.HasCardSignCertificate() || file.GetTachograph() == nil) {\n		if err := o.verifyGen2")],
 demo=t("card",['"bytes"','"context"','"crypto/sha1"','cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"','securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"'],"""
	content := bytes.Repeat([]byte{7}, 164)
	h := sha1.Sum(content)
	sig := append([]byte{0x6A}, content[:106]...)
	sig = append(append(sig, h[:]...), 0xBC)
	raw := append(append(sig, content[106:]...), 0, 0, 0, 0, 0, 0, 0, 12)
	c, ca := &securityv1.RsaCertificate{}, &securityv1.RsaCertificate{}
	c.SetRawData(raw)
	ca.SetRsaModulus(bytes.Repeat([]byte{0xFF}, 128))
	ca.SetRsaExponent([]byte{1})
	ca.SetCertificateHolderReference("12")
	cc, cac := &cardv1.CardCertificate{}, &cardv1.CaCertificate{}
	cc.SetRsaCertificate(c)
	cac.SetRsaCertificate(ca)
	g1 := &cardv1.DriverCardFile_Tachograph{}
	g1.SetCardCertificate(cc)
	g1.SetCaCertificate(cac)
	f := &cardv1.DriverCardFile{}
	f.SetTachograph(g1)
	if err := (VerifyOptions{}).VerifyDriverCardFile(context.Background(), f); err != nil {
		t.Fatal("first generation refused: ", err)
	}
	f.SetTachographG2(&cardv1.DriverCardFile_TachographG2{})
	if err := (VerifyOptions{}).VerifyDriverCardFile(context.Background(), f); err == nil {
		t.Fatal("verified without a second-generation certificate")
	}
""")),
dict(id="C18-g2-certificate-length",property="C18",pkg="internal/card",
 needs="a second-generation certificate of 256 bytes or more",
 breaks="the length of a second-generation certificate block is cut to its low byte",
 edits=[(C+"driver_card_file.go","""	dst = append(dst, 0x02) // appendix for Gen2 data
	dst = binary.BigEndian.AppendUint16(dst, uint16(len(certData)))""","""	dst = append(dst, 0x02) // appendix for Gen2 data
	dst = append(dst, 0x00, byte(len(certData)))""")],
 demo=t("card",['"bytes"','cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"'],"""
	got, err := appendCertificateEFG2(nil, cardv1.ElementaryFileType_EF_CARD_SIGN_CERTIFICATE, bytes.Repeat([]byte{7}, 300))
	if err != nil || len(got) != 305 || got[3] != 1 || got[4] != 44 {
		t.Fatalf("% x %v", got[:5], err)
	}
""")),
dict(id="C10-first-record-length",property="C10",pkg="internal/card",
 needs="an activity buffer with a daily record whose length is 1 to 3",
 breaks="records shorter than their header are accepted instead of refused",
 edits=[(C+"activity.go","	if currentRecordLength < 4 {","	if currentRecordLength < 0 {")],
 demo=t("card",[],"""
	it := NewCyclicRecordIterator([]byte{0, 0, 0, 3, 9, 9, 9, 9}, 0)
	if it.Next() || it.Err() == nil {
		t.Fatal("a record shorter than its header was accepted")
	}
""")),
dict(id="C03-conditions-tail",property="C06",pkg="internal/card",
 needs="a decoded specific conditions file, a record of which is changed, and whose last record is unused",
 breaks="records after the first unused one are not encoded any more: a change there is lost",
 edits=[(C+"specific_conditions.go","""			copy(canvas[offset:offset+recordSize], recordBytes)
			offset += recordSize
		}
""","""			if canvas[offset+4] == 0 && offset > 0 {
				break // unused records follow
			}
			copy(canvas[offset:offset+recordSize], recordBytes)
			offset += recordSize
		}
""")],
 demo=t("card",[],"""
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(make([]byte, 15))
	if err != nil {
		t.Fatal(err)
	}
	y, err := o.unmarshalSpecificConditions([]byte{0, 0, 0, 0, 0, 1, 2, 3, 4, 1, 0, 0, 0, 0, 0})
	if err != nil {
		t.Fatal(err)
	}
	x.GetRecords()[1].SetEntryTime(y.GetRecords()[1].GetEntryTime())
	got, err := appendCardSpecificConditions(nil, x)
	if err != nil || got[5] != 1 || got[8] != 4 {
		t.Fatalf("% x %v", got, err)
	}
""")),
dict(id="C05-geo-boundary",property="C05",pkg="internal/dd",
 needs="a coordinate of the most negative 24-bit value",
 breaks="the most negative coordinate is read as a positive one",
 edits=[(D+"geo_coordinates.go","	if val&0x800000 != 0 {","	if val > 0x800000 {")],
 demo=t("dd",[],"""
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates([]byte{0x80, 0, 0, 0, 0, 1})
	if err != nil || x.GetLatitude() != -8388608 {
		t.Fatal(x, err)
	}
""")),
dict(id="C09-trailing-bytes",property="C09",pkg="internal/vu",
 needs="an activities value of second generation version 2 with bytes after its last record array",
 breaks="bytes after the last record array are accepted",
 edits=[(V+"activities_gen2_v2.go","	if offset != len(value) {","	if offset > len(value) {")],
 demo=t("vu",[],"""
	v := make([]byte, 10*5+3)
	if _, err := unmarshalActivitiesGen2V2(v[:10*5]); err != nil {
		t.Fatal(err)
	}
	if _, err := unmarshalActivitiesGen2V2(v); err == nil {
		t.Fatal("trailing bytes accepted")
	}
""")),
dict(id="C11-driver-name-second",property="C11",pkg="internal/card",
 needs="@@",breaks="@@",edits=[],demo=""),
]
seeds=[x for x in seeds if "@@" not in x["breaks"]]

C="internal/card/"; D="internal/dd/"; V="internal/vu/"; S="internal/security/"
def t(pkg,imports,body):
    return "package "+pkg+"\n\nimport (\n\t\"testing\"\n"+"".join("\t"+i+"\n" for i in imports)+")\n\nfunc TestSeededDemo(t *testing.T) {\n"+body+"}\n"
P='"github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/'
card='cardv1 '+P+'card/v1"'; ddv='ddv1 '+P+'dd/v1"'; sec='securityv1 '+P+'security/v1"'
seeds=[
dict(id="C01-size-16bit",property="C01",pkg="internal/card",
 needs="a card file record that claims a length of 65531 or more",
 breaks="the size of a record is added up in 16 bits and wraps, so that a record of less than its header is handed on and reading it panics",
 edits=[(C+"rawcardfile.go","	totalSize := 5 + int(length)\n","	totalSize := int(5 + length)\n")],
 demo=t("card",[],'''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic: ", r)
		}
	}()
	if _, err := UnmarshalRawCardFile(append([]byte{0, 2, 0, 0xFF, 0xFC}, make([]byte, 40)...)); err == nil {
		t.Fatal("a record longer than the file was accepted")
	}
''')),
dict(id="C03-record-limit",property="C03",pkg="internal/card",
 needs="a second-generation vehicles-used file of more than 200 records",
 breaks="records beyond the two hundredth are not decoded and missing from the encoding",
 edits=[(C+"vehicles_used_g2.go","	for r.Len() >= lenCardVehicleRecord {","	for r.Len() >= lenCardVehicleRecord && len(records) < 200 {")],
 demo=t("card",['"bytes"'],'''
	b := make([]byte, 2+48*205)
	for i := 2; i < len(b); i += 48 {
		b[i+14], b[i+15] = 1, 1
		for k := 31; k < 48; k++ {
			b[i+k] = ' '
		}
	}
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	if err != nil {
		t.Fatal(err)
	}
	out, err := appendVehiclesUsedG2(nil, x)
	if err != nil || !bytes.Equal(out, b) {
		t.Fatal("205 records encode to ", len(out), " bytes instead of ", len(b), err)
	}
''')),
dict(id="C04-month-zero",property="C04",pkg="internal/dd",
 needs="a month/year item whose month is zero and whose year is not",
 breaks="such an item is taken for empty, and encoding it writes zeros over its year",
 edits=[(D+"month_year.go","if err == nil && monthYearInt > 0 {","if err == nil && monthYearInt > 99 {")],
 demo=t("dd",['"bytes"'],'''
	var o UnmarshalOptions
	for _, b := range [][]byte{{0x00, 0x00}, {0x00, 0x25}, {0x12, 0x25}} {
		x, err := o.UnmarshalMonthYear(b)
		if err != nil {
			t.Fatal(err)
		}
		out, err := AppendMonthYear(nil, x)
		if err != nil || !bytes.Equal(out, b) {
			t.Fatalf("% x encodes to % x, %v", b, out, err)
		}
	}
''')),
dict(id="C07-high-country-codes",property="C07",pkg="internal/dd",
 needs="a second-generation place whose country code is unrecognised and 240 or more",
 breaks="such a country code is not written back",
 edits=[(D+"place_record_g2.go","	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {","	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED && rec.GetUnrecognizedDailyWorkPeriodCountry() < 0xF0 {")],
 demo=t("dd",['"bytes"'],'''
	var o UnmarshalOptions
	for c := 0; c < 256; c++ {
		b := make([]byte, 21)
		b[5] = byte(c)
		x, err := o.UnmarshalPlaceRecordG2(b)
		if err != nil {
			continue
		}
		out, err := AppendPlaceRecordG2(nil, x)
		if err != nil || !bytes.Equal(out, b) {
			t.Fatalf("country %d: % x, %v", c, out, err)
		}
	}
''')),
dict(id="C14-embedded-fallback",property="C14",pkg="internal/card",
 needs="a resolver that does not have the first-generation authority certificate, and a card that carries one itself",
 breaks="a failed look-up falls back to the authority certificate the card brings along, so that a forged card is taken for genuine",
 edits=[(C+"driver_card_file.go",'''		caCert, err = o.CertificateResolver.GetRsaCertificate(ctx, car)
		if err != nil {
''','''		caCert, err = o.CertificateResolver.GetRsaCertificate(ctx, car)
		if err != nil {
			caCert = tachograph.GetCaCertificate().GetRsaCertificate()
		}
		if caCert == nil {
''')],
 demo=t("card",['"bytes"','"context"','"crypto/sha1"','"errors"',card,sec],'''
	content := bytes.Repeat([]byte{7}, 164)
	h := sha1.Sum(content)
	sig := append([]byte{0x6A}, content[:106]...)
	sig = append(append(sig, h[:]...), 0xBC)
	raw := append(append(sig, content[106:]...), 0, 0, 0, 0, 0, 0, 0, 12)
	c, ca := &securityv1.RsaCertificate{}, &securityv1.RsaCertificate{}
	c.SetRawData(raw)
	ca.SetRsaModulus(bytes.Repeat([]byte{0xFF}, 128))
	ca.SetRsaExponent([]byte{1})
	ca.SetCertificateHolderReference("12")
	cc, cac := &cardv1.CardCertificate{}, &cardv1.CaCertificate{}
	cc.SetRsaCertificate(c)
	cac.SetRsaCertificate(ca)
	g1 := &cardv1.DriverCardFile_Tachograph{}
	g1.SetCardCertificate(cc)
	g1.SetCaCertificate(cac)
	f := &cardv1.DriverCardFile{}
	f.SetTachograph(g1)
	if err := (VerifyOptions{CertificateResolver: stub{ca}}).VerifyDriverCardFile(context.Background(), f); err != nil {
		t.Fatal("genuine card refused: ", err)
	}
	if err := (VerifyOptions{CertificateResolver: stub{}}).VerifyDriverCardFile(context.Background(), f); err == nil {
		t.Fatal("verified with the authority certificate the card brought along")
	}
}

type stub struct{ c *securityv1.RsaCertificate }

func (s stub) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	return nil, errors.New("none")
}

func (s stub) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	if s.c == nil {
		return nil, errors.New("none")
	}
	return s.c, nil
}

func (s stub) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return nil, errors.New("none")
''')),
dict(id="C18-empty-file-signature",property="C18",pkg="internal/card",
 needs="a second-generation file without contents (such as no specific conditions at all) that has a signature",
 breaks="the signature of such a file is missing from the encoding",
 edits=[(C+"driver_card_file.go","""	// Add signature block (FID + appendix 0x03) if the file has a signature
	return appendSignature(dst, tag, 0x03, msg)""","""	// Add signature block (FID + appendix 0x03) if the file has a signature
	if valLen == 0 {
		return dst, nil
	}
	return appendSignature(dst, tag, 0x03, msg)""")],
 demo=""),
dict(id="C22-rebuild-lengths",property="C22",pkg="internal/card",
 needs="daily activities without their stored buffer, of at least three days of different lengths",
 breaks="every day but the first names the length of the first day as its predecessor's, so that the chain of days breaks when the encoding is decoded",
 edits=[(C+"activity.go","			prevRecordLength = recordSizes[i-1]","			prevRecordLength = recordSizes[0]")],
 demo=t("card",[card,ddv],'''
	a := &cardv1.DriverActivityData{}
	var days []*cardv1.DriverActivityData_DailyRecord
	pos := 0
	for i, n := range []int{1, 2, 1} {
		d := &cardv1.DriverActivityData_DailyRecord{}
		d.SetValid(true)
		c := &ddv1.BcdString{}
		c.SetLength(2)
		c.SetValue(int32(i))
		d.SetActivityDailyPresenceCounter(c)
		var cs []*ddv1.ActivityChangeInfo
		for k := 0; k < n; k++ {
			x := &ddv1.ActivityChangeInfo{}
			x.SetTimeOfChangeMinutes(int32(60 * k))
			x.SetActivity(ddv1.DriverActivityValue_DRIVING)
			x.SetSlot(ddv1.CardSlotNumber_DRIVER_SLOT)
			cs = append(cs, x)
		}
		d.SetActivityChangeInfo(cs)
		days = append(days, d)
		if i < 2 {
			pos += 12 + 2*n
		}
	}
	a.SetDailyRecords(days)
	a.SetNewestDayRecordIndex(int32(pos))
	out, err := appendDriverActivity(nil, a)
	if err != nil {
		t.Fatal(err)
	}
	var o UnmarshalOptions
	b, err := o.unmarshalDriverActivityData(out)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(b.GetDailyRecords()); n != 3 {
		t.Fatal("decoded ", n, " of 3 days")
	}
	for i, n := range []int{1, 2, 1} {
		if l := len(b.GetDailyRecords()[i].GetActivityChangeInfo()); l != n {
			t.Fatal("day ", i, " has ", l, " changes instead of ", n)
		}
	}
''')),
dict(id="C22-locks-canvas",property="C22",pkg="internal/vu",
 needs="a first-generation overview without its stored bytes that has a download period but no entry of a download",
 breaks="",edits=[],demo=""),
]
seeds=[s for s in seeds if s["edits"] and s["demo"]]

C="internal/card/"; D="internal/dd/"; V="internal/vu/"; S="internal/security/"; R="internal/cert/"
def t(pkg,imports,body):
    return "package "+pkg+"\n\nimport (\n\t\"testing\"\n"+"".join("\t"+i+"\n" for i in imports)+")\n\nfunc TestSeededDemo(t *testing.T) {\n"+body+"}\n"
P='"github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/'
card='cardv1 '+P+'card/v1"'; ddv='ddv1 '+P+'dd/v1"'; sec='securityv1 '+P+'security/v1"'
seeds=[
dict(id="C23-control-type",property="C23",pkg="internal/card",
 needs="a control record used on a card, from which the control type is missing",
 breaks="nothing is written in place of a missing control type, so the record is a byte short and all its fields shift",
 edits=[(C+"control_activity.go","	} else {\n		data = append(data, 0x00)\n	}\n\n	// Control time","	}\n\n	// Control time")],
 demo=t("card",[],'''
	b := make([]byte, 46)
	b[0], b[4], b[5], b[6], b[23], b[24] = 0x80, 1, 3, 1, 1, 1
	for i := 7; i < 23; i++ {
		b[i] = '1'
	}
	for i := 25; i < 38; i++ {
		b[i] = 'A'
	}
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	if err != nil {
		t.Fatal(err)
	}
	x.SetControlType(nil)
	out, err := appendCardControlActivityData(nil, x)
	if err == nil && len(out) != 46 {
		t.Fatal("control record of ", len(out), " bytes")
	}
''')),
dict(id="C23-auth-record",property="C23",pkg="internal/dd",
 needs="a second-generation version 2 place or border crossing whose authenticated position is missing",
 breaks="the place of a missing authenticated position is filled with the eleven bytes of a plain one",
 edits=[(D+"gnss_place_auth_record.go","make([]byte, 12)","make([]byte, 11)")],
 demo=t("dd",[],'''
	out, err := AppendGNSSPlaceAuthRecord(nil, nil)
	if err == nil && len(out) != 12 {
		t.Fatal("missing authenticated position takes ", len(out), " bytes")
	}
''')),
dict(id="C24-recovered-cache",property="C24",pkg="internal/security",
 needs="a certificate that was verified under its issuer, verified again under another key of the same reference",
 breaks="the message recovered from a signature is remembered by the signature alone, so a certificate accepted once is accepted under every later key",
 edits=[(S+"rsa_verify.go","	recovered := new(big.Int).Exp(sigInt, exponent, modulus)\n","""	recovered, known := recoveredMessages[string(signature)]
	if !known {
		recovered = new(big.Int).Exp(sigInt, exponent, modulus)
		recoveredMessages[string(signature)] = recovered
	}
"""),(S+"rsa_verify.go","// verifyRsaCertificate is the internal implementation","// recoveredMessages holds the messages recovered so far.\nvar recoveredMessages = map[string]*big.Int{}\n\n// verifyRsaCertificate is the internal implementation")],
 demo=t("security",['"crypto/sha1"','"bytes"'],'''
	content := make([]byte, 164)
	h := sha1.Sum(content)
	raw := append(append(append([]byte{0x6A}, content[:106]...), h[:]...), 0xBC)
	raw = append(append(raw, content[106:]...), make([]byte, 8)...)
	verify := func(modulus []byte) error {
		c, err := UnmarshalRsaCertificate(raw)
		if err != nil {
			t.Fatal(err)
		}
		ca := c.ProtoReflect().New().Interface().(interface {
			SetRsaModulus([]byte)
			SetRsaExponent([]byte)
			SetCertificateHolderReference(string)
		})
		ca.SetRsaModulus(modulus)
		ca.SetRsaExponent([]byte{1})
		ca.SetCertificateHolderReference("0")
		return VerifyRsaCertificateWithCA(c, ca.(*cert))
	}
	if err := verify(bytes.Repeat([]byte{0xFF}, 128)); err != nil {
		t.Fatal(err)
	}
	if err := verify(bytes.Repeat([]byte{0x11}, 128)); err == nil {
		t.Fatal("certificate accepted under a key that did not sign it")
	}
}

type cert = securityv1.RsaCertificate

func unused() {
''').replace('"bytes"\n','"bytes"\n\t'+sec+'\n')),
dict(id="C24-last-entry",property="C24",pkg="internal/cert",
 needs="a reference listed for both generations, asked for in one and then in the other through the same client",
 breaks="the client remembers the last entry it found by its reference alone and downloads the other generation's certificate",
 edits=[(R+"client.go","	httpClient *http.Client\n}","	httpClient *http.Client\n	last       *certcache.Entry\n}"),
  (R+"client.go","""	var entry *certcache.Entry
	for _, e := range index.G1 {
		if e.CHR == chr {""","""	entry := c.remembered(chr)
	for _, e := range index.G1 {
		if entry == nil && e.CHR == chr {
			c.last = &e"""),
  (R+"client.go","""	var entry *certcache.Entry
	for _, e := range index.G2 {
		if e.CHR == chr {""","""	entry := c.remembered(chr)
	for _, e := range index.G2 {
		if entry == nil && e.CHR == chr {
			c.last = &e"""),
  (R+"client.go","// GetRootCertificate retrieves","""// remembered returns the last entry found if it is the one asked for.
func (c *Client) remembered(chr string) *certcache.Entry {
	if c.last != nil && c.last.CHR == chr {
		return c.last
	}
	return nil
}

// GetRootCertificate retrieves"""),],
 demo=t("cert",['"context"','"net/http"','"errors"','"github.com/way-platform/tachograph-go/internal/cert/certcache"'],'''
	idx, err := certcache.LoadIndex()
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range idx.G1 {
		for _, f := range idx.G2 {
			if e.CHR != f.CHR || e.URL == f.URL {
				continue
			}
			tr := &rec{}
			c := NewClient(&http.Client{Transport: tr})
			_, _ = c.GetRsaCertificate(context.Background(), e.CHR)
			_, _ = c.GetEccCertificate(context.Background(), e.CHR)
			if len(tr.asked) != 2 || tr.asked[0] == tr.asked[1] {
				t.Fatal("both requests for ", e.CHR, " went to ", tr.asked)
			}
			return
		}
	}
}

type rec struct{ asked []string }

func (r *rec) RoundTrip(q *http.Request) (*http.Response, error) {
	r.asked = append(r.asked, q.URL.String())
	return nil, errors.New("unreachable")
}

func unused() {
''')),
dict(id="C24-embedded-shared",property="C24",pkg="internal/cert",
 needs="a certificate of the embedded source asked for again after the first answer was verified or changed",
 breaks="the embedded source hands out the same certificate message every time, so what one user does to it another one sees",
 edits=[(R+"embedded.go","""	data, ok := certcache.ReadG1(chr)
	if !ok {""","""	if cert, ok := decoded[chr]; ok {
		return cert, nil
	}
	data, ok := certcache.ReadG1(chr)
	if !ok {"""),
  (R+"embedded.go","	return security.UnmarshalRsaCertificate(data)\n","""	cert, err := security.UnmarshalRsaCertificate(data)
	if err != nil {
		return nil, err
	}
	decoded[chr] = cert
	return cert, nil
"""),(R+"embedded.go","// EmbeddedResolver resolves","// decoded holds the certificates decoded so far.\nvar decoded = map[string]*securityv1.RsaCertificate{}\n\n// EmbeddedResolver resolves")],
 demo=t("cert",['"context"'],'''
	r := NewEmbeddedResolver()
	a, err := r.GetRsaCertificate(context.Background(), "1316820541096591105")
	if err != nil {
		t.Fatal(err)
	}
	a.SetSignatureValid(true)
	a.SetRsaModulus([]byte{1})
	b, err := NewEmbeddedResolver().GetRsaCertificate(context.Background(), "1316820541096591105")
	if err != nil || b.GetSignatureValid() || len(b.GetRsaModulus()) > 0 {
		t.Fatal("a certificate nobody verified is marked valid ", err)
	}
''')),
dict(id="C17-first-files",property="C17",pkg="internal/card",
 needs="an image of a workshop, company or control card whose distinguishing file comes after sixteen others",
 breaks="only the first sixteen files of an image are looked at to tell what kind of card it is",
 edits=[(C+"infer.go","	for _, record := range records {\n","	for i, record := range records {\n		if i >= 16 {\n			break\n		}\n")],
 demo=t("card",[],'''
	b := append([]byte{0, 2, 0, 0, 25}, make([]byte, 25)...)
	for i := 0; i < 20; i++ {
		b = append(b, 5, 4, 0, 0, 0)
	}
	b = append(b, 5, 0x0A, 0, 0, 0)
	raw, err := UnmarshalRawCardFile(b)
	if err != nil {
		t.Fatal(err)
	}
	if k := InferFileType(raw); k.String() == "DRIVER_CARD" {
		t.Fatal("card with a calibration file taken for a driver card")
	}
''')),
dict(id="C10-one-year",property="C10",pkg="internal/card",
 needs="an activity buffer that holds more than 366 daily records",
 breaks="records beyond the first 366 are left out, although short days let a card hold up to 1148",
 edits=[(C+"activity.go","	for iterator.Next() {","	for len(records) < 366 && iterator.Next() {")],
 demo=t("card",[],'''
	const n = 400
	b := make([]byte, 4+12*n)
	for i := 0; i < n; i++ {
		r := b[4+12*i:]
		if i > 0 {
			r[1] = 12
		}
		r[3] = 12
	}
	p := 12 * (n - 1)
	b[2], b[3] = byte(p>>8), byte(p&0xFF)
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	if err != nil {
		t.Fatal(err)
	}
	if len(x.GetDailyRecords()) != n {
		t.Fatal(len(x.GetDailyRecords()), " of 400 daily records decoded")
	}
''')),
dict(id="C15-no-content",property="C15",pkg="internal/cert",
 needs="a server that answers a certificate request with a success status other than 200",
 breaks="partial and other non-200 answers are taken for the certificate",
 edits=[(R+"client.go","""	if httpResponse.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("failed to download certificate: %s", httpResponse.Status)
	}
	body, err := io.ReadAll(httpResponse.Body)
	if err != nil {
		return nil, err
	}
	return security.UnmarshalRsaCertificate(body)""","""	if httpResponse.StatusCode/100 != 2 {
		return nil, fmt.Errorf("failed to download certificate: %s", httpResponse.Status)
	}
	body, err := io.ReadAll(httpResponse.Body)
	if err != nil {
		return nil, err
	}
	return security.UnmarshalRsaCertificate(body)""")],
 demo=t("cert",['"context"','"net/http"','"io"','"bytes"','"github.com/way-platform/tachograph-go/internal/cert/certcache"'],'''
	idx, err := certcache.LoadIndex()
	if err != nil {
		t.Fatal(err)
	}
	c := NewClient(&http.Client{Transport: partial{}})
	if _, err := c.GetRsaCertificate(context.Background(), idx.G1[0].CHR); err == nil {
		t.Fatal("answer with status 206 accepted")
	}
}

type partial struct{}

func (partial) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 206, Status: "206", Body: io.NopCloser(bytes.NewReader(make([]byte, 194))), Request: q}, nil
}

func unused() {
''')),
]

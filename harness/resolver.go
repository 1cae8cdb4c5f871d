package tachograph

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// The HTTP client is replaced by its transport, and the text of an address stands for its parsed form.
func vm_net_http_NewRequestWithContext(ctx context.Context, method, address string, body io.Reader) (*http.Request, error) {
	r := &http.Request{Method: method, URL: &url.URL{Opaque: address}}
	return r.WithContext(ctx), nil
}

func vm___net_http_Client__Do(c *http.Client, req *http.Request) (*http.Response, error) {
	return c.Transport.RoundTrip(req)
}

type vNoNet struct{ n int }

func (t *vNoNet) RoundTrip(r *http.Request) (*http.Response, error) {
	t.n++
	return nil, errors.New("no network")
}

//v:bounds the root, the embedded references, a listed reference and any other of 8 bytes, without network
func vh_C15_default() {
	t := &vNoNet{}
	if vIsSym() { // the engine does not initialise net/http
		http.DefaultClient = &http.Client{}
	}
	http.DefaultClient.Transport = t
	r := DefaultCertificateResolver()
	ctx := context.Background()
	root, err := r.GetRootCertificate(ctx)
	vAssert(err == nil && root.GetKeyId() == "18250066869723594497", "C15 default resolver serves the embedded root")
	rsa, err := r.GetRsaCertificate(ctx, "1316820541096591105")
	vAssert(err == nil && rsa != nil, "C15 default resolver serves an embedded certificate")
	ecc, err := r.GetEccCertificate(ctx, "1316820541130145537")
	vAssert(err == nil && ecc.GetCertificateHolderReference() == "1316820541130145537", "C15 default resolver serves an embedded certificate")
	vAssert(t.n == 0, "C15 default resolver serves embedded certificates without network")
	listed := vPick("listed", 2)
	chr := []string{string(vBytes("chr", 8)), "234554709598273281"}[listed]
	rsa, err = r.GetRsaCertificate(ctx, chr)
	vAssert(err != nil && rsa == nil, "C15 default resolver fails where both sources fail")
	vAssert(t.n == listed, "C15 default resolver asks the remote source last")
	vReach("end")
}

// Without a resolver of its own the verification falls back to the default one.
//
//v:bounds driver cards of either generation or both, with certificates that are no valid ones, naming the embedded authorities, a listed one or an unknown one; through both entry points, without network
//v:bigstrip 1
func vh_C14_default() {
	t := &vNoNet{}
	if vIsSym() { // the engine does not initialise net/http
		http.DefaultClient = &http.Client{}
	}
	http.DefaultClient.Transport = t
	d := &cardv1.DriverCardFile{}
	k := vPick("generations", 4)
	listed := vPick("authority", 3)
	car := []string{"1316820541096591105", "234554709598273281", "12345"}[listed]
	rsa := &securityv1.RsaCertificate{}
	ecc := &securityv1.EccCertificate{}
	if k&1 != 0 {
		rsa.SetRawData(make([]byte, 194))
		rsa.SetCertificateAuthorityReference(car)
		rsa.SetSignatureValid(vBool("was valid"))
		app := &cardv1.DriverCardFile_Tachograph{}
		app.SetCardCertificate(&cardv1.CardCertificate{})
		app.GetCardCertificate().SetRsaCertificate(rsa)
		d.SetTachograph(app)
	}
	if k&2 != 0 {
		if listed == 0 {
			car = "1316820541130145537"
		}
		raw := vEccCert(&vCurves[0], []byte{1, 2, 3, 4, 5, 6, 7, 8}, []byte{1, 2, 3, 4, 5, 6, 7, 8}, true)
		ecc.SetRawData(raw)
		ecc.SetCertificateAuthorityReference(car)
		ecc.SetSignatureValid(vBool("ecc was valid"))
		app := &cardv1.DriverCardFile_TachographG2{}
		app.SetCardSignCertificate(&cardv1.CardSignCertificate{})
		app.GetCardSignCertificate().SetEccCertificate(ecc)
		d.SetTachographG2(app)
	}
	f := &tachographv1.File{}
	f.SetType(tachographv1.File_DRIVER_CARD)
	f.SetDriverCard(d)
	var err error
	if vPick("entry", 2) == 0 {
		err = VerifyFile(context.Background(), f)
	} else {
		err = VerifyOptions{}.VerifyFile(context.Background(), f)
	}
	vAssert((err == nil) == (k == 0), "C14 without a resolver a card certificate that is not valid is refused")
	if k == 1 {
		vAssert(t.n == 0 || listed != 0, "C14 without a resolver the embedded certificates are asked first")
		vAssert(t.n > 0 || listed != 1, "C14 without a resolver the remote source is asked last")
	}
	vReach("end")
}

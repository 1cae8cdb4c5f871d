package cert

import (
	"bytes"
	"context"
	"net/http"

	"github.com/way-platform/tachograph-go/internal/cert/certcache"
	"google.golang.org/protobuf/proto"
)

// Downloads one after the other through one client, or through another one.
//
//v:bounds two requests for any two of four references (two of each list), for one that is in both, for one that is in neither; first and second reply with status 200, 404 or none and any contents, the second of another content; one client or two
//v:budget 200
//v:cost 50
func vh_C24_remote() {
	idx, err := certcache.LoadIndex()
	vAssert(err == nil, "C24 index readable")
	type q struct {
		chr, url string
		g1       bool
	}
	qs := []q{
		{idx.G1[3].CHR, idx.G1[3].URL, true}, {idx.G1[100].CHR, idx.G1[100].URL, true},
		{idx.G2[3].CHR, idx.G2[3].URL, false}, {idx.G2[100].CHR, idx.G2[100].URL, false},
		{idx.Root.CHR, "", true}, {idx.Root.CHR, "", false},
	}
	// one that is in both lists
	for _, e := range idx.G1 {
		for _, f := range idx.G2 {
			if e.CHR == f.CHR && len(qs) == 6 {
				qs = append(qs, q{e.CHR, e.URL, true}, q{f.CHR, f.URL, false})
			}
		}
	}
	vAssert(len(qs) == 8 && qs[6].url != qs[7].url, "C24 index lists a reference for both generations")
	t := &vTransport{}
	c := NewClient(&http.Client{Transport: t})
	var kept, first proto.Message
	for round, id := range []string{"0", "1", "2"} {
		k := 0
		if round < 2 {
			k = vPick("request"+id, len(qs))
		}
		r := qs[k]
		var content []byte
		if r.g1 {
			content = vBytes("body"+id, 194)
		} else {
			content, _ = certcache.ReadG2("1316820541130145537")
			content = append([]byte{}, content...)
			content[20] = vU8("holder" + id)
		}
		t.asked = nil
		reply := 0
		if round < 2 {
			reply = vPick("reply"+id, 2+round)
		}
		t.status, t.fail = []int{200, 404, 0}[reply], reply == 2
		t.body = &vBody{r: bytes.NewReader(content)}
		if round == 1 && vPick("client", 2) == 1 {
			c = NewClient(&http.Client{Transport: t})
		}
		var got proto.Message
		var raw []byte
		if r.g1 {
			x, e := c.GetRsaCertificate(context.Background(), r.chr)
			got, raw, err = x, x.GetRawData(), e
		} else {
			x, e := c.GetEccCertificate(context.Background(), r.chr)
			got, raw, err = x, x.GetRawData(), e
		}
		if r.url == "" {
			vAssert(err != nil && len(t.asked) == 0, "C24 unknown reference refused")
		} else if vAssert(len(t.asked) == 1 && t.asked[0] == "GET "+r.url, "C24 the address of the reference is asked, whatever was asked before"); t.fail || t.status != 200 {
			vAssert(err != nil, "C24 failed download refused, whatever was downloaded before")
		} else {
			vAssert(err == nil && vEq(raw, content), "C24 downloaded certificate returned, whatever was asked before")
		}
		if kept != nil {
			vAssert(vSame(kept, first), "C24 certificate returned earlier stays as it was")
		}
		if err == nil && kept == nil {
			kept, first = got, proto.Clone(got)
		}
	}
	vReach("end")
}

//v:bounds the embedded certificates, asked for again after the first answer was marked valid and emptied, by one resolver or another, with any other reference of 8 bytes in between
func vh_C24_embedded() {
	ctx := context.Background()
	r := NewEmbeddedResolver()
	root, err := r.GetRootCertificate(ctx)
	vAssert(err == nil, "C24 embedded root served")
	rsa, err := r.GetRsaCertificate(ctx, "1316820541096591105")
	vAssert(err == nil, "C24 embedded certificate served")
	ecc, err := r.GetEccCertificate(ctx, "1316820541130145537")
	vAssert(err == nil, "C24 embedded certificate served")
	root1, rsa1, ecc1 := proto.Clone(root), proto.Clone(rsa), proto.Clone(ecc)
	other := string(vBytes("chr", 8))
	_, err = r.GetRsaCertificate(ctx, other)
	vAssert(err != nil, "C24 unknown reference refused")
	_, err = r.GetEccCertificate(ctx, other)
	vAssert(err != nil, "C24 unknown reference refused")
	root.SetKeyId("")
	copy(root.GetRsaModulus(), make([]byte, 128))
	rsa.SetSignatureValid(true)
	rsa.SetCertificateHolderReference("1")
	copy(rsa.GetRawData(), make([]byte, 194))
	ecc.SetSignatureValid(true)
	ecc.SetPublicKey(nil)
	copy(ecc.GetRawData(), make([]byte, 20))
	if vPick("resolver", 2) == 1 {
		r = NewEmbeddedResolver()
	}
	root2, err := r.GetRootCertificate(ctx)
	vAssert(err == nil && vSame(root2, root1), "C24 embedded root served again as it is")
	rsa2, err := r.GetRsaCertificate(ctx, "1316820541096591105")
	vAssert(err == nil && vSame(rsa2, rsa1), "C24 embedded certificate served again as it is")
	ecc2, err := r.GetEccCertificate(ctx, "1316820541130145537")
	vAssert(err == nil && vSame(ecc2, ecc1), "C24 embedded certificate served again as it is")
	vReach("end")
}

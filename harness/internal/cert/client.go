package cert

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/way-platform/tachograph-go/internal/cert/certcache"
)

// --- remote certificates ---

// The HTTP client is replaced by its transport, and the text of an address stands for its parsed form.
func vm_net_http_NewRequestWithContext(ctx context.Context, method, address string, body io.Reader) (*http.Request, error) {
	r := &http.Request{Method: method, URL: &url.URL{Opaque: address}}
	return r.WithContext(ctx), nil
}

func vm___net_http_Client__Do(c *http.Client, req *http.Request) (*http.Response, error) {
	return c.Transport.RoundTrip(req)
}

type vTransport struct {
	asked  []string
	ctx    []context.Context
	status int
	fail   bool
	body   io.ReadCloser
}

func (t *vTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	u := r.URL.Opaque
	if u == "" {
		u = r.URL.String()
	}
	t.asked = append(t.asked, r.Method+" "+u)
	t.ctx = append(t.ctx, r.Context())
	if t.fail {
		return nil, errors.New("unreachable")
	}
	return &http.Response{StatusCode: t.status, Body: t.body, Header: http.Header{}, Request: r}, nil
}

type vBody struct {
	r      io.Reader
	fail   bool
	closed bool
}

func (b *vBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		return n, errors.New("connection lost")
	}
	return n, err
}

func (b *vBody) Close() error { b.closed = true; return nil }

//v:bounds five references of each list of the index, these with any byte exchanged, what the index lists in other columns, and any other of up to 16 bytes; transports that fail, reply with any status from 200 to 599 except redirections, with a certificate of the right or another size, complete or with the connection lost
func vh_C15_remote() {
	idx, err := certcache.LoadIndex()
	vAssert(err == nil, "C15 index readable")
	g1 := vPick("generation", 2) == 0
	list := idx.G2
	if g1 {
		list = idx.G1
	}
	vAssert(len(list) > 200, "C15 index has entries")
	var chr, address string
	if known := vPick("known", 2) == 1; known {
		k := vPick("entry", 5) * (len(list) - 1) / 4
		chr = list[k].CHR
		for i := len(list) - 1; i >= 0; i-- {
			if list[i].CHR == chr {
				address = list[i].URL
			}
		}
	} else {
		other := vPick("unknown", 3)
		if other == 2 { // a value the index lists for something else
			k := vPick("entry", 5) * (len(list) - 1) / 4
			chr = []string{list[k].CAR, list[k].Country, list[k].URL, idx.Root.CHR, idx.G1[0].CHR, idx.G2[0].CHR}[vPick("column", 6)]
		} else if other == 0 {
			chr = string(vBytes("chr", 16)[:vPick("length", 17)])
		} else { // a listed reference with one byte exchanged
			b := []byte(list[vPick("entry", 5)*(len(list)-1)/4].CHR)
			b[vPick("at", 19)%len(b)] = vU8("exchanged")
			chr = string(b)
		}
		for i := range list {
			vAssume(list[i].CHR != chr)
		}
	}
	size := []int{194, 193, 0}[vPick("size", 3)]
	content := vBytes("body", 194)[:size]
	if !g1 {
		content, _ = certcache.ReadG2("1316820541130145537")
		content = append([]byte{}, content[:[]int{len(content), 203, 0}[vPick("size", 3)]]...)
		if len(content) > 203 && vPick("long", 2) == 1 {
			content = vEccLong(vU8("holder"))
		}
		size = len(content)
	}
	body := &vBody{r: bytes.NewReader(content), fail: vBool("lost")}
	t := &vTransport{status: int(vU16("status")), fail: vBool("unreachable"), body: body}
	vAssume(t.status >= 200 && t.status < 600 && (t.status < 300 || t.status >= 400))
	ctx := &vCtx{Context: context.Background(), tag: 1}
	c := NewClient(&http.Client{Transport: t})
	var raw []byte
	if g1 {
		crt, e := c.GetRsaCertificate(ctx, chr)
		vAssert((crt != nil) == (e == nil), "C15 certificate or error")
		raw, err = crt.GetRawData(), e
	} else {
		crt, e := c.GetEccCertificate(ctx, chr)
		vAssert((crt != nil) == (e == nil), "C15 certificate or error")
		raw, err = crt.GetRawData(), e
	}
	if address == "" {
		vAssert(err != nil, "C15 unknown reference refused")
		vAssert(len(t.asked) == 0, "C15 nothing asked for an unknown reference")
		vReach("unknown")
		return
	}
	vAssert(len(t.asked) == 1 && t.asked[0] == "GET "+address, "C15 the address of the reference is asked")
	vAssert(t.ctx[0] == context.Context(ctx), "C15 passes the context on")
	good := !t.fail && t.status == 200 && !body.fail
	if !good || size == 0 || size == 193 || size == 203 {
		vAssert(err != nil, "C15 failed download refused")
		vReach("failed")
		return
	}
	vAssert(err == nil && vEq(raw, content), "C15 downloaded certificate returned")
	vReach("served")
}

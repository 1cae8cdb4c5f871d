package cert

import (
	"context"
	"errors"
	"io"
	"io/fs"

	"github.com/way-platform/tachograph-go/internal/cert/certcache"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
)

// vStub is a resolver that records what it is asked and answers as told.
type vStub struct {
	ok, both bool // answers with success; gives a certificate along with an error
	root     *securityv1.RootCertificate
	rsa      *securityv1.RsaCertificate
	ecc      *securityv1.EccCertificate
	err      error
	log      *[]int
	id       int
	asked    []string
	ctx      []context.Context
}

func (s *vStub) note(ctx context.Context, kind, chr string) {
	*s.log = append(*s.log, s.id)
	s.asked = append(s.asked, kind+chr)
	s.ctx = append(s.ctx, ctx)
}

func (s *vStub) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	s.note(ctx, "root ", "")
	if s.ok {
		return s.root, nil
	}
	if s.both {
		return s.root, s.err
	}
	return nil, s.err
}

func (s *vStub) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	s.note(ctx, "rsa ", chr)
	if s.ok {
		return s.rsa, nil
	}
	if s.both {
		return s.rsa, s.err
	}
	return nil, s.err
}

func (s *vStub) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	s.note(ctx, "ecc ", chr)
	if s.ok {
		return s.ecc, nil
	}
	if s.both {
		return s.ecc, s.err
	}
	return nil, s.err
}

// vCtx is a context told apart from all others, which may have ended.
type vCtx struct {
	context.Context
	tag  int
	err  error
	done chan struct{}
}

func (c *vCtx) Err() error            { return c.err }
func (c *vCtx) Done() <-chan struct{} { return c.done }

// vEnded is a context that has ended, or has not.
func vEnded() *vCtx {
	c := &vCtx{context.Background(), 1, nil, make(chan struct{})}
	if k := vPick("context", 3); k > 0 {
		c.err = []error{context.Canceled, context.DeadlineExceeded}[k-1]
		close(c.done)
	}
	return c
}

// vFailure is an error of one of several kinds.
func vFailure(name string) error {
	return []error{errors.New("unavailable"), context.Canceled, context.DeadlineExceeded, io.EOF, fs.ErrNotExist}[vRange(name, 0, 4)]
}

//v:bounds chains of up to 4 resolvers, each succeeding or failing (with or without a certificate besides the error), every kind of certificate, any reference of 8 bytes and an empty one, errors of five kinds, contexts that go on and that have ended
//v:thorough:bounds chains of up to 7 resolvers, each succeeding or failing (with or without a certificate besides the error), every kind of certificate, any reference of 8 bytes and an empty one, errors of five kinds, contexts that go on and that have ended
func vh_C15_chain() {
	n := vRange("resolvers", 0, 4+3*vTier())
	var log []int
	var stubs []*vStub
	var rs []Resolver
	for i := 0; i < n; i++ {
		s := &vStub{id: i, log: &log, root: &securityv1.RootCertificate{}, rsa: &securityv1.RsaCertificate{}, ecc: &securityv1.EccCertificate{}, err: vFailure("failure" + string(rune('0'+i)))}
		switch {
		case vBool("succeeds" + string(rune('0'+i))):
			s.ok = true
		case vBool("certificate with error" + string(rune('0'+i))):
			s.both = true
		}
		stubs = append(stubs, s)
		rs = append(rs, s)
	}
	first := n
	for i := n - 1; i >= 0; i-- {
		if stubs[i].ok {
			first = i
		}
	}
	ctx := vEnded()
	chr := string(vBytes("chr", 8)[:8*vPick("reference", 2)])
	chain := NewChainResolver(rs...)
	var want string
	for round := 0; round < 2; round++ { // an earlier question has no influence
		log = nil
		var err error
		switch vPick("kind", 3) {
		case 0:
			var c *securityv1.RootCertificate
			c, err = chain.GetRootCertificate(ctx)
			want = "root "
			vAssert((c != nil) == (err == nil), "C15 certificate or error")
			vAssert(first == n || c == stubs[first].root, "C15 the first success is returned")
		case 1:
			var c *securityv1.RsaCertificate
			c, err = chain.GetRsaCertificate(ctx, chr)
			want = "rsa " + chr
			vAssert((c != nil) == (err == nil), "C15 certificate or error")
			vAssert(first == n || c == stubs[first].rsa, "C15 the first success is returned")
		case 2:
			var c *securityv1.EccCertificate
			c, err = chain.GetEccCertificate(ctx, chr)
			want = "ecc " + chr
			vAssert((c != nil) == (err == nil), "C15 certificate or error")
			vAssert(first == n || c == stubs[first].ecc, "C15 the first success is returned")
		}
		vAssert((err != nil) == (first == n), "C15 fails exactly if every resolver failed")
		asked := first + 1
		if first == n {
			asked = n
		}
		vAssert(len(log) == asked, "C15 asks no resolver after the first success")
		for i := range log {
			vAssert(log[i] == i, "C15 asks in order")
			vAssert(len(stubs[i].asked) == round+1, "C15 asks each resolver once")
			vAssert(stubs[i].asked[round] == want, "C15 asks for the same certificate")
			vAssert(stubs[i].ctx[round] == context.Context(ctx), "C15 passes the context on")
		}
	}
	vReach("end")
}

// --- embedded certificates ---

//v:bounds any reference of up to 20 bytes besides the embedded ones; each embedded certificate
func vh_C15_embedded() {
	r := NewEmbeddedResolver()
	ctx := context.Background()
	root, err := r.GetRootCertificate(ctx)
	vAssert(err == nil, "C15 embedded root served")
	b := certcache.Root()
	vAssert(root.GetKeyId() == "18250066869723594497", "C15 embedded root served")
	vAssert(vEq(root.GetRsaModulus(), b[8:136]) && vEq(root.GetRsaExponent(), b[136:144]), "C15 embedded root served")
	g1 := []string{"1316820541096591105"}
	g2 := []string{"1316820541130145537"}
	chr := string(vBytes("chr", 20)[:vPick("length", 21)])
	if vPick("known", 2) == 1 {
		chr = append(g1, g2...)[vPick("which", 2)]
	}
	rsa, err := r.GetRsaCertificate(ctx, chr)
	vAssert((rsa != nil) == (err == nil), "C15 certificate or error")
	vAssert((err == nil) == (chr == g1[0]), "C15 embedded certificate served exactly for its reference")
	ecc, err2 := r.GetEccCertificate(ctx, chr)
	vAssert((ecc != nil) == (err2 == nil), "C15 certificate or error")
	vAssert((err2 == nil) == (chr == g2[0]), "C15 embedded certificate served exactly for its reference")
	if err == nil {
		vReach("rsa")
	}
	if err2 == nil {
		vAssert(ecc.GetCertificateHolderReference() == chr, "C15 served certificate is the holder's")
		vReach("ecc")
	}
	vReach("end")
}

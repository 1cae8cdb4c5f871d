package card

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	"google.golang.org/protobuf/proto"
)

// EF_Identification is encoded in two parts.
func vIdentification(dst []byte, x *cardv1.Identification) ([]byte, error) {
	dst, err := appendCardIdentification(dst, x.GetCard())
	if err != nil {
		return nil, err
	}
	return appendDriverCardHolderIdentification(dst, x.GetDriverCardHolder())
}

//v:bounds all 143 bytes symbolic; values the data dictionary defines
//v:exacttext 16
func vh_C03_Identification() {
	b := vBytes("b", 143)
	vAssume(dIdentification(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(err == nil, "Identification accepted")
	out, err := vIdentification(nil, x)
	vAssert(err == nil, "Identification encodes")
	vAssert(len(out) == len(b), "Identification encodes to its size")
	vAssert(vEq(out, b), "Identification round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 143 bytes symbolic
func vh_C05_EF_Identification() {
	b := vBytes("b", 143)
	ok := dIdentification(b)
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(!ok || err == nil, "Identification accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refIdentification(x, b)
	vReach("end")
}

//v:bounds all 143 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
//v:exacttext 16
func vh_C19_EF_Identification() {
	b := vBytes("b", 143)
	vAssume(dIdentification(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(vEq(b, keep), "Identification decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := vIdentification(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "Identification encoding leaves the message alone")
	vAssert(vEq(b, keep), "Identification encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := vIdentification(buf, x)
	vAssert(err == nil, "Identification encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "Identification appends its encoding to the buffer")
	out2, err := vIdentification(nil, x)
	vAssert(err == nil && vEq(out2, out), "Identification encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (10 fields)
//v:exacttext 16
func vh_C06_EF_Identification() { editIdentification(false) }

//v:bounds encoding after a change; all bytes symbolic, original and new values symbolic; one field changed at a time (10 fields)
//v:exacttext 16
func vh_C19_EF_Identification_edited() { editIdentification(true) }

func editIdentification(inputs bool) {
	b := vBytes("b", 143)
	c := vBytes("new", 143)
	vAssume(dIdentification(b))
	vAssume(dIdentification(c))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalIdentification(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 10)
	switch f {
	case 0:
		x.GetCard().SetCardIssuingMemberState(y.GetCard().GetCardIssuingMemberState())
		lo, hi = 0, 1
	case 1:
		x.GetCard().SetDriverIdentification(y.GetCard().GetDriverIdentification())
		lo, hi = 1, 17
	case 2:
		x.GetCard().SetCardIssuingAuthorityName(y.GetCard().GetCardIssuingAuthorityName())
		lo, hi = 17, 53
	case 3:
		x.GetCard().SetCardIssueDate(y.GetCard().GetCardIssueDate())
		lo, hi = 53, 57
	case 4:
		x.GetCard().SetCardValidityBegin(y.GetCard().GetCardValidityBegin())
		lo, hi = 57, 61
	case 5:
		x.GetCard().SetCardExpiryDate(y.GetCard().GetCardExpiryDate())
		lo, hi = 61, 65
	case 6:
		x.GetDriverCardHolder().SetCardHolderSurname(y.GetDriverCardHolder().GetCardHolderSurname())
		lo, hi = 65, 101
	case 7:
		x.GetDriverCardHolder().SetCardHolderFirstNames(y.GetDriverCardHolder().GetCardHolderFirstNames())
		lo, hi = 101, 137
	case 8:
		x.GetDriverCardHolder().SetCardHolderBirthDate(y.GetDriverCardHolder().GetCardHolderBirthDate())
		lo, hi = 137, 141
	case 9:
		x.GetDriverCardHolder().SetCardHolderPreferredLanguage(y.GetDriverCardHolder().GetCardHolderPreferredLanguage())
		lo, hi = 141, 143
	}
	before, keep := proto.Clone(x), vCopy(b)
	out, err := vIdentification(nil, x)
	vAssert(err == nil, "Identification encodes after a field change")
	if inputs {
		vAssert(vSame(x, before) && vEq(b, keep), "Identification encoding after a field change leaves the message and the input alone")
		vReach("end", uint64(f))
		return
	}
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "Identification field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "Identification field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds every byte symbolic except texts, one of four each; values the data dictionary defines
func vh_C22_Identification() {
	b := vBytes("b", 143)
	v := vPick("text", 4)
	vIa5In(b[1:15], v)
	b[15], b[16] = byte("0Z19"[v]), byte("A0 2"[v])
	vTextIn(b[17:53], v)
	vTextIn(b[65:101], (v+1)%4)
	vTextIn(b[101:137], (v+2)%4)
	vIa5In(b[141:143], (v+3)%4)
	vAssume(dIdentification(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(err == nil, "Identification accepted")
	x = vStrip(x).(*cardv1.Identification)
	out, err := vIdentification(nil, x)
	vAssert(err == nil, "Identification without stored bytes encodes")
	vAssert(len(out) == len(b), "Identification without stored bytes encodes to its size")
	y, err := o.unmarshalIdentification(out)
	vAssert(err == nil, "Identification without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Identification without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]))
}

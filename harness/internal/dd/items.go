package dd

// Written by tools/gendd.py: one harness per data dictionary item and property.

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
)

var _ ddv1.Generation

//v:bounds all 2 bytes symbolic; values the data dictionary defines
func vh_C04_ActivityChangeInfo() {
	b := vBytes("b", 2)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(b)
	vAssert(err == nil, "ActivityChangeInfo accepted")
	out, err := AppendActivityChangeInfo(nil, x)
	vAssert(err == nil, "ActivityChangeInfo encodes")
	vAssert(len(out) == 2, "ActivityChangeInfo encodes to its size")
	vAssert(vEq(out, b), "ActivityChangeInfo round trip")
	vReach("end", uint64(out[0]), uint64(out[1]))
}

//v:bounds every length up to 12 bytes except 2
func vh_C04_ActivityChangeInfo_size() {
	b := vSym("b", 12)
	vAssume(len(b) != 2)
	var o UnmarshalOptions
	_, err := o.UnmarshalActivityChangeInfo(b)
	vAssert(err != nil, "ActivityChangeInfo refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 2 bytes symbolic; values the data dictionary defines
func vh_C22_ActivityChangeInfo() {
	b := vBytes("b", 2)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(b)
	vAssert(err == nil, "ActivityChangeInfo accepted")
	x = vStrip(x).(*ddv1.ActivityChangeInfo)
	out, err := AppendActivityChangeInfo(nil, x)
	vAssert(err == nil, "ActivityChangeInfo without stored bytes encodes")
	vAssert(len(out) == 2, "ActivityChangeInfo without stored bytes encodes to its size")
	y, err := o.UnmarshalActivityChangeInfo(out)
	vAssert(err == nil, "ActivityChangeInfo without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "ActivityChangeInfo without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[1]))
}

//v:bounds all 2 bytes symbolic
func vh_C05_ActivityChangeInfo() {
	b := vBytes("b", 2)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(b)
	if true {
		vAssert(err == nil, "ActivityChangeInfo accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refActivity(x, b)
	vReach("end")
}

//v:bounds all 2 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_ActivityChangeInfo() {
	b := vBytes("b", 2)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(b)
	vAssert(vEq(b, keep), "ActivityChangeInfo decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendActivityChangeInfo(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "ActivityChangeInfo encoding leaves the message alone")
	vAssert(vEq(b, keep), "ActivityChangeInfo encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+9)
	buf = append(buf, p[:n]...)
	res, err := AppendActivityChangeInfo(buf, x)
	vAssert(err == nil, "ActivityChangeInfo encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "ActivityChangeInfo appends its encoding to the buffer")
	out2, err := AppendActivityChangeInfo(nil, x)
	vAssert(err == nil && vEq(out2, out), "ActivityChangeInfo encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 2 bytes symbolic; values the data dictionary defines
func vh_C04_CardStructureVersion() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	vAssert(err == nil, "CardStructureVersion accepted")
	out, err := AppendCardStructureVersion(nil, x)
	vAssert(err == nil, "CardStructureVersion encodes")
	vAssert(len(out) == 2, "CardStructureVersion encodes to its size")
	vAssert(vEq(out, b), "CardStructureVersion round trip")
	vReach("end", uint64(out[0]), uint64(out[1]))
}

//v:bounds every length up to 12 bytes except 2
func vh_C04_CardStructureVersion_size() {
	b := vSym("b", 12)
	vAssume(len(b) != 2)
	var o UnmarshalOptions
	_, err := o.UnmarshalCardStructureVersion(b)
	vAssert(err != nil, "CardStructureVersion refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 2 bytes symbolic; values the data dictionary defines
func vh_C22_CardStructureVersion() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	vAssert(err == nil, "CardStructureVersion accepted")
	x = vStrip(x).(*ddv1.CardStructureVersion)
	out, err := AppendCardStructureVersion(nil, x)
	vAssert(err == nil, "CardStructureVersion without stored bytes encodes")
	vAssert(len(out) == 2, "CardStructureVersion without stored bytes encodes to its size")
	y, err := o.UnmarshalCardStructureVersion(out)
	vAssert(err == nil, "CardStructureVersion without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "CardStructureVersion without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[1]))
}

//v:bounds all 2 bytes symbolic
func vh_C05_CardStructureVersion() {
	b := vBytes("b", 2)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	if dBCD(b) {
		vAssert(err == nil, "CardStructureVersion accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refCSV(x, b)
	vReach("end")
}

//v:bounds all 2 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_CardStructureVersion() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	vAssert(vEq(b, keep), "CardStructureVersion decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendCardStructureVersion(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "CardStructureVersion encoding leaves the message alone")
	vAssert(vEq(b, keep), "CardStructureVersion encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+9)
	buf = append(buf, p[:n]...)
	res, err := AppendCardStructureVersion(buf, x)
	vAssert(err == nil, "CardStructureVersion encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "CardStructureVersion appends its encoding to the buffer")
	out2, err := AppendCardStructureVersion(nil, x)
	vAssert(err == nil && vEq(out2, out), "CardStructureVersion encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 2 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_CardStructureVersion() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	a := b
	b = vBytes("new", 2)
	vAssume(dBCD(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalCardStructureVersion(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetMajor(y.GetMajor())
		lo, hi = 0, 1
	case 1:
		x.SetMinor(y.GetMinor())
		lo, hi = 1, 2
	}
	out, err := AppendCardStructureVersion(nil, x)
	vAssert(err == nil, "CardStructureVersion encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 2 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "CardStructureVersion field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "CardStructureVersion field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 2 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_CardStructureVersion_edited() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	a := b
	b = vBytes("new", 2)
	vAssume(dBCD(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalCardStructureVersion(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetMajor(y.GetMajor())
	case 1:
		x.SetMinor(y.GetMinor())
	}
	before := proto.Clone(x)
	out, err := AppendCardStructureVersion(nil, x)
	vAssert(err == nil, "CardStructureVersion encodes after a field change")
	vAssert(vSame(x, before), "CardStructureVersion encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "CardStructureVersion encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+9), p...)
	res, err := AppendCardStructureVersion(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "CardStructureVersion appends its encoding after a field change to the buffer")
	out, err = AppendCardStructureVersion(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "CardStructureVersion encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 31 bytes symbolic; values the data dictionary defines
func vh_C04_CardVehicleRecord() {
	b := vBytes("b", 31)
	vAssume(dCardVehicle(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	vAssert(err == nil, "CardVehicleRecord accepted")
	out, err := AppendCardVehicleRecord(nil, x)
	vAssert(err == nil, "CardVehicleRecord encodes")
	vAssert(len(out) == 31, "CardVehicleRecord encodes to its size")
	vAssert(vEq(out, b), "CardVehicleRecord round trip")
	vReach("end", uint64(out[0]), uint64(out[30]))
}

//v:bounds every length up to 70 bytes except 31
func vh_C04_CardVehicleRecord_size() {
	b := vSym("b", 70)
	vAssume(len(b) != 31)
	var o UnmarshalOptions
	_, err := o.UnmarshalCardVehicleRecord(b)
	vAssert(err != nil, "CardVehicleRecord refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 31 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_CardVehicleRecord() {
	b := vBytes("b", 31)
	v := vPick("text", 4)
	vTextIn(b[15:29], v)
	vAssume(dCardVehicle(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	vAssert(err == nil, "CardVehicleRecord accepted")
	x = vStrip(x).(*ddv1.CardVehicleRecord)
	out, err := AppendCardVehicleRecord(nil, x)
	vAssert(err == nil, "CardVehicleRecord without stored bytes encodes")
	vAssert(len(out) == 31, "CardVehicleRecord without stored bytes encodes to its size")
	y, err := o.UnmarshalCardVehicleRecord(out)
	vAssert(err == nil, "CardVehicleRecord without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "CardVehicleRecord without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[30]))
}

//v:bounds all 31 bytes symbolic
func vh_C05_CardVehicleRecord() {
	b := vBytes("b", 31)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	if dCardVehicle(b) {
		vAssert(err == nil, "CardVehicleRecord accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refCardVehicle(x, b)
	vReach("end")
}

//v:bounds all 31 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_CardVehicleRecord() {
	b := vBytes("b", 31)
	vAssume(dCardVehicle(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	vAssert(vEq(b, keep), "CardVehicleRecord decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendCardVehicleRecord(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "CardVehicleRecord encoding leaves the message alone")
	vAssert(vEq(b, keep), "CardVehicleRecord encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+38)
	buf = append(buf, p[:n]...)
	res, err := AppendCardVehicleRecord(buf, x)
	vAssert(err == nil, "CardVehicleRecord encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "CardVehicleRecord appends its encoding to the buffer")
	out2, err := AppendCardVehicleRecord(nil, x)
	vAssert(err == nil && vEq(out2, out), "CardVehicleRecord encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 31 bytes symbolic, in both the original and the new value; one field changed at a time (8 fields)
func vh_C06_CardVehicleRecord() {
	b := vBytes("b", 31)
	vAssume(dCardVehicle(b))
	a := b
	b = vBytes("new", 31)
	vAssume(dCardVehicle(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalCardVehicleRecord(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 8)
	switch f {
	case 0:
		x.SetVehicleOdometerBeginKm(y.GetVehicleOdometerBeginKm())
		lo, hi = 0, 3
	case 1:
		x.SetVehicleOdometerEndKm(y.GetVehicleOdometerEndKm())
		lo, hi = 3, 6
	case 2:
		x.SetVehicleFirstUse(y.GetVehicleFirstUse())
		lo, hi = 6, 10
	case 3:
		x.SetVehicleLastUse(y.GetVehicleLastUse())
		lo, hi = 10, 14
	case 4:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
		lo, hi = 14, 29
	case 5:
		x.SetVuDataBlockCounter(y.GetVuDataBlockCounter())
		lo, hi = 29, 31
	case 6:
		x.GetVehicleRegistration().SetNation(y.GetVehicleRegistration().GetNation())
		lo, hi = 14, 15
	case 7:
		x.GetVehicleRegistration().SetNumber(y.GetVehicleRegistration().GetNumber())
		lo, hi = 15, 29
	}
	out, err := AppendCardVehicleRecord(nil, x)
	vAssert(err == nil, "CardVehicleRecord encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 31 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "CardVehicleRecord field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "CardVehicleRecord field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 31 bytes symbolic, in both the original and the new value; encoding after one field is changed (8 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_CardVehicleRecord_edited() {
	b := vBytes("b", 31)
	vAssume(dCardVehicle(b))
	a := b
	b = vBytes("new", 31)
	vAssume(dCardVehicle(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalCardVehicleRecord(c)
	if err != nil {
		return
	}
	f := vPick("field", 8)
	switch f {
	case 0:
		x.SetVehicleOdometerBeginKm(y.GetVehicleOdometerBeginKm())
	case 1:
		x.SetVehicleOdometerEndKm(y.GetVehicleOdometerEndKm())
	case 2:
		x.SetVehicleFirstUse(y.GetVehicleFirstUse())
	case 3:
		x.SetVehicleLastUse(y.GetVehicleLastUse())
	case 4:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
	case 5:
		x.SetVuDataBlockCounter(y.GetVuDataBlockCounter())
	case 6:
		x.GetVehicleRegistration().SetNation(y.GetVehicleRegistration().GetNation())
	case 7:
		x.GetVehicleRegistration().SetNumber(y.GetVehicleRegistration().GetNumber())
	}
	before := proto.Clone(x)
	out, err := AppendCardVehicleRecord(nil, x)
	vAssert(err == nil, "CardVehicleRecord encodes after a field change")
	vAssert(vSame(x, before), "CardVehicleRecord encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "CardVehicleRecord encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+38), p...)
	res, err := AppendCardVehicleRecord(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "CardVehicleRecord appends its encoding after a field change to the buffer")
	out, err = AppendCardVehicleRecord(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "CardVehicleRecord encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 48 bytes symbolic; values the data dictionary defines
func vh_C04_CardVehicleRecordG2() {
	b := vBytes("b", 48)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err == nil, "CardVehicleRecordG2 accepted")
	out, err := AppendCardVehicleRecordG2(nil, x)
	vAssert(err == nil, "CardVehicleRecordG2 encodes")
	vAssert(len(out) == 48, "CardVehicleRecordG2 encodes to its size")
	vAssert(vEq(out, b), "CardVehicleRecordG2 round trip")
	vReach("end", uint64(out[0]), uint64(out[47]))
}

//v:bounds every length up to 104 bytes except 48
func vh_C04_CardVehicleRecordG2_size() {
	b := vSym("b", 104)
	vAssume(len(b) != 48)
	var o UnmarshalOptions
	_, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err != nil, "CardVehicleRecordG2 refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 48 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_CardVehicleRecordG2() {
	b := vBytes("b", 48)
	v := vPick("text", 4)
	vTextIn(b[15:29], v)
	vIa5In(b[31:48], (v+1)%4)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err == nil, "CardVehicleRecordG2 accepted")
	x = vStrip(x).(*ddv1.CardVehicleRecordG2)
	out, err := AppendCardVehicleRecordG2(nil, x)
	vAssert(err == nil, "CardVehicleRecordG2 without stored bytes encodes")
	vAssert(len(out) == 48, "CardVehicleRecordG2 without stored bytes encodes to its size")
	y, err := o.UnmarshalCardVehicleRecordG2(out)
	vAssert(err == nil, "CardVehicleRecordG2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "CardVehicleRecordG2 without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[47]))
}

//v:bounds all 48 bytes symbolic
func vh_C05_CardVehicleRecordG2() {
	b := vBytes("b", 48)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	if dCardVehicle(b) && dVIN(b[31:48]) {
		vAssert(err == nil, "CardVehicleRecordG2 accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refCardVehicleG2(x, b)
	vReach("end")
}

//v:bounds all 48 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_CardVehicleRecordG2() {
	b := vBytes("b", 48)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(vEq(b, keep), "CardVehicleRecordG2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendCardVehicleRecordG2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "CardVehicleRecordG2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "CardVehicleRecordG2 encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+55)
	buf = append(buf, p[:n]...)
	res, err := AppendCardVehicleRecordG2(buf, x)
	vAssert(err == nil, "CardVehicleRecordG2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "CardVehicleRecordG2 appends its encoding to the buffer")
	out2, err := AppendCardVehicleRecordG2(nil, x)
	vAssert(err == nil && vEq(out2, out), "CardVehicleRecordG2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 48 bytes symbolic, in both the original and the new value; one field changed at a time (6 fields)
func vh_C06_CardVehicleRecordG2() {
	b := vBytes("b", 48)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	a := b
	b = vBytes("new", 48)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalCardVehicleRecordG2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 6)
	switch f {
	case 0:
		x.SetVehicleOdometerBeginKm(y.GetVehicleOdometerBeginKm())
		lo, hi = 0, 3
	case 1:
		x.SetVehicleOdometerEndKm(y.GetVehicleOdometerEndKm())
		lo, hi = 3, 6
	case 2:
		x.SetVehicleFirstUse(y.GetVehicleFirstUse())
		lo, hi = 6, 10
	case 3:
		x.SetVehicleLastUse(y.GetVehicleLastUse())
		lo, hi = 10, 14
	case 4:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
		lo, hi = 14, 29
	case 5:
		x.SetVuDataBlockCounter(y.GetVuDataBlockCounter())
		lo, hi = 29, 31
	}
	out, err := AppendCardVehicleRecordG2(nil, x)
	vAssert(err == nil, "CardVehicleRecordG2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 48 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "CardVehicleRecordG2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "CardVehicleRecordG2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 48 bytes symbolic, in both the original and the new value; encoding after one field is changed (6 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_CardVehicleRecordG2_edited() {
	b := vBytes("b", 48)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	a := b
	b = vBytes("new", 48)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalCardVehicleRecordG2(c)
	if err != nil {
		return
	}
	f := vPick("field", 6)
	switch f {
	case 0:
		x.SetVehicleOdometerBeginKm(y.GetVehicleOdometerBeginKm())
	case 1:
		x.SetVehicleOdometerEndKm(y.GetVehicleOdometerEndKm())
	case 2:
		x.SetVehicleFirstUse(y.GetVehicleFirstUse())
	case 3:
		x.SetVehicleLastUse(y.GetVehicleLastUse())
	case 4:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
	case 5:
		x.SetVuDataBlockCounter(y.GetVuDataBlockCounter())
	}
	before := proto.Clone(x)
	out, err := AppendCardVehicleRecordG2(nil, x)
	vAssert(err == nil, "CardVehicleRecordG2 encodes after a field change")
	vAssert(vSame(x, before), "CardVehicleRecordG2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "CardVehicleRecordG2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+55), p...)
	res, err := AppendCardVehicleRecordG2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "CardVehicleRecordG2 appends its encoding after a field change to the buffer")
	out, err = AppendCardVehicleRecordG2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "CardVehicleRecordG2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 4 bytes symbolic; values the data dictionary defines
func vh_C04_Date() {
	b := vBytes("b", 4)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalDate(b)
	vAssert(err == nil, "Date accepted")
	out, err := AppendDate(nil, x)
	vAssert(err == nil, "Date encodes")
	vAssert(len(out) == 4, "Date encodes to its size")
	vAssert(vEq(out, b), "Date round trip")
	vReach("end", uint64(out[0]), uint64(out[3]))
}

//v:bounds every length up to 16 bytes except 4
func vh_C04_Date_size() {
	b := vSym("b", 16)
	vAssume(len(b) != 4)
	var o UnmarshalOptions
	_, err := o.UnmarshalDate(b)
	vAssert(err != nil, "Date refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 4 bytes symbolic; values the data dictionary defines
func vh_C22_Date() {
	b := vBytes("b", 4)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalDate(b)
	vAssert(err == nil, "Date accepted")
	x = vStrip(x).(*ddv1.Date)
	out, err := AppendDate(nil, x)
	vAssert(err == nil, "Date without stored bytes encodes")
	vAssert(len(out) == 4, "Date without stored bytes encodes to its size")
	y, err := o.UnmarshalDate(out)
	vAssert(err == nil, "Date without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Date without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[3]))
}

//v:bounds all 4 bytes symbolic
func vh_C05_Date() {
	b := vBytes("b", 4)
	var o UnmarshalOptions
	x, err := o.UnmarshalDate(b)
	if dBCD(b) {
		vAssert(err == nil, "Date accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refDate(x, b)
	vReach("end")
}

//v:bounds all 4 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_Date() {
	b := vBytes("b", 4)
	vAssume(dBCD(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalDate(b)
	vAssert(vEq(b, keep), "Date decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendDate(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "Date encoding leaves the message alone")
	vAssert(vEq(b, keep), "Date encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+11)
	buf = append(buf, p[:n]...)
	res, err := AppendDate(buf, x)
	vAssert(err == nil, "Date encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "Date appends its encoding to the buffer")
	out2, err := AppendDate(nil, x)
	vAssert(err == nil && vEq(out2, out), "Date encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 4 bytes symbolic, in both the original and the new value; one field changed at a time (3 fields)
func vh_C06_Date() {
	b := vBytes("b", 4)
	vAssume(dBCD(b))
	a := b
	b = vBytes("new", 4)
	vAssume(dBCD(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalDate(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalDate(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetYear(y.GetYear())
		lo, hi = 0, 2
	case 1:
		x.SetMonth(y.GetMonth())
		lo, hi = 2, 3
	case 2:
		x.SetDay(y.GetDay())
		lo, hi = 3, 4
	}
	out, err := AppendDate(nil, x)
	vAssert(err == nil, "Date encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 4 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "Date field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "Date field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 4 bytes symbolic, in both the original and the new value; encoding after one field is changed (3 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_Date_edited() {
	b := vBytes("b", 4)
	vAssume(dBCD(b))
	a := b
	b = vBytes("new", 4)
	vAssume(dBCD(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalDate(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalDate(c)
	if err != nil {
		return
	}
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetYear(y.GetYear())
	case 1:
		x.SetMonth(y.GetMonth())
	case 2:
		x.SetDay(y.GetDay())
	}
	before := proto.Clone(x)
	out, err := AppendDate(nil, x)
	vAssert(err == nil, "Date encodes after a field change")
	vAssert(vSame(x, before), "Date encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "Date encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+11), p...)
	res, err := AppendDate(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "Date appends its encoding after a field change to the buffer")
	out, err = AppendDate(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "Date encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 2 bytes symbolic; values the data dictionary defines
func vh_C04_MonthYear() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalMonthYear(b)
	vAssert(err == nil, "MonthYear accepted")
	out, err := AppendMonthYear(nil, x)
	vAssert(err == nil, "MonthYear encodes")
	vAssert(len(out) == 2, "MonthYear encodes to its size")
	vAssert(vEq(out, b), "MonthYear round trip")
	vReach("end", uint64(out[0]), uint64(out[1]))
}

//v:bounds every length up to 12 bytes except 2
func vh_C04_MonthYear_size() {
	b := vSym("b", 12)
	vAssume(len(b) != 2)
	var o UnmarshalOptions
	_, err := o.UnmarshalMonthYear(b)
	vAssert(err != nil, "MonthYear refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 2 bytes symbolic; values the data dictionary defines
func vh_C22_MonthYear() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalMonthYear(b)
	vAssert(err == nil, "MonthYear accepted")
	x = vStrip(x).(*ddv1.MonthYear)
	out, err := AppendMonthYear(nil, x)
	vAssert(err == nil, "MonthYear without stored bytes encodes")
	vAssert(len(out) == 2, "MonthYear without stored bytes encodes to its size")
	y, err := o.UnmarshalMonthYear(out)
	vAssert(err == nil, "MonthYear without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "MonthYear without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[1]))
}

//v:bounds all 2 bytes symbolic
func vh_C05_MonthYear() {
	b := vBytes("b", 2)
	var o UnmarshalOptions
	x, err := o.UnmarshalMonthYear(b)
	if dBCD(b) {
		vAssert(err == nil, "MonthYear accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refMonthYear(x, b)
	vReach("end")
}

//v:bounds all 2 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_MonthYear() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalMonthYear(b)
	vAssert(vEq(b, keep), "MonthYear decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendMonthYear(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "MonthYear encoding leaves the message alone")
	vAssert(vEq(b, keep), "MonthYear encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+9)
	buf = append(buf, p[:n]...)
	res, err := AppendMonthYear(buf, x)
	vAssert(err == nil, "MonthYear encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "MonthYear appends its encoding to the buffer")
	out2, err := AppendMonthYear(nil, x)
	vAssert(err == nil && vEq(out2, out), "MonthYear encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 1 bytes symbolic; values the data dictionary defines
func vh_C04_ControlType() {
	b := vBytes("b", 1)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalControlType(b)
	vAssert(err == nil, "ControlType accepted")
	out, err := AppendControlType(nil, x)
	vAssert(err == nil, "ControlType encodes")
	vAssert(len(out) == 1, "ControlType encodes to its size")
	vAssert(vEq(out, b), "ControlType round trip")
	vReach("end", uint64(out[0]), uint64(out[0]))
}

//v:bounds every length up to 10 bytes except 1
func vh_C04_ControlType_size() {
	b := vSym("b", 10)
	vAssume(len(b) != 1)
	var o UnmarshalOptions
	_, err := o.UnmarshalControlType(b)
	vAssert(err != nil, "ControlType refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 1 bytes symbolic; values the data dictionary defines
func vh_C22_ControlType() {
	b := vBytes("b", 1)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalControlType(b)
	vAssert(err == nil, "ControlType accepted")
	x = vStrip(x).(*ddv1.ControlType)
	out, err := AppendControlType(nil, x)
	vAssert(err == nil, "ControlType without stored bytes encodes")
	vAssert(len(out) == 1, "ControlType without stored bytes encodes to its size")
	y, err := o.UnmarshalControlType(out)
	vAssert(err == nil, "ControlType without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "ControlType without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[0]))
}

//v:bounds all 1 bytes symbolic
func vh_C05_ControlType() {
	b := vBytes("b", 1)
	var o UnmarshalOptions
	x, err := o.UnmarshalControlType(b)
	if true {
		vAssert(err == nil, "ControlType accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refControlType(x, b)
	vReach("end")
}

//v:bounds all 1 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_ControlType() {
	b := vBytes("b", 1)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalControlType(b)
	vAssert(vEq(b, keep), "ControlType decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendControlType(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "ControlType encoding leaves the message alone")
	vAssert(vEq(b, keep), "ControlType encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+8)
	buf = append(buf, p[:n]...)
	res, err := AppendControlType(buf, x)
	vAssert(err == nil, "ControlType encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "ControlType appends its encoding to the buffer")
	out2, err := AppendControlType(nil, x)
	vAssert(err == nil && vEq(out2, out), "ControlType encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 14 bytes symbolic; values the data dictionary defines
func vh_C04_DriverIdentification() {
	b := vBytes("b", 14)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	vAssert(err == nil, "DriverIdentification accepted")
	out, err := AppendDriverIdentification(nil, x)
	vAssert(err == nil, "DriverIdentification encodes")
	vAssert(len(out) == 14, "DriverIdentification encodes to its size")
	vAssert(vEq(out, b), "DriverIdentification round trip")
	vReach("end", uint64(out[0]), uint64(out[13]))
}

//v:bounds every length up to 36 bytes except 14
func vh_C04_DriverIdentification_size() {
	b := vSym("b", 36)
	vAssume(len(b) != 14)
	var o UnmarshalOptions
	_, err := o.UnmarshalDriverIdentification(b)
	vAssert(err != nil, "DriverIdentification refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 14 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_DriverIdentification() {
	b := vBytes("b", 14)
	v := vPick("text", 4)
	vIa5In(b[0:14], v)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	vAssert(err == nil, "DriverIdentification accepted")
	x = vStrip(x).(*ddv1.DriverIdentification)
	out, err := AppendDriverIdentification(nil, x)
	vAssert(err == nil, "DriverIdentification without stored bytes encodes")
	vAssert(len(out) == 14, "DriverIdentification without stored bytes encodes to its size")
	y, err := o.UnmarshalDriverIdentification(out)
	vAssert(err == nil, "DriverIdentification without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "DriverIdentification without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[13]))
}

//v:bounds all 14 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_DriverIdentification() {
	b := vBytes("b", 14)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	vAssert(vEq(b, keep), "DriverIdentification decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendDriverIdentification(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "DriverIdentification encoding leaves the message alone")
	vAssert(vEq(b, keep), "DriverIdentification encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+21)
	buf = append(buf, p[:n]...)
	res, err := AppendDriverIdentification(buf, x)
	vAssert(err == nil, "DriverIdentification encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "DriverIdentification appends its encoding to the buffer")
	out2, err := AppendDriverIdentification(nil, x)
	vAssert(err == nil && vEq(out2, out), "DriverIdentification encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 14 bytes symbolic, in both the original and the new value; one field changed at a time (1 fields)
func vh_C06_DriverIdentification() {
	b := vBytes("b", 14)
	vAssume(true)
	a := b
	b = vBytes("new", 14)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalDriverIdentification(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 1)
	switch f {
	case 0:
		x.SetDriverIdentificationNumber(y.GetDriverIdentificationNumber())
		lo, hi = 0, 14
	}
	out, err := AppendDriverIdentification(nil, x)
	vAssert(err == nil, "DriverIdentification encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 14 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "DriverIdentification field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "DriverIdentification field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 14 bytes symbolic, in both the original and the new value; encoding after one field is changed (1 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_DriverIdentification_edited() {
	b := vBytes("b", 14)
	vAssume(true)
	a := b
	b = vBytes("new", 14)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalDriverIdentification(c)
	if err != nil {
		return
	}
	f := vPick("field", 1)
	switch f {
	case 0:
		x.SetDriverIdentificationNumber(y.GetDriverIdentificationNumber())
	}
	before := proto.Clone(x)
	out, err := AppendDriverIdentification(nil, x)
	vAssert(err == nil, "DriverIdentification encodes after a field change")
	vAssert(vSame(x, before), "DriverIdentification encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "DriverIdentification encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+21), p...)
	res, err := AppendDriverIdentification(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "DriverIdentification appends its encoding after a field change to the buffer")
	out, err = AppendDriverIdentification(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "DriverIdentification encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 8 bytes symbolic; values the data dictionary defines
func vh_C04_ExtendedSerialNumber() {
	b := vBytes("b", 8)
	vAssume(dESN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	vAssert(err == nil, "ExtendedSerialNumber accepted")
	out, err := AppendExtendedSerialNumber(nil, x)
	vAssert(err == nil, "ExtendedSerialNumber encodes")
	vAssert(len(out) == 8, "ExtendedSerialNumber encodes to its size")
	vAssert(vEq(out, b), "ExtendedSerialNumber round trip")
	vReach("end", uint64(out[0]), uint64(out[7]))
}

//v:bounds every length up to 24 bytes except 8
func vh_C04_ExtendedSerialNumber_size() {
	b := vSym("b", 24)
	vAssume(len(b) != 8)
	var o UnmarshalOptions
	_, err := o.UnmarshalExtendedSerialNumber(b)
	vAssert(err != nil, "ExtendedSerialNumber refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 8 bytes symbolic; values the data dictionary defines
func vh_C22_ExtendedSerialNumber() {
	b := vBytes("b", 8)
	vAssume(dESN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	vAssert(err == nil, "ExtendedSerialNumber accepted")
	x = vStrip(x).(*ddv1.ExtendedSerialNumber)
	out, err := AppendExtendedSerialNumber(nil, x)
	vAssert(err == nil, "ExtendedSerialNumber without stored bytes encodes")
	vAssert(len(out) == 8, "ExtendedSerialNumber without stored bytes encodes to its size")
	y, err := o.UnmarshalExtendedSerialNumber(out)
	vAssert(err == nil, "ExtendedSerialNumber without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "ExtendedSerialNumber without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[7]))
}

//v:bounds all 8 bytes symbolic
func vh_C05_ExtendedSerialNumber() {
	b := vBytes("b", 8)
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	if dESN(b) {
		vAssert(err == nil, "ExtendedSerialNumber accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refESN(x, b)
	vReach("end")
}

//v:bounds all 8 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_ExtendedSerialNumber() {
	b := vBytes("b", 8)
	vAssume(dESN(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	vAssert(vEq(b, keep), "ExtendedSerialNumber decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendExtendedSerialNumber(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "ExtendedSerialNumber encoding leaves the message alone")
	vAssert(vEq(b, keep), "ExtendedSerialNumber encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+15)
	buf = append(buf, p[:n]...)
	res, err := AppendExtendedSerialNumber(buf, x)
	vAssert(err == nil, "ExtendedSerialNumber encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "ExtendedSerialNumber appends its encoding to the buffer")
	out2, err := AppendExtendedSerialNumber(nil, x)
	vAssert(err == nil && vEq(out2, out), "ExtendedSerialNumber encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 8 bytes symbolic, in both the original and the new value; one field changed at a time (4 fields)
func vh_C06_ExtendedSerialNumber() {
	b := vBytes("b", 8)
	vAssume(dESN(b))
	a := b
	b = vBytes("new", 8)
	vAssume(dESN(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalExtendedSerialNumber(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetSerialNumber(y.GetSerialNumber())
		lo, hi = 0, 4
	case 1:
		x.SetMonthYear(y.GetMonthYear())
		lo, hi = 4, 6
	case 2:
		x.SetType(y.GetType())
		lo, hi = 6, 7
	case 3:
		x.SetManufacturerCode(y.GetManufacturerCode())
		lo, hi = 7, 8
	}
	out, err := AppendExtendedSerialNumber(nil, x)
	vAssert(err == nil, "ExtendedSerialNumber encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 8 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "ExtendedSerialNumber field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "ExtendedSerialNumber field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 8 bytes symbolic, in both the original and the new value; encoding after one field is changed (4 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_ExtendedSerialNumber_edited() {
	b := vBytes("b", 8)
	vAssume(dESN(b))
	a := b
	b = vBytes("new", 8)
	vAssume(dESN(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalExtendedSerialNumber(c)
	if err != nil {
		return
	}
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetSerialNumber(y.GetSerialNumber())
	case 1:
		x.SetMonthYear(y.GetMonthYear())
	case 2:
		x.SetType(y.GetType())
	case 3:
		x.SetManufacturerCode(y.GetManufacturerCode())
	}
	before := proto.Clone(x)
	out, err := AppendExtendedSerialNumber(nil, x)
	vAssert(err == nil, "ExtendedSerialNumber encodes after a field change")
	vAssert(vSame(x, before), "ExtendedSerialNumber encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "ExtendedSerialNumber encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+15), p...)
	res, err := AppendExtendedSerialNumber(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "ExtendedSerialNumber appends its encoding after a field change to the buffer")
	out, err = AppendExtendedSerialNumber(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "ExtendedSerialNumber encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 18 bytes symbolic; values the data dictionary defines
func vh_C04_FullCardNumber() {
	b := vBytes("b", 18)
	vAssume(dFCN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	vAssert(err == nil, "FullCardNumber accepted")
	out, err := AppendFullCardNumber(nil, x)
	vAssert(err == nil, "FullCardNumber encodes")
	vAssert(len(out) == 18, "FullCardNumber encodes to its size")
	vAssert(vEq(out, b), "FullCardNumber round trip")
	vReach("end", uint64(out[0]), uint64(out[17]))
}

//v:bounds every length up to 44 bytes except 18
func vh_C04_FullCardNumber_size() {
	b := vSym("b", 44)
	vAssume(len(b) != 18)
	var o UnmarshalOptions
	_, err := o.UnmarshalFullCardNumber(b)
	vAssert(err != nil, "FullCardNumber refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 18 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_FullCardNumber() {
	b := vBytes("b", 18)
	v := vPick("text", 4)
	vIa5In(b[2:18], v)
	vAssume(dFCN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	vAssert(err == nil, "FullCardNumber accepted")
	x = vStrip(x).(*ddv1.FullCardNumber)
	out, err := AppendFullCardNumber(nil, x)
	vAssert(err == nil, "FullCardNumber without stored bytes encodes")
	vAssert(len(out) == 18, "FullCardNumber without stored bytes encodes to its size")
	y, err := o.UnmarshalFullCardNumber(out)
	vAssert(err == nil, "FullCardNumber without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "FullCardNumber without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[17]))
}

//v:bounds all 18 bytes symbolic
func vh_C05_FullCardNumber() {
	b := vBytes("b", 18)
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	if dFCN(b) {
		vAssert(err == nil, "FullCardNumber accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refFCN(x, b)
	vReach("end")
}

//v:bounds all 18 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_FullCardNumber() {
	b := vBytes("b", 18)
	vAssume(dFCN(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	vAssert(vEq(b, keep), "FullCardNumber decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendFullCardNumber(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "FullCardNumber encoding leaves the message alone")
	vAssert(vEq(b, keep), "FullCardNumber encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+25)
	buf = append(buf, p[:n]...)
	res, err := AppendFullCardNumber(buf, x)
	vAssert(err == nil, "FullCardNumber encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "FullCardNumber appends its encoding to the buffer")
	out2, err := AppendFullCardNumber(nil, x)
	vAssert(err == nil && vEq(out2, out), "FullCardNumber encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 18 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_FullCardNumber() {
	b := vBytes("b", 18)
	vAssume(dFCN(b))
	a := b
	b = vBytes("new", 18)
	vAssume(dFCN(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalFullCardNumber(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetCardIssuingMemberState(y.GetCardIssuingMemberState())
		lo, hi = 1, 2
	case 1:
		vAssume(b[0] == c[0]); x.SetDriverIdentification(y.GetDriverIdentification()); x.SetOwnerIdentification(y.GetOwnerIdentification())
		lo, hi = 2, 18
	}
	out, err := AppendFullCardNumber(nil, x)
	vAssert(err == nil, "FullCardNumber encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 18 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "FullCardNumber field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "FullCardNumber field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 18 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_FullCardNumber_edited() {
	b := vBytes("b", 18)
	vAssume(dFCN(b))
	a := b
	b = vBytes("new", 18)
	vAssume(dFCN(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalFullCardNumber(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetCardIssuingMemberState(y.GetCardIssuingMemberState())
	case 1:
		vAssume(b[0] == c[0]); x.SetDriverIdentification(y.GetDriverIdentification()); x.SetOwnerIdentification(y.GetOwnerIdentification())
	}
	before := proto.Clone(x)
	out, err := AppendFullCardNumber(nil, x)
	vAssert(err == nil, "FullCardNumber encodes after a field change")
	vAssert(vSame(x, before), "FullCardNumber encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "FullCardNumber encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+25), p...)
	res, err := AppendFullCardNumber(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "FullCardNumber appends its encoding after a field change to the buffer")
	out, err = AppendFullCardNumber(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "FullCardNumber encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 19 bytes symbolic; values the data dictionary defines
func vh_C04_FullCardNumberAndGeneration() {
	b := vBytes("b", 19)
	vAssume(dFCNG(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	vAssert(err == nil, "FullCardNumberAndGeneration accepted")
	out, err := AppendFullCardNumberAndGeneration(nil, x)
	vAssert(err == nil, "FullCardNumberAndGeneration encodes")
	vAssert(len(out) == 19, "FullCardNumberAndGeneration encodes to its size")
	vAssert(vEq(out, b), "FullCardNumberAndGeneration round trip")
	vReach("end", uint64(out[0]), uint64(out[18]))
}

//v:bounds every length up to 46 bytes except 19
func vh_C04_FullCardNumberAndGeneration_size() {
	b := vSym("b", 46)
	vAssume(len(b) != 19)
	var o UnmarshalOptions
	_, err := o.UnmarshalFullCardNumberAndGeneration(b)
	vAssert(err != nil, "FullCardNumberAndGeneration refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 19 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_FullCardNumberAndGeneration() {
	b := vBytes("b", 19)
	v := vPick("text", 4)
	vIa5In(b[2:18], v)
	vAssume(dFCNG(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	vAssert(err == nil, "FullCardNumberAndGeneration accepted")
	x = vStrip(x).(*ddv1.FullCardNumberAndGeneration)
	out, err := AppendFullCardNumberAndGeneration(nil, x)
	vAssert(err == nil, "FullCardNumberAndGeneration without stored bytes encodes")
	vAssert(len(out) == 19, "FullCardNumberAndGeneration without stored bytes encodes to its size")
	y, err := o.UnmarshalFullCardNumberAndGeneration(out)
	vAssert(err == nil, "FullCardNumberAndGeneration without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "FullCardNumberAndGeneration without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[18]))
}

//v:bounds all 19 bytes symbolic
func vh_C05_FullCardNumberAndGeneration() {
	b := vBytes("b", 19)
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	if dFCNG(b) {
		vAssert(err == nil, "FullCardNumberAndGeneration accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refFCNG(x, b)
	vReach("end")
}

//v:bounds all 19 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_FullCardNumberAndGeneration() {
	b := vBytes("b", 19)
	vAssume(dFCNG(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	vAssert(vEq(b, keep), "FullCardNumberAndGeneration decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendFullCardNumberAndGeneration(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "FullCardNumberAndGeneration encoding leaves the message alone")
	vAssert(vEq(b, keep), "FullCardNumberAndGeneration encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+26)
	buf = append(buf, p[:n]...)
	res, err := AppendFullCardNumberAndGeneration(buf, x)
	vAssert(err == nil, "FullCardNumberAndGeneration encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "FullCardNumberAndGeneration appends its encoding to the buffer")
	out2, err := AppendFullCardNumberAndGeneration(nil, x)
	vAssert(err == nil && vEq(out2, out), "FullCardNumberAndGeneration encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 19 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_FullCardNumberAndGeneration() {
	b := vBytes("b", 19)
	vAssume(dFCNG(b))
	a := b
	b = vBytes("new", 19)
	vAssume(dFCNG(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalFullCardNumberAndGeneration(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetFullCardNumber(y.GetFullCardNumber())
		lo, hi = 0, 18
	case 1:
		x.SetGeneration(y.GetGeneration())
		lo, hi = 18, 19
	}
	out, err := AppendFullCardNumberAndGeneration(nil, x)
	vAssert(err == nil, "FullCardNumberAndGeneration encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 19 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "FullCardNumberAndGeneration field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "FullCardNumberAndGeneration field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 19 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_FullCardNumberAndGeneration_edited() {
	b := vBytes("b", 19)
	vAssume(dFCNG(b))
	a := b
	b = vBytes("new", 19)
	vAssume(dFCNG(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalFullCardNumberAndGeneration(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetFullCardNumber(y.GetFullCardNumber())
	case 1:
		x.SetGeneration(y.GetGeneration())
	}
	before := proto.Clone(x)
	out, err := AppendFullCardNumberAndGeneration(nil, x)
	vAssert(err == nil, "FullCardNumberAndGeneration encodes after a field change")
	vAssert(vSame(x, before), "FullCardNumberAndGeneration encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "FullCardNumberAndGeneration encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+26), p...)
	res, err := AppendFullCardNumberAndGeneration(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "FullCardNumberAndGeneration appends its encoding after a field change to the buffer")
	out, err = AppendFullCardNumberAndGeneration(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "FullCardNumberAndGeneration encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 6 bytes symbolic; values the data dictionary defines
func vh_C04_GeoCoordinates() {
	b := vBytes("b", 6)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	vAssert(err == nil, "GeoCoordinates accepted")
	out, err := AppendGeoCoordinates(nil, x)
	vAssert(err == nil, "GeoCoordinates encodes")
	vAssert(len(out) == 6, "GeoCoordinates encodes to its size")
	vAssert(vEq(out, b), "GeoCoordinates round trip")
	vReach("end", uint64(out[0]), uint64(out[5]))
}

//v:bounds every length up to 20 bytes except 6
func vh_C04_GeoCoordinates_size() {
	b := vSym("b", 20)
	vAssume(len(b) != 6)
	var o UnmarshalOptions
	_, err := o.UnmarshalGeoCoordinates(b)
	vAssert(err != nil, "GeoCoordinates refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 6 bytes symbolic; values the data dictionary defines
func vh_C22_GeoCoordinates() {
	b := vBytes("b", 6)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	vAssert(err == nil, "GeoCoordinates accepted")
	x = vStrip(x).(*ddv1.GeoCoordinates)
	out, err := AppendGeoCoordinates(nil, x)
	vAssert(err == nil, "GeoCoordinates without stored bytes encodes")
	vAssert(len(out) == 6, "GeoCoordinates without stored bytes encodes to its size")
	y, err := o.UnmarshalGeoCoordinates(out)
	vAssert(err == nil, "GeoCoordinates without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "GeoCoordinates without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[5]))
}

//v:bounds all 6 bytes symbolic
func vh_C05_GeoCoordinates() {
	b := vBytes("b", 6)
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	if true {
		vAssert(err == nil, "GeoCoordinates accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refGeo(x, b)
	vReach("end")
}

//v:bounds all 6 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_GeoCoordinates() {
	b := vBytes("b", 6)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	vAssert(vEq(b, keep), "GeoCoordinates decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendGeoCoordinates(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "GeoCoordinates encoding leaves the message alone")
	vAssert(vEq(b, keep), "GeoCoordinates encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+13)
	buf = append(buf, p[:n]...)
	res, err := AppendGeoCoordinates(buf, x)
	vAssert(err == nil, "GeoCoordinates encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "GeoCoordinates appends its encoding to the buffer")
	out2, err := AppendGeoCoordinates(nil, x)
	vAssert(err == nil && vEq(out2, out), "GeoCoordinates encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 6 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_GeoCoordinates() {
	b := vBytes("b", 6)
	vAssume(true)
	a := b
	b = vBytes("new", 6)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalGeoCoordinates(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetLatitude(y.GetLatitude())
		lo, hi = 0, 3
	case 1:
		x.SetLongitude(y.GetLongitude())
		lo, hi = 3, 6
	}
	out, err := AppendGeoCoordinates(nil, x)
	vAssert(err == nil, "GeoCoordinates encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 6 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "GeoCoordinates field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "GeoCoordinates field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 6 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_GeoCoordinates_edited() {
	b := vBytes("b", 6)
	vAssume(true)
	a := b
	b = vBytes("new", 6)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalGeoCoordinates(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetLatitude(y.GetLatitude())
	case 1:
		x.SetLongitude(y.GetLongitude())
	}
	before := proto.Clone(x)
	out, err := AppendGeoCoordinates(nil, x)
	vAssert(err == nil, "GeoCoordinates encodes after a field change")
	vAssert(vSame(x, before), "GeoCoordinates encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "GeoCoordinates encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+13), p...)
	res, err := AppendGeoCoordinates(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "GeoCoordinates appends its encoding after a field change to the buffer")
	out, err = AppendGeoCoordinates(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "GeoCoordinates encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 11 bytes symbolic; values the data dictionary defines
func vh_C04_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	vAssert(err == nil, "GNSSPlaceRecord accepted")
	out, err := AppendGNSSPlaceRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceRecord encodes")
	vAssert(len(out) == 11, "GNSSPlaceRecord encodes to its size")
	vAssert(vEq(out, b), "GNSSPlaceRecord round trip")
	vReach("end", uint64(out[0]), uint64(out[10]))
}

//v:bounds every length up to 30 bytes except 11
func vh_C04_GNSSPlaceRecord_size() {
	b := vSym("b", 30)
	vAssume(len(b) != 11)
	var o UnmarshalOptions
	_, err := o.UnmarshalGNSSPlaceRecord(b)
	vAssert(err != nil, "GNSSPlaceRecord refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 11 bytes symbolic; values the data dictionary defines
func vh_C22_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	vAssert(err == nil, "GNSSPlaceRecord accepted")
	x = vStrip(x).(*ddv1.GNSSPlaceRecord)
	out, err := AppendGNSSPlaceRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceRecord without stored bytes encodes")
	vAssert(len(out) == 11, "GNSSPlaceRecord without stored bytes encodes to its size")
	y, err := o.UnmarshalGNSSPlaceRecord(out)
	vAssert(err == nil, "GNSSPlaceRecord without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "GNSSPlaceRecord without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[10]))
}

//v:bounds all 11 bytes symbolic
func vh_C05_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	if true {
		vAssert(err == nil, "GNSSPlaceRecord accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refGNSS(x, b)
	vReach("end")
}

//v:bounds all 11 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	vAssert(vEq(b, keep), "GNSSPlaceRecord decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendGNSSPlaceRecord(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "GNSSPlaceRecord encoding leaves the message alone")
	vAssert(vEq(b, keep), "GNSSPlaceRecord encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+18)
	buf = append(buf, p[:n]...)
	res, err := AppendGNSSPlaceRecord(buf, x)
	vAssert(err == nil, "GNSSPlaceRecord encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "GNSSPlaceRecord appends its encoding to the buffer")
	out2, err := AppendGNSSPlaceRecord(nil, x)
	vAssert(err == nil && vEq(out2, out), "GNSSPlaceRecord encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 11 bytes symbolic, in both the original and the new value; one field changed at a time (3 fields)
func vh_C06_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	vAssume(true)
	a := b
	b = vBytes("new", 11)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalGNSSPlaceRecord(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetTimestamp(y.GetTimestamp())
		lo, hi = 0, 4
	case 1:
		x.SetGnssAccuracy(y.GetGnssAccuracy())
		lo, hi = 4, 5
	case 2:
		x.SetGeoCoordinates(y.GetGeoCoordinates())
		lo, hi = 5, 11
	}
	out, err := AppendGNSSPlaceRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceRecord encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 11 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "GNSSPlaceRecord field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "GNSSPlaceRecord field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 11 bytes symbolic, in both the original and the new value; encoding after one field is changed (3 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_GNSSPlaceRecord_edited() {
	b := vBytes("b", 11)
	vAssume(true)
	a := b
	b = vBytes("new", 11)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalGNSSPlaceRecord(c)
	if err != nil {
		return
	}
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetTimestamp(y.GetTimestamp())
	case 1:
		x.SetGnssAccuracy(y.GetGnssAccuracy())
	case 2:
		x.SetGeoCoordinates(y.GetGeoCoordinates())
	}
	before := proto.Clone(x)
	out, err := AppendGNSSPlaceRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceRecord encodes after a field change")
	vAssert(vSame(x, before), "GNSSPlaceRecord encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "GNSSPlaceRecord encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+18), p...)
	res, err := AppendGNSSPlaceRecord(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "GNSSPlaceRecord appends its encoding after a field change to the buffer")
	out, err = AppendGNSSPlaceRecord(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "GNSSPlaceRecord encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 12 bytes symbolic; values the data dictionary defines
func vh_C04_GNSSPlaceAuthRecord() {
	b := vBytes("b", 12)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(err == nil, "GNSSPlaceAuthRecord accepted")
	out, err := AppendGNSSPlaceAuthRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceAuthRecord encodes")
	vAssert(len(out) == 12, "GNSSPlaceAuthRecord encodes to its size")
	vAssert(vEq(out, b), "GNSSPlaceAuthRecord round trip")
	vReach("end", uint64(out[0]), uint64(out[11]))
}

//v:bounds every length up to 32 bytes except 12
func vh_C04_GNSSPlaceAuthRecord_size() {
	b := vSym("b", 32)
	vAssume(len(b) != 12)
	var o UnmarshalOptions
	_, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(err != nil, "GNSSPlaceAuthRecord refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 12 bytes symbolic; values the data dictionary defines
func vh_C22_GNSSPlaceAuthRecord() {
	b := vBytes("b", 12)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(err == nil, "GNSSPlaceAuthRecord accepted")
	x = vStrip(x).(*ddv1.GNSSPlaceAuthRecord)
	out, err := AppendGNSSPlaceAuthRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceAuthRecord without stored bytes encodes")
	vAssert(len(out) == 12, "GNSSPlaceAuthRecord without stored bytes encodes to its size")
	y, err := o.UnmarshalGNSSPlaceAuthRecord(out)
	vAssert(err == nil, "GNSSPlaceAuthRecord without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "GNSSPlaceAuthRecord without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[11]))
}

//v:bounds all 12 bytes symbolic
func vh_C05_GNSSPlaceAuthRecord() {
	b := vBytes("b", 12)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	if true {
		vAssert(err == nil, "GNSSPlaceAuthRecord accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refGNSSAuth(x, b)
	vReach("end")
}

//v:bounds all 12 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_GNSSPlaceAuthRecord() {
	b := vBytes("b", 12)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(vEq(b, keep), "GNSSPlaceAuthRecord decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendGNSSPlaceAuthRecord(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "GNSSPlaceAuthRecord encoding leaves the message alone")
	vAssert(vEq(b, keep), "GNSSPlaceAuthRecord encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+19)
	buf = append(buf, p[:n]...)
	res, err := AppendGNSSPlaceAuthRecord(buf, x)
	vAssert(err == nil, "GNSSPlaceAuthRecord encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "GNSSPlaceAuthRecord appends its encoding to the buffer")
	out2, err := AppendGNSSPlaceAuthRecord(nil, x)
	vAssert(err == nil && vEq(out2, out), "GNSSPlaceAuthRecord encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 12 bytes symbolic, in both the original and the new value; one field changed at a time (4 fields)
func vh_C06_GNSSPlaceAuthRecord() {
	b := vBytes("b", 12)
	vAssume(true)
	a := b
	b = vBytes("new", 12)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalGNSSPlaceAuthRecord(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetTimestamp(y.GetTimestamp())
		lo, hi = 0, 4
	case 1:
		x.SetGnssAccuracy(y.GetGnssAccuracy())
		lo, hi = 4, 5
	case 2:
		x.SetGeoCoordinates(y.GetGeoCoordinates())
		lo, hi = 5, 11
	case 3:
		x.SetAuthenticationStatus(y.GetAuthenticationStatus()); x.SetUnrecognizedAuthenticationStatus(y.GetUnrecognizedAuthenticationStatus())
		lo, hi = 11, 12
	}
	out, err := AppendGNSSPlaceAuthRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceAuthRecord encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 12 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "GNSSPlaceAuthRecord field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "GNSSPlaceAuthRecord field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 12 bytes symbolic, in both the original and the new value; encoding after one field is changed (4 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_GNSSPlaceAuthRecord_edited() {
	b := vBytes("b", 12)
	vAssume(true)
	a := b
	b = vBytes("new", 12)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalGNSSPlaceAuthRecord(c)
	if err != nil {
		return
	}
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetTimestamp(y.GetTimestamp())
	case 1:
		x.SetGnssAccuracy(y.GetGnssAccuracy())
	case 2:
		x.SetGeoCoordinates(y.GetGeoCoordinates())
	case 3:
		x.SetAuthenticationStatus(y.GetAuthenticationStatus()); x.SetUnrecognizedAuthenticationStatus(y.GetUnrecognizedAuthenticationStatus())
	}
	before := proto.Clone(x)
	out, err := AppendGNSSPlaceAuthRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceAuthRecord encodes after a field change")
	vAssert(vSame(x, before), "GNSSPlaceAuthRecord encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "GNSSPlaceAuthRecord encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+19), p...)
	res, err := AppendGNSSPlaceAuthRecord(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "GNSSPlaceAuthRecord appends its encoding after a field change to the buffer")
	out, err = AppendGNSSPlaceAuthRecord(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "GNSSPlaceAuthRecord encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 72 bytes symbolic; values the data dictionary defines
func vh_C04_HolderName() {
	b := vBytes("b", 72)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	vAssert(err == nil, "HolderName accepted")
	out, err := AppendHolderName(nil, x)
	vAssert(err == nil, "HolderName encodes")
	vAssert(len(out) == 72, "HolderName encodes to its size")
	vAssert(vEq(out, b), "HolderName round trip")
	vReach("end", uint64(out[0]), uint64(out[71]))
}

//v:bounds every length up to 152 bytes except 72
func vh_C04_HolderName_size() {
	b := vSym("b", 152)
	vAssume(len(b) != 72)
	var o UnmarshalOptions
	_, err := o.UnmarshalHolderName(b)
	vAssert(err != nil, "HolderName refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 72 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_HolderName() {
	b := vBytes("b", 72)
	v := vPick("text", 4)
	vTextIn(b[0:36], v)
	vTextIn(b[36:72], (v+1)%4)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	vAssert(err == nil, "HolderName accepted")
	x = vStrip(x).(*ddv1.HolderName)
	out, err := AppendHolderName(nil, x)
	vAssert(err == nil, "HolderName without stored bytes encodes")
	vAssert(len(out) == 72, "HolderName without stored bytes encodes to its size")
	y, err := o.UnmarshalHolderName(out)
	vAssert(err == nil, "HolderName without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "HolderName without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[71]))
}

//v:bounds all 72 bytes symbolic
func vh_C05_HolderName() {
	b := vBytes("b", 72)
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	if dStr(b[0:36]) && dStr(b[36:72]) {
		vAssert(err == nil, "HolderName accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refHolder(x, b)
	vReach("end")
}

//v:bounds all 72 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_HolderName() {
	b := vBytes("b", 72)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	vAssert(vEq(b, keep), "HolderName decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendHolderName(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "HolderName encoding leaves the message alone")
	vAssert(vEq(b, keep), "HolderName encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+79)
	buf = append(buf, p[:n]...)
	res, err := AppendHolderName(buf, x)
	vAssert(err == nil, "HolderName encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "HolderName appends its encoding to the buffer")
	out2, err := AppendHolderName(nil, x)
	vAssert(err == nil && vEq(out2, out), "HolderName encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 72 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_HolderName() {
	b := vBytes("b", 72)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	a := b
	b = vBytes("new", 72)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalHolderName(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetHolderSurname(y.GetHolderSurname())
		lo, hi = 0, 36
	case 1:
		x.SetHolderFirstNames(y.GetHolderFirstNames())
		lo, hi = 36, 72
	}
	out, err := AppendHolderName(nil, x)
	vAssert(err == nil, "HolderName encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 72 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "HolderName field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "HolderName field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 72 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_HolderName_edited() {
	b := vBytes("b", 72)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	a := b
	b = vBytes("new", 72)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalHolderName(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetHolderSurname(y.GetHolderSurname())
	case 1:
		x.SetHolderFirstNames(y.GetHolderFirstNames())
	}
	before := proto.Clone(x)
	out, err := AppendHolderName(nil, x)
	vAssert(err == nil, "HolderName encodes after a field change")
	vAssert(vSame(x, before), "HolderName encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "HolderName encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+79), p...)
	res, err := AppendHolderName(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "HolderName appends its encoding after a field change to the buffer")
	out, err = AppendHolderName(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "HolderName encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 16 bytes symbolic; values the data dictionary defines
func vh_C04_OwnerIdentification() {
	b := vBytes("b", 16)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	vAssert(err == nil, "OwnerIdentification accepted")
	out, err := AppendOwnerIdentification(nil, x)
	vAssert(err == nil, "OwnerIdentification encodes")
	vAssert(len(out) == 16, "OwnerIdentification encodes to its size")
	vAssert(vEq(out, b), "OwnerIdentification round trip")
	vReach("end", uint64(out[0]), uint64(out[15]))
}

//v:bounds every length up to 40 bytes except 16
func vh_C04_OwnerIdentification_size() {
	b := vSym("b", 40)
	vAssume(len(b) != 16)
	var o UnmarshalOptions
	_, err := o.UnmarshalOwnerIdentification(b)
	vAssert(err != nil, "OwnerIdentification refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 16 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_OwnerIdentification() {
	b := vBytes("b", 16)
	v := vPick("text", 4)
	vIa5In(b[0:13], v)
	vIa5In(b[13:14], (v+1)%4)
	vIa5In(b[14:15], v)
	vIa5In(b[15:16], (v+1)%4)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	vAssert(err == nil, "OwnerIdentification accepted")
	x = vStrip(x).(*ddv1.OwnerIdentification)
	out, err := AppendOwnerIdentification(nil, x)
	vAssert(err == nil, "OwnerIdentification without stored bytes encodes")
	vAssert(len(out) == 16, "OwnerIdentification without stored bytes encodes to its size")
	y, err := o.UnmarshalOwnerIdentification(out)
	vAssert(err == nil, "OwnerIdentification without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "OwnerIdentification without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[15]))
}

//v:bounds all 16 bytes symbolic
func vh_C05_OwnerIdentification() {
	b := vBytes("b", 16)
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	if true {
		vAssert(err == nil, "OwnerIdentification accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refOwner(x, b)
	vReach("end")
}

//v:bounds all 16 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_OwnerIdentification() {
	b := vBytes("b", 16)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	vAssert(vEq(b, keep), "OwnerIdentification decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendOwnerIdentification(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "OwnerIdentification encoding leaves the message alone")
	vAssert(vEq(b, keep), "OwnerIdentification encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+23)
	buf = append(buf, p[:n]...)
	res, err := AppendOwnerIdentification(buf, x)
	vAssert(err == nil, "OwnerIdentification encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "OwnerIdentification appends its encoding to the buffer")
	out2, err := AppendOwnerIdentification(nil, x)
	vAssert(err == nil && vEq(out2, out), "OwnerIdentification encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 16 bytes symbolic, in both the original and the new value; one field changed at a time (4 fields)
func vh_C06_OwnerIdentification() {
	b := vBytes("b", 16)
	vAssume(true)
	a := b
	b = vBytes("new", 16)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalOwnerIdentification(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetOwnerIdentification(y.GetOwnerIdentification())
		lo, hi = 0, 13
	case 1:
		x.SetConsecutiveIndex(y.GetConsecutiveIndex())
		lo, hi = 13, 14
	case 2:
		x.SetReplacementIndex(y.GetReplacementIndex())
		lo, hi = 14, 15
	case 3:
		x.SetRenewalIndex(y.GetRenewalIndex())
		lo, hi = 15, 16
	}
	out, err := AppendOwnerIdentification(nil, x)
	vAssert(err == nil, "OwnerIdentification encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 16 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "OwnerIdentification field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "OwnerIdentification field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 16 bytes symbolic, in both the original and the new value; encoding after one field is changed (4 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_OwnerIdentification_edited() {
	b := vBytes("b", 16)
	vAssume(true)
	a := b
	b = vBytes("new", 16)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalOwnerIdentification(c)
	if err != nil {
		return
	}
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetOwnerIdentification(y.GetOwnerIdentification())
	case 1:
		x.SetConsecutiveIndex(y.GetConsecutiveIndex())
	case 2:
		x.SetReplacementIndex(y.GetReplacementIndex())
	case 3:
		x.SetRenewalIndex(y.GetRenewalIndex())
	}
	before := proto.Clone(x)
	out, err := AppendOwnerIdentification(nil, x)
	vAssert(err == nil, "OwnerIdentification encodes after a field change")
	vAssert(vSame(x, before), "OwnerIdentification encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "OwnerIdentification encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+23), p...)
	res, err := AppendOwnerIdentification(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "OwnerIdentification appends its encoding after a field change to the buffer")
	out, err = AppendOwnerIdentification(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "OwnerIdentification encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 10 bytes symbolic; values the data dictionary defines
func vh_C04_PlaceRecord() {
	b := vBytes("b", 10)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	vAssert(err == nil, "PlaceRecord accepted")
	out, err := AppendPlaceRecord(nil, x)
	vAssert(err == nil, "PlaceRecord encodes")
	vAssert(len(out) == 10, "PlaceRecord encodes to its size")
	vAssert(vEq(out, b), "PlaceRecord round trip")
	vReach("end", uint64(out[0]), uint64(out[9]))
}

//v:bounds every length up to 28 bytes except 10
func vh_C04_PlaceRecord_size() {
	b := vSym("b", 28)
	vAssume(len(b) != 10)
	var o UnmarshalOptions
	_, err := o.UnmarshalPlaceRecord(b)
	vAssert(err != nil, "PlaceRecord refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 10 bytes symbolic; values the data dictionary defines
func vh_C22_PlaceRecord() {
	b := vBytes("b", 10)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	vAssert(err == nil, "PlaceRecord accepted")
	x = vStrip(x).(*ddv1.PlaceRecord)
	out, err := AppendPlaceRecord(nil, x)
	vAssert(err == nil, "PlaceRecord without stored bytes encodes")
	vAssert(len(out) == 10, "PlaceRecord without stored bytes encodes to its size")
	y, err := o.UnmarshalPlaceRecord(out)
	vAssert(err == nil, "PlaceRecord without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "PlaceRecord without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[9]))
}

//v:bounds all 10 bytes symbolic
func vh_C05_PlaceRecord() {
	b := vBytes("b", 10)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	if true {
		vAssert(err == nil, "PlaceRecord accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refPlace(x, b)
	vReach("end")
}

//v:bounds all 10 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_PlaceRecord() {
	b := vBytes("b", 10)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	vAssert(vEq(b, keep), "PlaceRecord decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendPlaceRecord(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "PlaceRecord encoding leaves the message alone")
	vAssert(vEq(b, keep), "PlaceRecord encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+17)
	buf = append(buf, p[:n]...)
	res, err := AppendPlaceRecord(buf, x)
	vAssert(err == nil, "PlaceRecord encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "PlaceRecord appends its encoding to the buffer")
	out2, err := AppendPlaceRecord(nil, x)
	vAssert(err == nil && vEq(out2, out), "PlaceRecord encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 10 bytes symbolic, in both the original and the new value; one field changed at a time (5 fields)
func vh_C06_PlaceRecord() {
	b := vBytes("b", 10)
	vAssume(true)
	a := b
	b = vBytes("new", 10)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPlaceRecord(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 5)
	switch f {
	case 0:
		x.SetEntryTime(y.GetEntryTime())
		lo, hi = 0, 4
	case 1:
		x.SetEntryTypeDailyWorkPeriod(y.GetEntryTypeDailyWorkPeriod()); x.SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetUnrecognizedEntryTypeDailyWorkPeriod())
		lo, hi = 4, 5
	case 2:
		x.SetDailyWorkPeriodCountry(y.GetDailyWorkPeriodCountry()); x.SetUnrecognizedDailyWorkPeriodCountry(y.GetUnrecognizedDailyWorkPeriodCountry())
		lo, hi = 5, 6
	case 3:
		x.SetDailyWorkPeriodRegion(y.GetDailyWorkPeriodRegion())
		lo, hi = 6, 7
	case 4:
		x.SetVehicleOdometerKm(y.GetVehicleOdometerKm())
		lo, hi = 7, 10
	}
	out, err := AppendPlaceRecord(nil, x)
	vAssert(err == nil, "PlaceRecord encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 10 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "PlaceRecord field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "PlaceRecord field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 10 bytes symbolic, in both the original and the new value; encoding after one field is changed (5 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_PlaceRecord_edited() {
	b := vBytes("b", 10)
	vAssume(true)
	a := b
	b = vBytes("new", 10)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPlaceRecord(c)
	if err != nil {
		return
	}
	f := vPick("field", 5)
	switch f {
	case 0:
		x.SetEntryTime(y.GetEntryTime())
	case 1:
		x.SetEntryTypeDailyWorkPeriod(y.GetEntryTypeDailyWorkPeriod()); x.SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetUnrecognizedEntryTypeDailyWorkPeriod())
	case 2:
		x.SetDailyWorkPeriodCountry(y.GetDailyWorkPeriodCountry()); x.SetUnrecognizedDailyWorkPeriodCountry(y.GetUnrecognizedDailyWorkPeriodCountry())
	case 3:
		x.SetDailyWorkPeriodRegion(y.GetDailyWorkPeriodRegion())
	case 4:
		x.SetVehicleOdometerKm(y.GetVehicleOdometerKm())
	}
	before := proto.Clone(x)
	out, err := AppendPlaceRecord(nil, x)
	vAssert(err == nil, "PlaceRecord encodes after a field change")
	vAssert(vSame(x, before), "PlaceRecord encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "PlaceRecord encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+17), p...)
	res, err := AppendPlaceRecord(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "PlaceRecord appends its encoding after a field change to the buffer")
	out, err = AppendPlaceRecord(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "PlaceRecord encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 21 bytes symbolic; values the data dictionary defines
func vh_C04_PlaceRecordG2() {
	b := vBytes("b", 21)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(err == nil, "PlaceRecordG2 accepted")
	out, err := AppendPlaceRecordG2(nil, x)
	vAssert(err == nil, "PlaceRecordG2 encodes")
	vAssert(len(out) == 21, "PlaceRecordG2 encodes to its size")
	vAssert(vEq(out, b), "PlaceRecordG2 round trip")
	vReach("end", uint64(out[0]), uint64(out[20]))
}

//v:bounds every length up to 50 bytes except 21
func vh_C04_PlaceRecordG2_size() {
	b := vSym("b", 50)
	vAssume(len(b) != 21)
	var o UnmarshalOptions
	_, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(err != nil, "PlaceRecordG2 refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 21 bytes symbolic; values the data dictionary defines
func vh_C22_PlaceRecordG2() {
	b := vBytes("b", 21)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(err == nil, "PlaceRecordG2 accepted")
	x = vStrip(x).(*ddv1.PlaceRecordG2)
	out, err := AppendPlaceRecordG2(nil, x)
	vAssert(err == nil, "PlaceRecordG2 without stored bytes encodes")
	vAssert(len(out) == 21, "PlaceRecordG2 without stored bytes encodes to its size")
	y, err := o.UnmarshalPlaceRecordG2(out)
	vAssert(err == nil, "PlaceRecordG2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "PlaceRecordG2 without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[20]))
}

//v:bounds all 21 bytes symbolic
func vh_C05_PlaceRecordG2() {
	b := vBytes("b", 21)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	if true {
		vAssert(err == nil, "PlaceRecordG2 accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refPlaceG2(x, b)
	vReach("end")
}

//v:bounds all 21 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_PlaceRecordG2() {
	b := vBytes("b", 21)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(vEq(b, keep), "PlaceRecordG2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendPlaceRecordG2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "PlaceRecordG2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "PlaceRecordG2 encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+28)
	buf = append(buf, p[:n]...)
	res, err := AppendPlaceRecordG2(buf, x)
	vAssert(err == nil, "PlaceRecordG2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "PlaceRecordG2 appends its encoding to the buffer")
	out2, err := AppendPlaceRecordG2(nil, x)
	vAssert(err == nil && vEq(out2, out), "PlaceRecordG2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 21 bytes symbolic, in both the original and the new value; one field changed at a time (6 fields)
func vh_C06_PlaceRecordG2() {
	b := vBytes("b", 21)
	vAssume(true)
	a := b
	b = vBytes("new", 21)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPlaceRecordG2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 6)
	switch f {
	case 0:
		x.SetEntryTime(y.GetEntryTime())
		lo, hi = 0, 4
	case 1:
		x.SetEntryTypeDailyWorkPeriod(y.GetEntryTypeDailyWorkPeriod()); x.SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetUnrecognizedEntryTypeDailyWorkPeriod())
		lo, hi = 4, 5
	case 2:
		x.SetDailyWorkPeriodCountry(y.GetDailyWorkPeriodCountry()); x.SetUnrecognizedDailyWorkPeriodCountry(y.GetUnrecognizedDailyWorkPeriodCountry())
		lo, hi = 5, 6
	case 3:
		x.SetDailyWorkPeriodRegion(y.GetDailyWorkPeriodRegion())
		lo, hi = 6, 7
	case 4:
		x.SetVehicleOdometerKm(y.GetVehicleOdometerKm())
		lo, hi = 7, 10
	case 5:
		x.SetEntryGnssPlaceRecord(y.GetEntryGnssPlaceRecord())
		lo, hi = 10, 21
	}
	out, err := AppendPlaceRecordG2(nil, x)
	vAssert(err == nil, "PlaceRecordG2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 21 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "PlaceRecordG2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "PlaceRecordG2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 21 bytes symbolic, in both the original and the new value; encoding after one field is changed (6 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_PlaceRecordG2_edited() {
	b := vBytes("b", 21)
	vAssume(true)
	a := b
	b = vBytes("new", 21)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPlaceRecordG2(c)
	if err != nil {
		return
	}
	f := vPick("field", 6)
	switch f {
	case 0:
		x.SetEntryTime(y.GetEntryTime())
	case 1:
		x.SetEntryTypeDailyWorkPeriod(y.GetEntryTypeDailyWorkPeriod()); x.SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetUnrecognizedEntryTypeDailyWorkPeriod())
	case 2:
		x.SetDailyWorkPeriodCountry(y.GetDailyWorkPeriodCountry()); x.SetUnrecognizedDailyWorkPeriodCountry(y.GetUnrecognizedDailyWorkPeriodCountry())
	case 3:
		x.SetDailyWorkPeriodRegion(y.GetDailyWorkPeriodRegion())
	case 4:
		x.SetVehicleOdometerKm(y.GetVehicleOdometerKm())
	case 5:
		x.SetEntryGnssPlaceRecord(y.GetEntryGnssPlaceRecord())
	}
	before := proto.Clone(x)
	out, err := AppendPlaceRecordG2(nil, x)
	vAssert(err == nil, "PlaceRecordG2 encodes after a field change")
	vAssert(vSame(x, before), "PlaceRecordG2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "PlaceRecordG2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+28), p...)
	res, err := AppendPlaceRecordG2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "PlaceRecordG2 appends its encoding after a field change to the buffer")
	out, err = AppendPlaceRecordG2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "PlaceRecordG2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 19 bytes symbolic; values the data dictionary defines
func vh_C04_PreviousVehicleInfo() {
	b := vBytes("b", 19)
	vAssume(dPrevious(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	vAssert(err == nil, "PreviousVehicleInfo accepted")
	out, err := AppendPreviousVehicleInfo(nil, x)
	vAssert(err == nil, "PreviousVehicleInfo encodes")
	vAssert(len(out) == 19, "PreviousVehicleInfo encodes to its size")
	vAssert(vEq(out, b), "PreviousVehicleInfo round trip")
	vReach("end", uint64(out[0]), uint64(out[18]))
}

//v:bounds every length up to 46 bytes except 19
func vh_C04_PreviousVehicleInfo_size() {
	b := vSym("b", 46)
	vAssume(len(b) != 19)
	var o UnmarshalOptions
	_, err := o.UnmarshalPreviousVehicleInfo(b)
	vAssert(err != nil, "PreviousVehicleInfo refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 19 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_PreviousVehicleInfo() {
	b := vBytes("b", 19)
	v := vPick("text", 4)
	vTextIn(b[1:15], v)
	vAssume(dPrevious(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	vAssert(err == nil, "PreviousVehicleInfo accepted")
	x = vStrip(x).(*ddv1.PreviousVehicleInfo)
	out, err := AppendPreviousVehicleInfo(nil, x)
	vAssert(err == nil, "PreviousVehicleInfo without stored bytes encodes")
	vAssert(len(out) == 19, "PreviousVehicleInfo without stored bytes encodes to its size")
	y, err := o.UnmarshalPreviousVehicleInfo(out)
	vAssert(err == nil, "PreviousVehicleInfo without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "PreviousVehicleInfo without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[18]))
}

//v:bounds all 19 bytes symbolic
func vh_C05_PreviousVehicleInfo() {
	b := vBytes("b", 19)
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	if dPrevious(b) {
		vAssert(err == nil, "PreviousVehicleInfo accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refPrevious(x, b)
	vReach("end")
}

//v:bounds all 19 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_PreviousVehicleInfo() {
	b := vBytes("b", 19)
	vAssume(dPrevious(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	vAssert(vEq(b, keep), "PreviousVehicleInfo decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendPreviousVehicleInfo(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "PreviousVehicleInfo encoding leaves the message alone")
	vAssert(vEq(b, keep), "PreviousVehicleInfo encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+26)
	buf = append(buf, p[:n]...)
	res, err := AppendPreviousVehicleInfo(buf, x)
	vAssert(err == nil, "PreviousVehicleInfo encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "PreviousVehicleInfo appends its encoding to the buffer")
	out2, err := AppendPreviousVehicleInfo(nil, x)
	vAssert(err == nil && vEq(out2, out), "PreviousVehicleInfo encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 19 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_PreviousVehicleInfo() {
	b := vBytes("b", 19)
	vAssume(dPrevious(b))
	a := b
	b = vBytes("new", 19)
	vAssume(dPrevious(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPreviousVehicleInfo(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
		lo, hi = 0, 15
	case 1:
		x.SetCardWithdrawalTime(y.GetCardWithdrawalTime())
		lo, hi = 15, 19
	}
	out, err := AppendPreviousVehicleInfo(nil, x)
	vAssert(err == nil, "PreviousVehicleInfo encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 19 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "PreviousVehicleInfo field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "PreviousVehicleInfo field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 19 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_PreviousVehicleInfo_edited() {
	b := vBytes("b", 19)
	vAssume(dPrevious(b))
	a := b
	b = vBytes("new", 19)
	vAssume(dPrevious(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPreviousVehicleInfo(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
	case 1:
		x.SetCardWithdrawalTime(y.GetCardWithdrawalTime())
	}
	before := proto.Clone(x)
	out, err := AppendPreviousVehicleInfo(nil, x)
	vAssert(err == nil, "PreviousVehicleInfo encodes after a field change")
	vAssert(vSame(x, before), "PreviousVehicleInfo encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "PreviousVehicleInfo encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+26), p...)
	res, err := AppendPreviousVehicleInfo(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "PreviousVehicleInfo appends its encoding after a field change to the buffer")
	out, err = AppendPreviousVehicleInfo(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "PreviousVehicleInfo encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 20 bytes symbolic; values the data dictionary defines
func vh_C04_PreviousVehicleInfoG2() {
	b := vBytes("b", 20)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	vAssert(err == nil, "PreviousVehicleInfoG2 accepted")
	out, err := AppendPreviousVehicleInfoG2(nil, x)
	vAssert(err == nil, "PreviousVehicleInfoG2 encodes")
	vAssert(len(out) == 20, "PreviousVehicleInfoG2 encodes to its size")
	vAssert(vEq(out, b), "PreviousVehicleInfoG2 round trip")
	vReach("end", uint64(out[0]), uint64(out[19]))
}

//v:bounds every length up to 48 bytes except 20
func vh_C04_PreviousVehicleInfoG2_size() {
	b := vSym("b", 48)
	vAssume(len(b) != 20)
	var o UnmarshalOptions
	_, err := o.UnmarshalPreviousVehicleInfoG2(b)
	vAssert(err != nil, "PreviousVehicleInfoG2 refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 20 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_PreviousVehicleInfoG2() {
	b := vBytes("b", 20)
	v := vPick("text", 4)
	vTextIn(b[1:15], v)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	vAssert(err == nil, "PreviousVehicleInfoG2 accepted")
	x = vStrip(x).(*ddv1.PreviousVehicleInfoG2)
	out, err := AppendPreviousVehicleInfoG2(nil, x)
	vAssert(err == nil, "PreviousVehicleInfoG2 without stored bytes encodes")
	vAssert(len(out) == 20, "PreviousVehicleInfoG2 without stored bytes encodes to its size")
	y, err := o.UnmarshalPreviousVehicleInfoG2(out)
	vAssert(err == nil, "PreviousVehicleInfoG2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "PreviousVehicleInfoG2 without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[19]))
}

//v:bounds all 20 bytes symbolic
func vh_C05_PreviousVehicleInfoG2() {
	b := vBytes("b", 20)
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	if dVRN(b) && (b[19] == 1 || b[19] == 2) {
		vAssert(err == nil, "PreviousVehicleInfoG2 accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refPreviousG2(x, b)
	vReach("end")
}

//v:bounds all 20 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_PreviousVehicleInfoG2() {
	b := vBytes("b", 20)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	vAssert(vEq(b, keep), "PreviousVehicleInfoG2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendPreviousVehicleInfoG2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "PreviousVehicleInfoG2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "PreviousVehicleInfoG2 encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+27)
	buf = append(buf, p[:n]...)
	res, err := AppendPreviousVehicleInfoG2(buf, x)
	vAssert(err == nil, "PreviousVehicleInfoG2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "PreviousVehicleInfoG2 appends its encoding to the buffer")
	out2, err := AppendPreviousVehicleInfoG2(nil, x)
	vAssert(err == nil && vEq(out2, out), "PreviousVehicleInfoG2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 20 bytes symbolic, in both the original and the new value; one field changed at a time (3 fields)
func vh_C06_PreviousVehicleInfoG2() {
	b := vBytes("b", 20)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	a := b
	b = vBytes("new", 20)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPreviousVehicleInfoG2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
		lo, hi = 0, 15
	case 1:
		x.SetCardWithdrawalTime(y.GetCardWithdrawalTime())
		lo, hi = 15, 19
	case 2:
		x.SetVuGeneration(y.GetVuGeneration())
		lo, hi = 19, 20
	}
	out, err := AppendPreviousVehicleInfoG2(nil, x)
	vAssert(err == nil, "PreviousVehicleInfoG2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 20 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "PreviousVehicleInfoG2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "PreviousVehicleInfoG2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 20 bytes symbolic, in both the original and the new value; encoding after one field is changed (3 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_PreviousVehicleInfoG2_edited() {
	b := vBytes("b", 20)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	a := b
	b = vBytes("new", 20)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalPreviousVehicleInfoG2(c)
	if err != nil {
		return
	}
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetVehicleRegistration(y.GetVehicleRegistration())
	case 1:
		x.SetCardWithdrawalTime(y.GetCardWithdrawalTime())
	case 2:
		x.SetVuGeneration(y.GetVuGeneration())
	}
	before := proto.Clone(x)
	out, err := AppendPreviousVehicleInfoG2(nil, x)
	vAssert(err == nil, "PreviousVehicleInfoG2 encodes after a field change")
	vAssert(vSame(x, before), "PreviousVehicleInfoG2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "PreviousVehicleInfoG2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+27), p...)
	res, err := AppendPreviousVehicleInfoG2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "PreviousVehicleInfoG2 appends its encoding after a field change to the buffer")
	out, err = AppendPreviousVehicleInfoG2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "PreviousVehicleInfoG2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 5 bytes symbolic; values the data dictionary defines
func vh_C04_SpecificConditionRecord() {
	b := vBytes("b", 5)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	vAssert(err == nil, "SpecificConditionRecord accepted")
	out, err := AppendSpecificConditionRecord(nil, x)
	vAssert(err == nil, "SpecificConditionRecord encodes")
	vAssert(len(out) == 5, "SpecificConditionRecord encodes to its size")
	vAssert(vEq(out, b), "SpecificConditionRecord round trip")
	vReach("end", uint64(out[0]), uint64(out[4]))
}

//v:bounds every length up to 18 bytes except 5
func vh_C04_SpecificConditionRecord_size() {
	b := vSym("b", 18)
	vAssume(len(b) != 5)
	var o UnmarshalOptions
	_, err := o.UnmarshalSpecificConditionRecord(b)
	vAssert(err != nil, "SpecificConditionRecord refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 5 bytes symbolic; values the data dictionary defines
func vh_C22_SpecificConditionRecord() {
	b := vBytes("b", 5)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	vAssert(err == nil, "SpecificConditionRecord accepted")
	x = vStrip(x).(*ddv1.SpecificConditionRecord)
	out, err := AppendSpecificConditionRecord(nil, x)
	vAssert(err == nil, "SpecificConditionRecord without stored bytes encodes")
	vAssert(len(out) == 5, "SpecificConditionRecord without stored bytes encodes to its size")
	y, err := o.UnmarshalSpecificConditionRecord(out)
	vAssert(err == nil, "SpecificConditionRecord without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "SpecificConditionRecord without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[4]))
}

//v:bounds all 5 bytes symbolic
func vh_C05_SpecificConditionRecord() {
	b := vBytes("b", 5)
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	if true {
		vAssert(err == nil, "SpecificConditionRecord accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refSpecific(x, b)
	vReach("end")
}

//v:bounds all 5 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_SpecificConditionRecord() {
	b := vBytes("b", 5)
	vAssume(true)
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	vAssert(vEq(b, keep), "SpecificConditionRecord decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendSpecificConditionRecord(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "SpecificConditionRecord encoding leaves the message alone")
	vAssert(vEq(b, keep), "SpecificConditionRecord encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+12)
	buf = append(buf, p[:n]...)
	res, err := AppendSpecificConditionRecord(buf, x)
	vAssert(err == nil, "SpecificConditionRecord encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "SpecificConditionRecord appends its encoding to the buffer")
	out2, err := AppendSpecificConditionRecord(nil, x)
	vAssert(err == nil && vEq(out2, out), "SpecificConditionRecord encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 5 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_SpecificConditionRecord() {
	b := vBytes("b", 5)
	vAssume(true)
	a := b
	b = vBytes("new", 5)
	vAssume(true)
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalSpecificConditionRecord(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetEntryTime(y.GetEntryTime())
		lo, hi = 0, 4
	case 1:
		x.SetSpecificConditionType(y.GetSpecificConditionType()); x.SetUnrecognizedSpecificConditionType(y.GetUnrecognizedSpecificConditionType())
		lo, hi = 4, 5
	}
	out, err := AppendSpecificConditionRecord(nil, x)
	vAssert(err == nil, "SpecificConditionRecord encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 5 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "SpecificConditionRecord field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "SpecificConditionRecord field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 5 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_SpecificConditionRecord_edited() {
	b := vBytes("b", 5)
	vAssume(true)
	a := b
	b = vBytes("new", 5)
	vAssume(true)
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalSpecificConditionRecord(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetEntryTime(y.GetEntryTime())
	case 1:
		x.SetSpecificConditionType(y.GetSpecificConditionType()); x.SetUnrecognizedSpecificConditionType(y.GetUnrecognizedSpecificConditionType())
	}
	before := proto.Clone(x)
	out, err := AppendSpecificConditionRecord(nil, x)
	vAssert(err == nil, "SpecificConditionRecord encodes after a field change")
	vAssert(vSame(x, before), "SpecificConditionRecord encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "SpecificConditionRecord encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+12), p...)
	res, err := AppendSpecificConditionRecord(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "SpecificConditionRecord appends its encoding after a field change to the buffer")
	out, err = AppendSpecificConditionRecord(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "SpecificConditionRecord encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 15 bytes symbolic; values the data dictionary defines
func vh_C04_VehicleRegistration() {
	b := vBytes("b", 15)
	vAssume(dVRN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	vAssert(err == nil, "VehicleRegistration accepted")
	out, err := AppendVehicleRegistration(nil, x)
	vAssert(err == nil, "VehicleRegistration encodes")
	vAssert(len(out) == 15, "VehicleRegistration encodes to its size")
	vAssert(vEq(out, b), "VehicleRegistration round trip")
	vReach("end", uint64(out[0]), uint64(out[14]))
}

//v:bounds every length up to 38 bytes except 15
func vh_C04_VehicleRegistration_size() {
	b := vSym("b", 38)
	vAssume(len(b) != 15)
	var o UnmarshalOptions
	_, err := o.UnmarshalVehicleRegistration(b)
	vAssert(err != nil, "VehicleRegistration refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 15 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_VehicleRegistration() {
	b := vBytes("b", 15)
	v := vPick("text", 4)
	vTextIn(b[1:15], v)
	vAssume(dVRN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	vAssert(err == nil, "VehicleRegistration accepted")
	x = vStrip(x).(*ddv1.VehicleRegistrationIdentification)
	out, err := AppendVehicleRegistration(nil, x)
	vAssert(err == nil, "VehicleRegistration without stored bytes encodes")
	vAssert(len(out) == 15, "VehicleRegistration without stored bytes encodes to its size")
	y, err := o.UnmarshalVehicleRegistration(out)
	vAssert(err == nil, "VehicleRegistration without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VehicleRegistration without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[14]))
}

//v:bounds all 15 bytes symbolic
func vh_C05_VehicleRegistration() {
	b := vBytes("b", 15)
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	if dVRN(b) {
		vAssert(err == nil, "VehicleRegistration accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refVRN(x, b)
	vReach("end")
}

//v:bounds all 15 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_VehicleRegistration() {
	b := vBytes("b", 15)
	vAssume(dVRN(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	vAssert(vEq(b, keep), "VehicleRegistration decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendVehicleRegistration(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "VehicleRegistration encoding leaves the message alone")
	vAssert(vEq(b, keep), "VehicleRegistration encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+22)
	buf = append(buf, p[:n]...)
	res, err := AppendVehicleRegistration(buf, x)
	vAssert(err == nil, "VehicleRegistration encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "VehicleRegistration appends its encoding to the buffer")
	out2, err := AppendVehicleRegistration(nil, x)
	vAssert(err == nil && vEq(out2, out), "VehicleRegistration encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 15 bytes symbolic, in both the original and the new value; one field changed at a time (2 fields)
func vh_C06_VehicleRegistration() {
	b := vBytes("b", 15)
	vAssume(dVRN(b))
	a := b
	b = vBytes("new", 15)
	vAssume(dVRN(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalVehicleRegistration(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetNation(y.GetNation())
		lo, hi = 0, 1
	case 1:
		x.SetNumber(y.GetNumber())
		lo, hi = 1, 15
	}
	out, err := AppendVehicleRegistration(nil, x)
	vAssert(err == nil, "VehicleRegistration encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 15 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "VehicleRegistration field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "VehicleRegistration field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 15 bytes symbolic, in both the original and the new value; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_VehicleRegistration_edited() {
	b := vBytes("b", 15)
	vAssume(dVRN(b))
	a := b
	b = vBytes("new", 15)
	vAssume(dVRN(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalVehicleRegistration(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetNation(y.GetNation())
	case 1:
		x.SetNumber(y.GetNumber())
	}
	before := proto.Clone(x)
	out, err := AppendVehicleRegistration(nil, x)
	vAssert(err == nil, "VehicleRegistration encodes after a field change")
	vAssert(vSame(x, before), "VehicleRegistration encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "VehicleRegistration encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+22), p...)
	res, err := AppendVehicleRegistration(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "VehicleRegistration appends its encoding after a field change to the buffer")
	out, err = AppendVehicleRegistration(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "VehicleRegistration encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 129 bytes symbolic; values the data dictionary defines
func vh_C04_VuCardIWRecord() {
	b := vBytes("b", 129)
	vAssume(dIW(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	vAssert(err == nil, "VuCardIWRecord accepted")
	out, err := AppendVuCardIWRecord(nil, x)
	vAssert(err == nil, "VuCardIWRecord encodes")
	vAssert(len(out) == 129, "VuCardIWRecord encodes to its size")
	vAssert(vEq(out, b), "VuCardIWRecord round trip")
	vReach("end", uint64(out[0]), uint64(out[128]))
}

//v:bounds every length up to 266 bytes except 129
func vh_C04_VuCardIWRecord_size() {
	b := vSym("b", 266)
	vAssume(len(b) != 129)
	var o UnmarshalOptions
	_, err := o.UnmarshalVuCardIWRecord(b)
	vAssert(err != nil, "VuCardIWRecord refuses other sizes")
	vReach("end", uint64(len(b)))
}

//v:bounds all 129 bytes symbolic, texts one of four each; values the data dictionary defines
func vh_C22_VuCardIWRecord() {
	b := vBytes("b", 129)
	v := vPick("text", 4)
	vTextIn(b[0:36], v)
	vTextIn(b[36:72], (v+1)%4)
	vIa5In(b[74:90], v)
	vTextIn(b[110:124], (v+1)%4)
	vAssume(dIW(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	vAssert(err == nil, "VuCardIWRecord accepted")
	x = vStrip(x).(*ddv1.VuCardIWRecord)
	out, err := AppendVuCardIWRecord(nil, x)
	vAssert(err == nil, "VuCardIWRecord without stored bytes encodes")
	vAssert(len(out) == 129, "VuCardIWRecord without stored bytes encodes to its size")
	y, err := o.UnmarshalVuCardIWRecord(out)
	vAssert(err == nil, "VuCardIWRecord without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VuCardIWRecord without stored bytes decodes to the same fields")
	vReach("end", uint64(out[0]), uint64(out[128]))
}

//v:bounds all 129 bytes symbolic
func vh_C05_VuCardIWRecord() {
	b := vBytes("b", 129)
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	if dIW(b) {
		vAssert(err == nil, "VuCardIWRecord accepted")
	}
	if err != nil {
		vReach("refused")
		return
	}
	refIW(x, b)
	vReach("end")
}

//v:bounds all 129 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_VuCardIWRecord() {
	b := vBytes("b", 129)
	vAssume(dIW(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	vAssert(vEq(b, keep), "VuCardIWRecord decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := AppendVuCardIWRecord(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "VuCardIWRecord encoding leaves the message alone")
	vAssert(vEq(b, keep), "VuCardIWRecord encoding leaves the decoded input alone")
	n := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+136)
	buf = append(buf, p[:n]...)
	res, err := AppendVuCardIWRecord(buf, x)
	vAssert(err == nil, "VuCardIWRecord encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:n]), out...)), "VuCardIWRecord appends its encoding to the buffer")
	out2, err := AppendVuCardIWRecord(nil, x)
	vAssert(err == nil && vEq(out2, out), "VuCardIWRecord encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 129 bytes symbolic, in both the original and the new value; one field changed at a time (10 fields)
func vh_C06_VuCardIWRecord() {
	b := vBytes("b", 129)
	vAssume(dIW(b))
	a := b
	b = vBytes("new", 129)
	vAssume(dIW(b))
	c := b
	b = a
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalVuCardIWRecord(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 10)
	switch f {
	case 0:
		x.SetCardHolderName(y.GetCardHolderName())
		lo, hi = 0, 72
	case 1:
		x.SetFullCardNumber(y.GetFullCardNumber())
		lo, hi = 72, 90
	case 2:
		x.SetCardExpiryDate(y.GetCardExpiryDate())
		lo, hi = 90, 94
	case 3:
		x.SetCardInsertionTime(y.GetCardInsertionTime())
		lo, hi = 94, 98
	case 4:
		x.SetOdometerAtInsertionKm(y.GetOdometerAtInsertionKm())
		lo, hi = 98, 101
	case 5:
		x.SetCardSlotNumber(y.GetCardSlotNumber())
		lo, hi = 101, 102
	case 6:
		x.SetCardWithdrawalTime(y.GetCardWithdrawalTime())
		lo, hi = 102, 106
	case 7:
		x.SetOdometerAtWithdrawalKm(y.GetOdometerAtWithdrawalKm())
		lo, hi = 106, 109
	case 8:
		x.SetPreviousVehicleInfo(y.GetPreviousVehicleInfo())
		lo, hi = 109, 128
	case 9:
		x.SetManualInputFlag(y.GetManualInputFlag())
		lo, hi = 128, 129
	}
	out, err := AppendVuCardIWRecord(nil, x)
	vAssert(err == nil, "VuCardIWRecord encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == 129 && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "VuCardIWRecord field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "VuCardIWRecord field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all 129 bytes symbolic, in both the original and the new value; encoding after one field is changed (10 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_VuCardIWRecord_edited() {
	b := vBytes("b", 129)
	vAssume(dIW(b))
	a := b
	b = vBytes("new", 129)
	vAssume(dIW(b))
	c := b
	b = a
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	if err != nil {
		return
	}
	y, err := o.UnmarshalVuCardIWRecord(c)
	if err != nil {
		return
	}
	f := vPick("field", 10)
	switch f {
	case 0:
		x.SetCardHolderName(y.GetCardHolderName())
	case 1:
		x.SetFullCardNumber(y.GetFullCardNumber())
	case 2:
		x.SetCardExpiryDate(y.GetCardExpiryDate())
	case 3:
		x.SetCardInsertionTime(y.GetCardInsertionTime())
	case 4:
		x.SetOdometerAtInsertionKm(y.GetOdometerAtInsertionKm())
	case 5:
		x.SetCardSlotNumber(y.GetCardSlotNumber())
	case 6:
		x.SetCardWithdrawalTime(y.GetCardWithdrawalTime())
	case 7:
		x.SetOdometerAtWithdrawalKm(y.GetOdometerAtWithdrawalKm())
	case 8:
		x.SetPreviousVehicleInfo(y.GetPreviousVehicleInfo())
	case 9:
		x.SetManualInputFlag(y.GetManualInputFlag())
	}
	before := proto.Clone(x)
	out, err := AppendVuCardIWRecord(nil, x)
	vAssert(err == nil, "VuCardIWRecord encodes after a field change")
	vAssert(vSame(x, before), "VuCardIWRecord encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "VuCardIWRecord encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+136), p...)
	res, err := AppendVuCardIWRecord(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "VuCardIWRecord appends its encoding after a field change to the buffer")
	out, err = AppendVuCardIWRecord(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "VuCardIWRecord encodes the same twice after a field change")
	vReach("end", uint64(f))
}

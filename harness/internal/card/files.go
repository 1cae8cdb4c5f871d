package card

// Written by tools/gencard.py: one harness per elementary file and property.

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
)

//v:bounds all 10 bytes symbolic; values the data dictionary defines
func vh_C03_ApplicationIdentification() {
	b := vBytes("b", 10)
	vAssume(dAppId(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	vAssert(err == nil, "ApplicationIdentification accepted")
	out, err := appendCardApplicationIdentification(nil, x)
	vAssert(err == nil, "ApplicationIdentification encodes")
	vAssert(len(out) == len(b), "ApplicationIdentification encodes to its size")
	vAssert(vEq(out, b), "ApplicationIdentification round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 10 bytes symbolic
func vh_C05_EF_ApplicationIdentification() {
	b := vBytes("b", 10)
	ok := dAppId(b)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	vAssert(!ok || err == nil, "ApplicationIdentification accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refAppId(x, b)
	vReach("end")
}

//v:bounds all 10 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_ApplicationIdentification() {
	b := vBytes("b", 10)
	vAssume(dAppId(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	vAssert(vEq(b, keep), "ApplicationIdentification decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardApplicationIdentification(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "ApplicationIdentification encoding leaves the message alone")
	vAssert(vEq(b, keep), "ApplicationIdentification encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardApplicationIdentification(buf, x)
	vAssert(err == nil, "ApplicationIdentification encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "ApplicationIdentification appends its encoding to the buffer")
	out2, err := appendCardApplicationIdentification(nil, x)
	vAssert(err == nil && vEq(out2, out), "ApplicationIdentification encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 10 bytes symbolic; values the data dictionary defines
func vh_C22_ApplicationIdentification() {
	b := vBytes("b", 10)
	vAssume(dAppId(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	vAssert(err == nil, "ApplicationIdentification accepted")
	x = vStrip(x).(*cardv1.ApplicationIdentification)
	out, err := appendCardApplicationIdentification(nil, x)
	vAssert(err == nil, "ApplicationIdentification without stored bytes encodes")
	vAssert(len(out) == len(b), "ApplicationIdentification without stored bytes encodes to its size")
	y, err := o.unmarshalApplicationIdentification(out)
	vAssert(err == nil, "ApplicationIdentification without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "ApplicationIdentification without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (7 fields)
func vh_C06_EF_ApplicationIdentification() {
	b := vBytes("b", 10)
	c := vBytes("new", 10)
	vAssume(dAppId(b))
	vAssume(dAppId(c))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalApplicationIdentification(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 7)
	switch f {
	case 0:
		x.SetTypeOfTachographCardId(y.GetTypeOfTachographCardId())
		lo, hi = 0, 1
	case 1:
		x.SetCardStructureVersion(y.GetCardStructureVersion())
		lo, hi = 1, 3
	case 2:
		x.GetDriver().SetEventsPerTypeCount(y.GetDriver().GetEventsPerTypeCount())
		lo, hi = 3, 4
	case 3:
		x.GetDriver().SetFaultsPerTypeCount(y.GetDriver().GetFaultsPerTypeCount())
		lo, hi = 4, 5
	case 4:
		x.GetDriver().SetActivityStructureLength(y.GetDriver().GetActivityStructureLength())
		lo, hi = 5, 7
	case 5:
		x.GetDriver().SetCardVehicleRecordsCount(y.GetDriver().GetCardVehicleRecordsCount())
		lo, hi = 7, 9
	case 6:
		x.GetDriver().SetCardPlaceRecordsCount(y.GetDriver().GetCardPlaceRecordsCount())
		lo, hi = 9, 10
	}
	out, err := appendCardApplicationIdentification(nil, x)
	vAssert(err == nil, "ApplicationIdentification encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "ApplicationIdentification field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "ApplicationIdentification field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (7 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_ApplicationIdentification_edited() {
	b := vBytes("b", 10)
	c := vBytes("new", 10)
	vAssume(dAppId(b))
	vAssume(dAppId(c))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalApplicationIdentification(c)
	if err != nil {
		return
	}
	f := vPick("field", 7)
	switch f {
	case 0:
		x.SetTypeOfTachographCardId(y.GetTypeOfTachographCardId())
	case 1:
		x.SetCardStructureVersion(y.GetCardStructureVersion())
	case 2:
		x.GetDriver().SetEventsPerTypeCount(y.GetDriver().GetEventsPerTypeCount())
	case 3:
		x.GetDriver().SetFaultsPerTypeCount(y.GetDriver().GetFaultsPerTypeCount())
	case 4:
		x.GetDriver().SetActivityStructureLength(y.GetDriver().GetActivityStructureLength())
	case 5:
		x.GetDriver().SetCardVehicleRecordsCount(y.GetDriver().GetCardVehicleRecordsCount())
	case 6:
		x.GetDriver().SetCardPlaceRecordsCount(y.GetDriver().GetCardPlaceRecordsCount())
	}
	before := proto.Clone(x)
	out, err := appendCardApplicationIdentification(nil, x)
	vAssert(err == nil, "ApplicationIdentification encodes after a field change")
	vAssert(vSame(x, before), "ApplicationIdentification encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "ApplicationIdentification encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardApplicationIdentification(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "ApplicationIdentification appends its encoding after a field change to the buffer")
	out, err = appendCardApplicationIdentification(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "ApplicationIdentification encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 17 bytes symbolic; values the data dictionary defines
func vh_C03_ApplicationIdentificationG2() {
	b := vBytes("b", 17)
	vAssume(dAppId(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	vAssert(err == nil, "ApplicationIdentificationG2 accepted")
	out, err := appendCardApplicationIdentificationG2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationG2 encodes")
	vAssert(len(out) == len(b), "ApplicationIdentificationG2 encodes to its size")
	vAssert(vEq(out, b), "ApplicationIdentificationG2 round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 17 bytes symbolic
func vh_C05_EF_ApplicationIdentificationG2() {
	b := vBytes("b", 17)
	ok := dAppId(b)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	vAssert(!ok || err == nil, "ApplicationIdentificationG2 accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refAppIdG2(x, b)
	vReach("end")
}

//v:bounds all 17 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_ApplicationIdentificationG2() {
	b := vBytes("b", 17)
	vAssume(dAppId(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	vAssert(vEq(b, keep), "ApplicationIdentificationG2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardApplicationIdentificationG2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "ApplicationIdentificationG2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "ApplicationIdentificationG2 encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardApplicationIdentificationG2(buf, x)
	vAssert(err == nil, "ApplicationIdentificationG2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "ApplicationIdentificationG2 appends its encoding to the buffer")
	out2, err := appendCardApplicationIdentificationG2(nil, x)
	vAssert(err == nil && vEq(out2, out), "ApplicationIdentificationG2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 17 bytes symbolic; values the data dictionary defines
func vh_C22_ApplicationIdentificationG2() {
	b := vBytes("b", 17)
	vAssume(dAppId(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	vAssert(err == nil, "ApplicationIdentificationG2 accepted")
	x = vStrip(x).(*cardv1.ApplicationIdentificationG2)
	out, err := appendCardApplicationIdentificationG2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationG2 without stored bytes encodes")
	vAssert(len(out) == len(b), "ApplicationIdentificationG2 without stored bytes encodes to its size")
	y, err := o.unmarshalApplicationIdentificationG2(out)
	vAssert(err == nil, "ApplicationIdentificationG2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "ApplicationIdentificationG2 without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (10 fields)
func vh_C06_EF_ApplicationIdentificationG2() {
	b := vBytes("b", 17)
	c := vBytes("new", 17)
	vAssume(dAppId(b))
	vAssume(dAppId(c))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalApplicationIdentificationG2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 10)
	switch f {
	case 0:
		x.SetTypeOfTachographCardId(y.GetTypeOfTachographCardId())
		lo, hi = 0, 1
	case 1:
		x.SetCardStructureVersion(y.GetCardStructureVersion())
		lo, hi = 1, 3
	case 2:
		x.GetDriver().SetEventsPerTypeCount(y.GetDriver().GetEventsPerTypeCount())
		lo, hi = 3, 4
	case 3:
		x.GetDriver().SetFaultsPerTypeCount(y.GetDriver().GetFaultsPerTypeCount())
		lo, hi = 4, 5
	case 4:
		x.GetDriver().SetActivityStructureLength(y.GetDriver().GetActivityStructureLength())
		lo, hi = 5, 7
	case 5:
		x.GetDriver().SetCardVehicleRecordsCount(y.GetDriver().GetCardVehicleRecordsCount())
		lo, hi = 7, 9
	case 6:
		x.GetDriver().SetCardPlaceRecordsCount(y.GetDriver().GetCardPlaceRecordsCount())
		lo, hi = 9, 11
	case 7:
		x.GetDriver().SetGnssAdRecordsCount(y.GetDriver().GetGnssAdRecordsCount())
		lo, hi = 11, 13
	case 8:
		x.GetDriver().SetSpecificConditionRecordsCount(y.GetDriver().GetSpecificConditionRecordsCount())
		lo, hi = 13, 15
	case 9:
		x.GetDriver().SetCardVehicleUnitRecordsCount(y.GetDriver().GetCardVehicleUnitRecordsCount())
		lo, hi = 15, 17
	}
	out, err := appendCardApplicationIdentificationG2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationG2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "ApplicationIdentificationG2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "ApplicationIdentificationG2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (10 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_ApplicationIdentificationG2_edited() {
	b := vBytes("b", 17)
	c := vBytes("new", 17)
	vAssume(dAppId(b))
	vAssume(dAppId(c))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalApplicationIdentificationG2(c)
	if err != nil {
		return
	}
	f := vPick("field", 10)
	switch f {
	case 0:
		x.SetTypeOfTachographCardId(y.GetTypeOfTachographCardId())
	case 1:
		x.SetCardStructureVersion(y.GetCardStructureVersion())
	case 2:
		x.GetDriver().SetEventsPerTypeCount(y.GetDriver().GetEventsPerTypeCount())
	case 3:
		x.GetDriver().SetFaultsPerTypeCount(y.GetDriver().GetFaultsPerTypeCount())
	case 4:
		x.GetDriver().SetActivityStructureLength(y.GetDriver().GetActivityStructureLength())
	case 5:
		x.GetDriver().SetCardVehicleRecordsCount(y.GetDriver().GetCardVehicleRecordsCount())
	case 6:
		x.GetDriver().SetCardPlaceRecordsCount(y.GetDriver().GetCardPlaceRecordsCount())
	case 7:
		x.GetDriver().SetGnssAdRecordsCount(y.GetDriver().GetGnssAdRecordsCount())
	case 8:
		x.GetDriver().SetSpecificConditionRecordsCount(y.GetDriver().GetSpecificConditionRecordsCount())
	case 9:
		x.GetDriver().SetCardVehicleUnitRecordsCount(y.GetDriver().GetCardVehicleUnitRecordsCount())
	}
	before := proto.Clone(x)
	out, err := appendCardApplicationIdentificationG2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationG2 encodes after a field change")
	vAssert(vSame(x, before), "ApplicationIdentificationG2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "ApplicationIdentificationG2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardApplicationIdentificationG2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "ApplicationIdentificationG2 appends its encoding after a field change to the buffer")
	out, err = appendCardApplicationIdentificationG2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "ApplicationIdentificationG2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 10 bytes symbolic; values the data dictionary defines
func vh_C03_ApplicationIdentificationV2() {
	b := vBytes("b", 10)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	vAssert(err == nil, "ApplicationIdentificationV2 accepted")
	out, err := appendCardApplicationIdentificationV2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationV2 encodes")
	vAssert(len(out) == len(b), "ApplicationIdentificationV2 encodes to its size")
	vAssert(vEq(out, b), "ApplicationIdentificationV2 round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 10 bytes symbolic
func vh_C05_EF_ApplicationIdentificationV2() {
	b := vBytes("b", 10)
	ok := dNone(b)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	vAssert(!ok || err == nil, "ApplicationIdentificationV2 accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refAppIdV2(x, b)
	vReach("end")
}

//v:bounds all 10 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_ApplicationIdentificationV2() {
	b := vBytes("b", 10)
	vAssume(dNone(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	vAssert(vEq(b, keep), "ApplicationIdentificationV2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardApplicationIdentificationV2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "ApplicationIdentificationV2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "ApplicationIdentificationV2 encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardApplicationIdentificationV2(buf, x)
	vAssert(err == nil, "ApplicationIdentificationV2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "ApplicationIdentificationV2 appends its encoding to the buffer")
	out2, err := appendCardApplicationIdentificationV2(nil, x)
	vAssert(err == nil && vEq(out2, out), "ApplicationIdentificationV2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 10 bytes symbolic; values the data dictionary defines
func vh_C22_ApplicationIdentificationV2() {
	b := vBytes("b", 10)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	vAssert(err == nil, "ApplicationIdentificationV2 accepted")
	x = vStrip(x).(*cardv1.ApplicationIdentificationV2)
	out, err := appendCardApplicationIdentificationV2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationV2 without stored bytes encodes")
	vAssert(len(out) == len(b), "ApplicationIdentificationV2 without stored bytes encodes to its size")
	y, err := o.unmarshalApplicationIdentificationV2(out)
	vAssert(err == nil, "ApplicationIdentificationV2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "ApplicationIdentificationV2 without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (5 fields)
func vh_C06_EF_ApplicationIdentificationV2() {
	b := vBytes("b", 10)
	c := vBytes("new", 10)
	vAssume(dNone(b))
	vAssume(dNone(c))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalApplicationIdentificationV2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 5)
	switch f {
	case 0:
		x.GetDriver().SetLengthOfFollowingData(y.GetDriver().GetLengthOfFollowingData())
		lo, hi = 0, 2
	case 1:
		x.GetDriver().SetBorderCrossingRecordsCount(y.GetDriver().GetBorderCrossingRecordsCount())
		lo, hi = 2, 4
	case 2:
		x.GetDriver().SetLoadUnloadRecordsCount(y.GetDriver().GetLoadUnloadRecordsCount())
		lo, hi = 4, 6
	case 3:
		x.GetDriver().SetLoadTypeEntryRecordsCount(y.GetDriver().GetLoadTypeEntryRecordsCount())
		lo, hi = 6, 8
	case 4:
		x.GetDriver().SetVuConfigurationLengthRange(y.GetDriver().GetVuConfigurationLengthRange())
		lo, hi = 8, 10
	}
	out, err := appendCardApplicationIdentificationV2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationV2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "ApplicationIdentificationV2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "ApplicationIdentificationV2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (5 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_ApplicationIdentificationV2_edited() {
	b := vBytes("b", 10)
	c := vBytes("new", 10)
	vAssume(dNone(b))
	vAssume(dNone(c))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalApplicationIdentificationV2(c)
	if err != nil {
		return
	}
	f := vPick("field", 5)
	switch f {
	case 0:
		x.GetDriver().SetLengthOfFollowingData(y.GetDriver().GetLengthOfFollowingData())
	case 1:
		x.GetDriver().SetBorderCrossingRecordsCount(y.GetDriver().GetBorderCrossingRecordsCount())
	case 2:
		x.GetDriver().SetLoadUnloadRecordsCount(y.GetDriver().GetLoadUnloadRecordsCount())
	case 3:
		x.GetDriver().SetLoadTypeEntryRecordsCount(y.GetDriver().GetLoadTypeEntryRecordsCount())
	case 4:
		x.GetDriver().SetVuConfigurationLengthRange(y.GetDriver().GetVuConfigurationLengthRange())
	}
	before := proto.Clone(x)
	out, err := appendCardApplicationIdentificationV2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationV2 encodes after a field change")
	vAssert(vSame(x, before), "ApplicationIdentificationV2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "ApplicationIdentificationV2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardApplicationIdentificationV2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "ApplicationIdentificationV2 appends its encoding after a field change to the buffer")
	out, err = appendCardApplicationIdentificationV2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "ApplicationIdentificationV2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 4 bytes symbolic; values the data dictionary defines
func vh_C03_CardDownload() {
	b := vBytes("b", 4)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	vAssert(err == nil, "CardDownload accepted")
	out, err := appendCardDownload(nil, x)
	vAssert(err == nil, "CardDownload encodes")
	vAssert(len(out) == len(b), "CardDownload encodes to its size")
	vAssert(vEq(out, b), "CardDownload round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 4 bytes symbolic
func vh_C05_EF_CardDownload() {
	b := vBytes("b", 4)
	ok := dNone(b)
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	vAssert(!ok || err == nil, "CardDownload accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refCardDownload(x, b)
	vReach("end")
}

//v:bounds all 4 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_CardDownload() {
	b := vBytes("b", 4)
	vAssume(dNone(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	vAssert(vEq(b, keep), "CardDownload decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardDownload(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "CardDownload encoding leaves the message alone")
	vAssert(vEq(b, keep), "CardDownload encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardDownload(buf, x)
	vAssert(err == nil, "CardDownload encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "CardDownload appends its encoding to the buffer")
	out2, err := appendCardDownload(nil, x)
	vAssert(err == nil && vEq(out2, out), "CardDownload encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 4 bytes symbolic; values the data dictionary defines
func vh_C22_CardDownload() {
	b := vBytes("b", 4)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	vAssert(err == nil, "CardDownload accepted")
	x = vStrip(x).(*cardv1.CardDownloadDriver)
	out, err := appendCardDownload(nil, x)
	vAssert(err == nil, "CardDownload without stored bytes encodes")
	vAssert(len(out) == len(b), "CardDownload without stored bytes encodes to its size")
	y, err := o.unmarshalCardDownload(out)
	vAssert(err == nil, "CardDownload without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "CardDownload without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (1 fields)
func vh_C06_EF_CardDownload() {
	b := vBytes("b", 4)
	c := vBytes("new", 4)
	vAssume(dNone(b))
	vAssume(dNone(c))
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalCardDownload(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 1)
	switch f {
	case 0:
		x.SetTimestamp(y.GetTimestamp())
		lo, hi = 0, 4
	}
	out, err := appendCardDownload(nil, x)
	vAssert(err == nil, "CardDownload encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "CardDownload field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "CardDownload field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (1 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_CardDownload_edited() {
	b := vBytes("b", 4)
	c := vBytes("new", 4)
	vAssume(dNone(b))
	vAssume(dNone(c))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalCardDownload(c)
	if err != nil {
		return
	}
	f := vPick("field", 1)
	switch f {
	case 0:
		x.SetTimestamp(y.GetTimestamp())
	}
	before := proto.Clone(x)
	out, err := appendCardDownload(nil, x)
	vAssert(err == nil, "CardDownload encodes after a field change")
	vAssert(vSame(x, before), "CardDownload encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "CardDownload encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardDownload(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "CardDownload appends its encoding after a field change to the buffer")
	out, err = appendCardDownload(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "CardDownload encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 46 bytes symbolic; values the data dictionary defines
func vh_C03_ControlActivity() {
	b := vBytes("b", 46)
	vAssume(dControlActivity(b))
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	vAssert(err == nil, "ControlActivity accepted")
	out, err := appendCardControlActivityData(nil, x)
	vAssert(err == nil, "ControlActivity encodes")
	vAssert(len(out) == len(b), "ControlActivity encodes to its size")
	vAssert(vEq(out, b), "ControlActivity round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 46 bytes symbolic
func vh_C05_EF_ControlActivity() {
	b := vBytes("b", 46)
	ok := dControlActivity(b)
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	vAssert(!ok || err == nil, "ControlActivity accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refControlActivity(x, b)
	vReach("end")
}

//v:bounds all 46 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_ControlActivity() {
	b := vBytes("b", 46)
	vAssume(dControlActivity(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	vAssert(vEq(b, keep), "ControlActivity decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardControlActivityData(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "ControlActivity encoding leaves the message alone")
	vAssert(vEq(b, keep), "ControlActivity encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardControlActivityData(buf, x)
	vAssert(err == nil, "ControlActivity encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "ControlActivity appends its encoding to the buffer")
	out2, err := appendCardControlActivityData(nil, x)
	vAssert(err == nil && vEq(out2, out), "ControlActivity encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 46 bytes symbolic; values the data dictionary defines
func vh_C22_ControlActivity() {
	b := vBytes("b", 46)
	v := vPick("text", 4)
	vIa5In(b[7:23], v)
	vTextIn(b[24:38], (v+1)%4)
	vAssume(dControlActivity(b))
	vAssume(rU32(b[1:5]) != 0)
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	vAssert(err == nil, "ControlActivity accepted")
	x = vStrip(x).(*cardv1.ControlActivityData)
	out, err := appendCardControlActivityData(nil, x)
	vAssert(err == nil, "ControlActivity without stored bytes encodes")
	vAssert(len(out) == len(b), "ControlActivity without stored bytes encodes to its size")
	y, err := o.unmarshalControlActivityData(out)
	vAssert(err == nil, "ControlActivity without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "ControlActivity without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (5 fields)
func vh_C06_EF_ControlActivity() {
	b := vBytes("b", 46)
	c := vBytes("new", 46)
	vAssume(dControlActivity(b))
	vAssume(dControlActivity(c))
	vAssume(bAnd(rU32(b[1:5]) != 0, rU32(c[1:5]) != 0))
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalControlActivityData(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 5)
	switch f {
	case 0:
		x.SetControlTime(y.GetControlTime())
		lo, hi = 1, 5
	case 1:
		x.SetControlCardNumber(y.GetControlCardNumber())
		lo, hi = 5, 23
	case 2:
		x.SetControlVehicleRegistration(y.GetControlVehicleRegistration())
		lo, hi = 23, 38
	case 3:
		x.SetControlDownloadPeriodBegin(y.GetControlDownloadPeriodBegin())
		lo, hi = 38, 42
	case 4:
		x.SetControlDownloadPeriodEnd(y.GetControlDownloadPeriodEnd())
		lo, hi = 42, 46
	}
	out, err := appendCardControlActivityData(nil, x)
	vAssert(err == nil, "ControlActivity encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "ControlActivity field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "ControlActivity field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (5 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_ControlActivity_edited() {
	b := vBytes("b", 46)
	c := vBytes("new", 46)
	vAssume(dControlActivity(b))
	vAssume(dControlActivity(c))
	vAssume(bAnd(rU32(b[1:5]) != 0, rU32(c[1:5]) != 0))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalControlActivityData(c)
	if err != nil {
		return
	}
	f := vPick("field", 5)
	switch f {
	case 0:
		x.SetControlTime(y.GetControlTime())
	case 1:
		x.SetControlCardNumber(y.GetControlCardNumber())
	case 2:
		x.SetControlVehicleRegistration(y.GetControlVehicleRegistration())
	case 3:
		x.SetControlDownloadPeriodBegin(y.GetControlDownloadPeriodBegin())
	case 4:
		x.SetControlDownloadPeriodEnd(y.GetControlDownloadPeriodEnd())
	}
	before := proto.Clone(x)
	out, err := appendCardControlActivityData(nil, x)
	vAssert(err == nil, "ControlActivity encodes after a field change")
	vAssert(vSame(x, before), "ControlActivity encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "ControlActivity encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardControlActivityData(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "ControlActivity appends its encoding after a field change to the buffer")
	out, err = appendCardControlActivityData(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "ControlActivity encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 19 bytes symbolic; values the data dictionary defines
func vh_C03_CurrentUsage() {
	b := vBytes("b", 19)
	vAssume(dVRN(b[4:19]))
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	vAssert(err == nil, "CurrentUsage accepted")
	out, err := appendCurrentUsage(nil, x)
	vAssert(err == nil, "CurrentUsage encodes")
	vAssert(len(out) == len(b), "CurrentUsage encodes to its size")
	vAssert(vEq(out, b), "CurrentUsage round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 19 bytes symbolic
func vh_C05_EF_CurrentUsage() {
	b := vBytes("b", 19)
	ok := dVRN(b[4:19])
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	vAssert(!ok || err == nil, "CurrentUsage accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refCurrentUsage(x, b)
	vReach("end")
}

//v:bounds all 19 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_CurrentUsage() {
	b := vBytes("b", 19)
	vAssume(dVRN(b[4:19]))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	vAssert(vEq(b, keep), "CurrentUsage decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCurrentUsage(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "CurrentUsage encoding leaves the message alone")
	vAssert(vEq(b, keep), "CurrentUsage encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCurrentUsage(buf, x)
	vAssert(err == nil, "CurrentUsage encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "CurrentUsage appends its encoding to the buffer")
	out2, err := appendCurrentUsage(nil, x)
	vAssert(err == nil && vEq(out2, out), "CurrentUsage encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 19 bytes symbolic; values the data dictionary defines
func vh_C22_CurrentUsage() {
	b := vBytes("b", 19)
	v := vPick("text", 4)
	vTextIn(b[5:19], v)
	vAssume(dVRN(b[4:19]))
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	vAssert(err == nil, "CurrentUsage accepted")
	x = vStrip(x).(*cardv1.CurrentUsage)
	out, err := appendCurrentUsage(nil, x)
	vAssert(err == nil, "CurrentUsage without stored bytes encodes")
	vAssert(len(out) == len(b), "CurrentUsage without stored bytes encodes to its size")
	y, err := o.unmarshalCurrentUsage(out)
	vAssert(err == nil, "CurrentUsage without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "CurrentUsage without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (2 fields)
func vh_C06_EF_CurrentUsage() {
	b := vBytes("b", 19)
	c := vBytes("new", 19)
	vAssume(dVRN(b[4:19]))
	vAssume(dVRN(c[4:19]))
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalCurrentUsage(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetSessionOpenTime(y.GetSessionOpenTime())
		lo, hi = 0, 4
	case 1:
		x.SetSessionOpenVehicle(y.GetSessionOpenVehicle())
		lo, hi = 4, 19
	}
	out, err := appendCurrentUsage(nil, x)
	vAssert(err == nil, "CurrentUsage encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "CurrentUsage field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "CurrentUsage field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_CurrentUsage_edited() {
	b := vBytes("b", 19)
	c := vBytes("new", 19)
	vAssume(dVRN(b[4:19]))
	vAssume(dVRN(c[4:19]))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalCurrentUsage(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetSessionOpenTime(y.GetSessionOpenTime())
	case 1:
		x.SetSessionOpenVehicle(y.GetSessionOpenVehicle())
	}
	before := proto.Clone(x)
	out, err := appendCurrentUsage(nil, x)
	vAssert(err == nil, "CurrentUsage encodes after a field change")
	vAssert(vSame(x, before), "CurrentUsage encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "CurrentUsage encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCurrentUsage(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "CurrentUsage appends its encoding after a field change to the buffer")
	out, err = appendCurrentUsage(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "CurrentUsage encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 53 bytes symbolic; values the data dictionary defines
func vh_C03_DrivingLicence() {
	b := vBytes("b", 53)
	vAssume(dLicence(b))
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	vAssert(err == nil, "DrivingLicence accepted")
	out, err := appendDrivingLicenceInfo(nil, x)
	vAssert(err == nil, "DrivingLicence encodes")
	vAssert(len(out) == len(b), "DrivingLicence encodes to its size")
	vAssert(vEq(out, b), "DrivingLicence round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 53 bytes symbolic
func vh_C05_EF_DrivingLicence() {
	b := vBytes("b", 53)
	ok := dLicence(b)
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	vAssert(!ok || err == nil, "DrivingLicence accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refLicence(x, b)
	vReach("end")
}

//v:bounds all 53 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_DrivingLicence() {
	b := vBytes("b", 53)
	vAssume(dLicence(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	vAssert(vEq(b, keep), "DrivingLicence decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendDrivingLicenceInfo(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "DrivingLicence encoding leaves the message alone")
	vAssert(vEq(b, keep), "DrivingLicence encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendDrivingLicenceInfo(buf, x)
	vAssert(err == nil, "DrivingLicence encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "DrivingLicence appends its encoding to the buffer")
	out2, err := appendDrivingLicenceInfo(nil, x)
	vAssert(err == nil && vEq(out2, out), "DrivingLicence encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 53 bytes symbolic; values the data dictionary defines
func vh_C22_DrivingLicence() {
	b := vBytes("b", 53)
	v := vPick("text", 4)
	vTextIn(b[0:36], v)
	vIa5In(b[37:53], (v+1)%4)
	vAssume(dLicence(b))
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	vAssert(err == nil, "DrivingLicence accepted")
	x = vStrip(x).(*cardv1.DrivingLicenceInfo)
	out, err := appendDrivingLicenceInfo(nil, x)
	vAssert(err == nil, "DrivingLicence without stored bytes encodes")
	vAssert(len(out) == len(b), "DrivingLicence without stored bytes encodes to its size")
	y, err := o.unmarshalDrivingLicenceInfo(out)
	vAssert(err == nil, "DrivingLicence without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "DrivingLicence without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (3 fields)
func vh_C06_EF_DrivingLicence() {
	b := vBytes("b", 53)
	c := vBytes("new", 53)
	vAssume(dLicence(b))
	vAssume(dLicence(c))
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalDrivingLicenceInfo(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetDrivingLicenceIssuingAuthority(y.GetDrivingLicenceIssuingAuthority())
		lo, hi = 0, 36
	case 1:
		x.SetDrivingLicenceIssuingNation(y.GetDrivingLicenceIssuingNation())
		lo, hi = 36, 37
	case 2:
		x.SetDrivingLicenceNumber(y.GetDrivingLicenceNumber())
		lo, hi = 37, 53
	}
	out, err := appendDrivingLicenceInfo(nil, x)
	vAssert(err == nil, "DrivingLicence encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "DrivingLicence field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "DrivingLicence field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (3 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_DrivingLicence_edited() {
	b := vBytes("b", 53)
	c := vBytes("new", 53)
	vAssume(dLicence(b))
	vAssume(dLicence(c))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalDrivingLicenceInfo(c)
	if err != nil {
		return
	}
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetDrivingLicenceIssuingAuthority(y.GetDrivingLicenceIssuingAuthority())
	case 1:
		x.SetDrivingLicenceIssuingNation(y.GetDrivingLicenceIssuingNation())
	case 2:
		x.SetDrivingLicenceNumber(y.GetDrivingLicenceNumber())
	}
	before := proto.Clone(x)
	out, err := appendDrivingLicenceInfo(nil, x)
	vAssert(err == nil, "DrivingLicence encodes after a field change")
	vAssert(vSame(x, before), "DrivingLicence encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "DrivingLicence encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendDrivingLicenceInfo(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "DrivingLicence appends its encoding after a field change to the buffer")
	out, err = appendDrivingLicenceInfo(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "DrivingLicence encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 8 bytes symbolic; values the data dictionary defines
func vh_C03_Ic() {
	b := vBytes("b", 8)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	vAssert(err == nil, "Ic accepted")
	out, err := appendCardIc(nil, x)
	vAssert(err == nil, "Ic encodes")
	vAssert(len(out) == len(b), "Ic encodes to its size")
	vAssert(vEq(out, b), "Ic round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 8 bytes symbolic
func vh_C05_EF_Ic() {
	b := vBytes("b", 8)
	ok := dNone(b)
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	vAssert(!ok || err == nil, "Ic accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refIc(x, b)
	vReach("end")
}

//v:bounds all 8 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_Ic() {
	b := vBytes("b", 8)
	vAssume(dNone(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	vAssert(vEq(b, keep), "Ic decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardIc(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "Ic encoding leaves the message alone")
	vAssert(vEq(b, keep), "Ic encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardIc(buf, x)
	vAssert(err == nil, "Ic encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "Ic appends its encoding to the buffer")
	out2, err := appendCardIc(nil, x)
	vAssert(err == nil && vEq(out2, out), "Ic encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 8 bytes symbolic; values the data dictionary defines
func vh_C22_Ic() {
	b := vBytes("b", 8)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	vAssert(err == nil, "Ic accepted")
	x = vStrip(x).(*cardv1.Ic)
	out, err := appendCardIc(nil, x)
	vAssert(err == nil, "Ic without stored bytes encodes")
	vAssert(len(out) == len(b), "Ic without stored bytes encodes to its size")
	y, err := o.unmarshalIc(out)
	vAssert(err == nil, "Ic without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Ic without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (2 fields)
func vh_C06_EF_Ic() {
	b := vBytes("b", 8)
	c := vBytes("new", 8)
	vAssume(dNone(b))
	vAssume(dNone(c))
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalIc(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetIcSerialNumber(y.GetIcSerialNumber())
		lo, hi = 0, 4
	case 1:
		x.SetIcManufacturingReferences(y.GetIcManufacturingReferences())
		lo, hi = 4, 8
	}
	out, err := appendCardIc(nil, x)
	vAssert(err == nil, "Ic encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "Ic field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "Ic field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_Ic_edited() {
	b := vBytes("b", 8)
	c := vBytes("new", 8)
	vAssume(dNone(b))
	vAssume(dNone(c))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalIc(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.SetIcSerialNumber(y.GetIcSerialNumber())
	case 1:
		x.SetIcManufacturingReferences(y.GetIcManufacturingReferences())
	}
	before := proto.Clone(x)
	out, err := appendCardIc(nil, x)
	vAssert(err == nil, "Ic encodes after a field change")
	vAssert(vSame(x, before), "Ic encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "Ic encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardIc(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "Ic appends its encoding after a field change to the buffer")
	out, err = appendCardIc(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "Ic encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds all 25 bytes symbolic; values the data dictionary defines
func vh_C03_Icc() {
	b := vBytes("b", 25)
	vAssume(dIcc(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	vAssert(err == nil, "Icc accepted")
	out, err := appendIcc(nil, x)
	vAssert(err == nil, "Icc encodes")
	vAssert(len(out) == len(b), "Icc encodes to its size")
	vAssert(vEq(out, b), "Icc round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds all 25 bytes symbolic
func vh_C05_EF_Icc() {
	b := vBytes("b", 25)
	ok := dIcc(b)
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	vAssert(!ok || err == nil, "Icc accepted")
	if err != nil {
		vReach("refused")
		return
	}
	refIcc(x, b)
	vReach("end")
}

//v:bounds all 25 bytes symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_Icc() {
	b := vBytes("b", 25)
	vAssume(dIcc(b))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	vAssert(vEq(b, keep), "Icc decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendIcc(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "Icc encoding leaves the message alone")
	vAssert(vEq(b, keep), "Icc encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendIcc(buf, x)
	vAssert(err == nil, "Icc encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "Icc appends its encoding to the buffer")
	out2, err := appendIcc(nil, x)
	vAssert(err == nil && vEq(out2, out), "Icc encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds all 25 bytes symbolic; values the data dictionary defines
func vh_C22_Icc() {
	b := vBytes("b", 25)
	v := vPick("text", 4)
	vIa5In(b[9:17], v)
	vIa5In(b[18:20], (v+1)%4)
	vIa5In(b[20:22], v)
	vAssume(dIcc(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	vAssert(err == nil, "Icc accepted")
	x = vStrip(x).(*cardv1.Icc)
	out, err := appendIcc(nil, x)
	vAssert(err == nil, "Icc without stored bytes encodes")
	vAssert(len(out) == len(b), "Icc without stored bytes encodes to its size")
	y, err := o.unmarshalIcc(out)
	vAssert(err == nil, "Icc without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Icc without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds all bytes symbolic, original and new values symbolic; one field changed at a time (9 fields)
func vh_C06_EF_Icc() {
	b := vBytes("b", 25)
	c := vBytes("new", 25)
	vAssume(dIcc(b))
	vAssume(dIcc(c))
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalIcc(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 9)
	switch f {
	case 0:
		x.SetClockStop(y.GetClockStop())
		lo, hi = 0, 1
	case 1:
		x.SetCardExtendedSerialNumber(y.GetCardExtendedSerialNumber())
		lo, hi = 1, 9
	case 2:
		x.SetCardApprovalNumber(y.GetCardApprovalNumber())
		lo, hi = 9, 17
	case 3:
		x.SetCardPersonaliserId(y.GetCardPersonaliserId())
		lo, hi = 17, 18
	case 4:
		x.SetEmbedderIcAssemblerId(y.GetEmbedderIcAssemblerId())
		lo, hi = 18, 23
	case 5:
		x.SetIcIdentifier(y.GetIcIdentifier())
		lo, hi = 23, 25
	case 6:
		x.GetEmbedderIcAssemblerId().SetCountryCode(y.GetEmbedderIcAssemblerId().GetCountryCode())
		lo, hi = 18, 20
	case 7:
		x.GetEmbedderIcAssemblerId().SetModuleEmbedder(y.GetEmbedderIcAssemblerId().GetModuleEmbedder())
		lo, hi = 20, 22
	case 8:
		x.GetEmbedderIcAssemblerId().SetManufacturerInformation(y.GetEmbedderIcAssemblerId().GetManufacturerInformation())
		lo, hi = 22, 23
	}
	out, err := appendIcc(nil, x)
	vAssert(err == nil, "Icc encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "Icc field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "Icc field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds all bytes symbolic, original and new values symbolic; encoding after one field is changed (9 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_Icc_edited() {
	b := vBytes("b", 25)
	c := vBytes("new", 25)
	vAssume(dIcc(b))
	vAssume(dIcc(c))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalIcc(c)
	if err != nil {
		return
	}
	f := vPick("field", 9)
	switch f {
	case 0:
		x.SetClockStop(y.GetClockStop())
	case 1:
		x.SetCardExtendedSerialNumber(y.GetCardExtendedSerialNumber())
	case 2:
		x.SetCardApprovalNumber(y.GetCardApprovalNumber())
	case 3:
		x.SetCardPersonaliserId(y.GetCardPersonaliserId())
	case 4:
		x.SetEmbedderIcAssemblerId(y.GetEmbedderIcAssemblerId())
	case 5:
		x.SetIcIdentifier(y.GetIcIdentifier())
	case 6:
		x.GetEmbedderIcAssemblerId().SetCountryCode(y.GetEmbedderIcAssemblerId().GetCountryCode())
	case 7:
		x.GetEmbedderIcAssemblerId().SetModuleEmbedder(y.GetEmbedderIcAssemblerId().GetModuleEmbedder())
	case 8:
		x.GetEmbedderIcAssemblerId().SetManufacturerInformation(y.GetEmbedderIcAssemblerId().GetManufacturerInformation())
	}
	before := proto.Clone(x)
	out, err := appendIcc(nil, x)
	vAssert(err == nil, "Icc encodes after a field change")
	vAssert(vSame(x, before), "Icc encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "Icc encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendIcc(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "Icc appends its encoding after a field change to the buffer")
	out, err = appendIcc(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "Icc encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_Events() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events accepted")
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events encodes")
	vAssert(len(out) == len(b), "Events encodes to its size")
	vAssert(vEq(out, b), "Events round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic
func vh_C05_EF_Events() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 72)[:0+n*24]
	ok := dEach(b, 0, 24, dEvent)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(!ok || err == nil, "Events accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(x.GetEvents()) == n, "EventsData record count")
	for i, r := range x.GetEvents() {
		refEvent(r, b[24*i:24*i+24])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_Events() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(vEq(b, keep), "Events decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendEventsData(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "Events encoding leaves the message alone")
	vAssert(vEq(b, keep), "Events encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendEventsData(buf, x)
	vAssert(err == nil, "Events encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "Events appends its encoding to the buffer")
	out2, err := appendEventsData(nil, x)
	vAssert(err == nil && vEq(out2, out), "Events encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic except texts, one of four each; values the data dictionary defines
func vh_C22_Events() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 72)[:0+n*24]
	v := vPick("text", 4)
	for i := 0; i < n; i++ {
		vTextIn(b[0+i*24+10:0+i*24+24], (v+i)%4)
	}
	vAssume(dEach(b, 0, 24, dEvent))
	for i := 0; i < n; i++ {
		vAssume(rU32(b[24*i+1:24*i+5]) != 0)
	}
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events accepted")
	x = vStrip(x).(*cardv1.EventsData)
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events without stored bytes encodes")
	vAssert(len(out) == len(b), "Events without stored bytes encodes to its size")
	y, err := o.unmarshalEventsData(out)
	vAssert(err == nil, "Events without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Events without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic except texts, one of four each; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_Events_records() {
	b := vBytes("b", 0+2*24)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[0+i*24+10:0+i*24+24], (v+i)%4)
	}
	vAssume(dEach(b, 0, 24, dEvent))
	for i := 0; i < 2; i++ {
		vAssume(rU32(b[24*i+1:24*i+5]) != 0)
	}
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events accepted")
	rs := x.GetEvents()
	vAssert(len(rs) == 2, "Events record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetEvents(rs[:1])
	case 1:
		x.SetEvents(rs[1:])
	case 2:
		x.SetEvents(append(rs[:2:2], proto.Clone(rs[0]).(*cardv1.EventsData_Record)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetEvents(nil)
	}
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events with other records encodes")
	y, err := o.unmarshalEventsData(out)
	vAssert(err == nil, "Events with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "Events decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (4 fields)
func vh_C06_EF_Events() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 72)[:0+n*24]
	c := vBytes("new", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(dEach(c, 0, 24, dEvent))
	vAssume(bAnd(rU32(b[24*k+1:24*k+5]) != 0, rU32(c[24*k+1:24*k+5]) != 0))
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalEventsData(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 4)
	switch f {
	case 0:
		x.GetEvents()[k].SetEventType(y.GetEvents()[k].GetEventType())
		lo, hi = 0+k*24+0, 0+k*24+1
	case 1:
		x.GetEvents()[k].SetEventBeginTime(y.GetEvents()[k].GetEventBeginTime())
		lo, hi = 0+k*24+1, 0+k*24+5
	case 2:
		x.GetEvents()[k].SetEventEndTime(y.GetEvents()[k].GetEventEndTime())
		lo, hi = 0+k*24+5, 0+k*24+9
	case 3:
		x.GetEvents()[k].SetEventVehicleRegistration(y.GetEvents()[k].GetEventVehicleRegistration())
		lo, hi = 0+k*24+9, 0+k*24+24
	}
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "Events field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "Events field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (4 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_Events_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 72)[:0+n*24]
	c := vBytes("new", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(dEach(c, 0, 24, dEvent))
	vAssume(bAnd(rU32(b[24*k+1:24*k+5]) != 0, rU32(c[24*k+1:24*k+5]) != 0))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalEventsData(c)
	if err != nil {
		return
	}
	f := vPick("field", 4)
	switch f {
	case 0:
		x.GetEvents()[k].SetEventType(y.GetEvents()[k].GetEventType())
	case 1:
		x.GetEvents()[k].SetEventBeginTime(y.GetEvents()[k].GetEventBeginTime())
	case 2:
		x.GetEvents()[k].SetEventEndTime(y.GetEvents()[k].GetEventEndTime())
	case 3:
		x.GetEvents()[k].SetEventVehicleRegistration(y.GetEvents()[k].GetEventVehicleRegistration())
	}
	before := proto.Clone(x)
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events encodes after a field change")
	vAssert(vSame(x, before), "Events encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "Events encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendEventsData(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "Events appends its encoding after a field change to the buffer")
	out, err = appendEventsData(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "Events encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_Faults() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults accepted")
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults encodes")
	vAssert(len(out) == len(b), "Faults encodes to its size")
	vAssert(vEq(out, b), "Faults round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic
func vh_C05_EF_Faults() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 72)[:0+n*24]
	ok := dEach(b, 0, 24, dEvent)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(!ok || err == nil, "Faults accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(x.GetFaults()) == n, "FaultsData record count")
	for i, r := range x.GetFaults() {
		refFault(r, b[24*i:24*i+24])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_Faults() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(vEq(b, keep), "Faults decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendFaultsData(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "Faults encoding leaves the message alone")
	vAssert(vEq(b, keep), "Faults encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendFaultsData(buf, x)
	vAssert(err == nil, "Faults encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "Faults appends its encoding to the buffer")
	out2, err := appendFaultsData(nil, x)
	vAssert(err == nil && vEq(out2, out), "Faults encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 24 bytes, every byte symbolic except texts, one of four each; values the data dictionary defines
func vh_C22_Faults() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 72)[:0+n*24]
	v := vPick("text", 4)
	for i := 0; i < n; i++ {
		vTextIn(b[0+i*24+10:0+i*24+24], (v+i)%4)
	}
	vAssume(dEach(b, 0, 24, dEvent))
	for i := 0; i < n; i++ {
		vAssume(rU32(b[24*i+1:24*i+5]) != 0)
	}
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults accepted")
	x = vStrip(x).(*cardv1.FaultsData)
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults without stored bytes encodes")
	vAssert(len(out) == len(b), "Faults without stored bytes encodes to its size")
	y, err := o.unmarshalFaultsData(out)
	vAssert(err == nil, "Faults without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Faults without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic except texts, one of four each; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_Faults_records() {
	b := vBytes("b", 0+2*24)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[0+i*24+10:0+i*24+24], (v+i)%4)
	}
	vAssume(dEach(b, 0, 24, dEvent))
	for i := 0; i < 2; i++ {
		vAssume(rU32(b[24*i+1:24*i+5]) != 0)
	}
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults accepted")
	rs := x.GetFaults()
	vAssert(len(rs) == 2, "Faults record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetFaults(rs[:1])
	case 1:
		x.SetFaults(rs[1:])
	case 2:
		x.SetFaults(append(rs[:2:2], proto.Clone(rs[0]).(*cardv1.FaultsData_Record)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetFaults(nil)
	}
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults with other records encodes")
	y, err := o.unmarshalFaultsData(out)
	vAssert(err == nil, "Faults with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "Faults decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (4 fields)
func vh_C06_EF_Faults() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 72)[:0+n*24]
	c := vBytes("new", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(dEach(c, 0, 24, dEvent))
	vAssume(bAnd(rU32(b[24*k+1:24*k+5]) != 0, rU32(c[24*k+1:24*k+5]) != 0))
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalFaultsData(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 4)
	switch f {
	case 0:
		x.GetFaults()[k].SetFaultType(y.GetFaults()[k].GetFaultType())
		lo, hi = 0+k*24+0, 0+k*24+1
	case 1:
		x.GetFaults()[k].SetFaultBeginTime(y.GetFaults()[k].GetFaultBeginTime())
		lo, hi = 0+k*24+1, 0+k*24+5
	case 2:
		x.GetFaults()[k].SetFaultEndTime(y.GetFaults()[k].GetFaultEndTime())
		lo, hi = 0+k*24+5, 0+k*24+9
	case 3:
		x.GetFaults()[k].SetFaultVehicleRegistration(y.GetFaults()[k].GetFaultVehicleRegistration())
		lo, hi = 0+k*24+9, 0+k*24+24
	}
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "Faults field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "Faults field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (4 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_Faults_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 72)[:0+n*24]
	c := vBytes("new", 72)[:0+n*24]
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(dEach(c, 0, 24, dEvent))
	vAssume(bAnd(rU32(b[24*k+1:24*k+5]) != 0, rU32(c[24*k+1:24*k+5]) != 0))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalFaultsData(c)
	if err != nil {
		return
	}
	f := vPick("field", 4)
	switch f {
	case 0:
		x.GetFaults()[k].SetFaultType(y.GetFaults()[k].GetFaultType())
	case 1:
		x.GetFaults()[k].SetFaultBeginTime(y.GetFaults()[k].GetFaultBeginTime())
	case 2:
		x.GetFaults()[k].SetFaultEndTime(y.GetFaults()[k].GetFaultEndTime())
	case 3:
		x.GetFaults()[k].SetFaultVehicleRegistration(y.GetFaults()[k].GetFaultVehicleRegistration())
	}
	before := proto.Clone(x)
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults encodes after a field change")
	vAssert(vSame(x, before), "Faults encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "Faults encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendFaultsData(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "Faults appends its encoding after a field change to the buffer")
	out, err = appendFaultsData(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "Faults encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 31 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_VehiclesUsed() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 95)[:2+n*31]
	vAssume(dEach(b, 2, 31, dCardVehicle))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed accepted")
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed encodes")
	vAssert(len(out) == len(b), "VehiclesUsed encodes to its size")
	vAssert(vEq(out, b), "VehiclesUsed round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 31 bytes, every byte symbolic
func vh_C05_EF_VehiclesUsed() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 95)[:2+n*31]
	ok := dEach(b, 2, 31, dCardVehicle)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(!ok || err == nil, "VehiclesUsed accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(uint32(x.GetNewestRecordIndex()) == rU16(b), "VehiclesUsed.newest_record_index")
	vAssert(len(x.GetRecords()) == n, "VehiclesUsed record count")
	for i, r := range x.GetRecords() {
		refCardVehicle(r, b[2+31*i:2+31*i+31])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 31 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_VehiclesUsed() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 95)[:2+n*31]
	vAssume(dEach(b, 2, 31, dCardVehicle))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(vEq(b, keep), "VehiclesUsed decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendVehiclesUsed(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "VehiclesUsed encoding leaves the message alone")
	vAssert(vEq(b, keep), "VehiclesUsed encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendVehiclesUsed(buf, x)
	vAssert(err == nil, "VehiclesUsed encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "VehiclesUsed appends its encoding to the buffer")
	out2, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil && vEq(out2, out), "VehiclesUsed encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 31 bytes, every byte symbolic except texts, one of four each; values the data dictionary defines
func vh_C22_VehiclesUsed() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 95)[:2+n*31]
	v := vPick("text", 4)
	for i := 0; i < n; i++ {
		vTextIn(b[2+i*31+15:2+i*31+29], (v+i)%4)
	}
	vAssume(dEach(b, 2, 31, dCardVehicle))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed accepted")
	x = vStrip(x).(*cardv1.VehiclesUsed)
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed without stored bytes encodes")
	vAssert(len(out) == len(b), "VehiclesUsed without stored bytes encodes to its size")
	y, err := o.unmarshalVehiclesUsed(out)
	vAssert(err == nil, "VehiclesUsed without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VehiclesUsed without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic except texts, one of four each; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_VehiclesUsed_records() {
	b := vBytes("b", 2+2*31)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[2+i*31+15:2+i*31+29], (v+i)%4)
	}
	vAssume(dEach(b, 2, 31, dCardVehicle))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "VehiclesUsed record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*ddv1.CardVehicleRecord)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed with other records encodes")
	y, err := o.unmarshalVehiclesUsed(out)
	vAssert(err == nil, "VehiclesUsed with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "VehiclesUsed decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 record (thorough: 2), original and new values symbolic; one field changed at a time (7 fields)
func vh_C06_EF_VehiclesUsed() {
	n := vPick("n", 1+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 95)[:2+n*31]
	c := vBytes("new", 95)[:2+n*31]
	vAssume(dEach(b, 2, 31, dCardVehicle))
	vAssume(dEach(c, 2, 31, dCardVehicle))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalVehiclesUsed(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 7)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
		lo, hi = 0, 2
	case 1:
		x.GetRecords()[k].SetVehicleOdometerBeginKm(y.GetRecords()[k].GetVehicleOdometerBeginKm())
		lo, hi = 2+k*31+0, 2+k*31+3
	case 2:
		x.GetRecords()[k].SetVehicleOdometerEndKm(y.GetRecords()[k].GetVehicleOdometerEndKm())
		lo, hi = 2+k*31+3, 2+k*31+6
	case 3:
		x.GetRecords()[k].SetVehicleFirstUse(y.GetRecords()[k].GetVehicleFirstUse())
		lo, hi = 2+k*31+6, 2+k*31+10
	case 4:
		x.GetRecords()[k].SetVehicleLastUse(y.GetRecords()[k].GetVehicleLastUse())
		lo, hi = 2+k*31+10, 2+k*31+14
	case 5:
		x.GetRecords()[k].SetVehicleRegistration(y.GetRecords()[k].GetVehicleRegistration())
		lo, hi = 2+k*31+14, 2+k*31+29
	case 6:
		x.GetRecords()[k].SetVuDataBlockCounter(y.GetRecords()[k].GetVuDataBlockCounter())
		lo, hi = 2+k*31+29, 2+k*31+31
	}
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "VehiclesUsed field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "VehiclesUsed field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 record (thorough: 2), original and new values symbolic; encoding after one field is changed (7 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_VehiclesUsed_edited() {
	n := vPick("n", 1+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 95)[:2+n*31]
	c := vBytes("new", 95)[:2+n*31]
	vAssume(dEach(b, 2, 31, dCardVehicle))
	vAssume(dEach(c, 2, 31, dCardVehicle))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalVehiclesUsed(c)
	if err != nil {
		return
	}
	f := vPick("field", 7)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
	case 1:
		x.GetRecords()[k].SetVehicleOdometerBeginKm(y.GetRecords()[k].GetVehicleOdometerBeginKm())
	case 2:
		x.GetRecords()[k].SetVehicleOdometerEndKm(y.GetRecords()[k].GetVehicleOdometerEndKm())
	case 3:
		x.GetRecords()[k].SetVehicleFirstUse(y.GetRecords()[k].GetVehicleFirstUse())
	case 4:
		x.GetRecords()[k].SetVehicleLastUse(y.GetRecords()[k].GetVehicleLastUse())
	case 5:
		x.GetRecords()[k].SetVehicleRegistration(y.GetRecords()[k].GetVehicleRegistration())
	case 6:
		x.GetRecords()[k].SetVuDataBlockCounter(y.GetRecords()[k].GetVuDataBlockCounter())
	}
	before := proto.Clone(x)
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed encodes after a field change")
	vAssert(vSame(x, before), "VehiclesUsed encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "VehiclesUsed encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendVehiclesUsed(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "VehiclesUsed appends its encoding after a field change to the buffer")
	out, err = appendVehiclesUsed(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "VehiclesUsed encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 48 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_VehiclesUsedG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 146)[:2+n*48]
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 accepted")
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 encodes")
	vAssert(len(out) == len(b), "VehiclesUsedG2 encodes to its size")
	vAssert(vEq(out, b), "VehiclesUsedG2 round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 48 bytes, every byte symbolic
func vh_C05_EF_VehiclesUsedG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 146)[:2+n*48]
	ok := dEach(b, 2, 48, dCardVehicleG2)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(!ok || err == nil, "VehiclesUsedG2 accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(uint32(x.GetNewestRecordIndex()) == rU16(b), "VehiclesUsedG2.newest_record_index")
	vAssert(len(x.GetRecords()) == n, "VehiclesUsedG2 record count")
	for i, r := range x.GetRecords() {
		refCardVehicleG2(r, b[2+48*i:2+48*i+48])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 48 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_VehiclesUsedG2() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 146)[:2+n*48]
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(vEq(b, keep), "VehiclesUsedG2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendVehiclesUsedG2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "VehiclesUsedG2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "VehiclesUsedG2 encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendVehiclesUsedG2(buf, x)
	vAssert(err == nil, "VehiclesUsedG2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "VehiclesUsedG2 appends its encoding to the buffer")
	out2, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil && vEq(out2, out), "VehiclesUsedG2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 48 bytes, every byte symbolic except texts, one of four each; values the data dictionary defines
func vh_C22_VehiclesUsedG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 146)[:2+n*48]
	v := vPick("text", 4)
	for i := 0; i < n; i++ {
		vTextIn(b[2+i*48+15:2+i*48+29], (v+i)%4)
		vIa5In(b[2+i*48+31:2+i*48+48], (v+1)%4)
	}
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 accepted")
	x = vStrip(x).(*cardv1.VehiclesUsedG2)
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 without stored bytes encodes")
	vAssert(len(out) == len(b), "VehiclesUsedG2 without stored bytes encodes to its size")
	y, err := o.unmarshalVehiclesUsedG2(out)
	vAssert(err == nil, "VehiclesUsedG2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VehiclesUsedG2 without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic except texts, one of four each; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_VehiclesUsedG2_records() {
	b := vBytes("b", 2+2*48)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[2+i*48+15:2+i*48+29], (v+i)%4)
		vIa5In(b[2+i*48+31:2+i*48+48], (v+1)%4)
	}
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "VehiclesUsedG2 record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*ddv1.CardVehicleRecordG2)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 with other records encodes")
	y, err := o.unmarshalVehiclesUsedG2(out)
	vAssert(err == nil, "VehiclesUsedG2 with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "VehiclesUsedG2 decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 record (thorough: 2), original and new values symbolic; one field changed at a time (8 fields)
func vh_C06_EF_VehiclesUsedG2() {
	n := vPick("n", 1+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 146)[:2+n*48]
	c := vBytes("new", 146)[:2+n*48]
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	vAssume(dEach(c, 2, 48, dCardVehicleG2))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalVehiclesUsedG2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 8)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
		lo, hi = 0, 2
	case 1:
		x.GetRecords()[k].SetVehicleOdometerBeginKm(y.GetRecords()[k].GetVehicleOdometerBeginKm())
		lo, hi = 2+k*48+0, 2+k*48+3
	case 2:
		x.GetRecords()[k].SetVehicleOdometerEndKm(y.GetRecords()[k].GetVehicleOdometerEndKm())
		lo, hi = 2+k*48+3, 2+k*48+6
	case 3:
		x.GetRecords()[k].SetVehicleFirstUse(y.GetRecords()[k].GetVehicleFirstUse())
		lo, hi = 2+k*48+6, 2+k*48+10
	case 4:
		x.GetRecords()[k].SetVehicleLastUse(y.GetRecords()[k].GetVehicleLastUse())
		lo, hi = 2+k*48+10, 2+k*48+14
	case 5:
		x.GetRecords()[k].SetVehicleRegistration(y.GetRecords()[k].GetVehicleRegistration())
		lo, hi = 2+k*48+14, 2+k*48+29
	case 6:
		x.GetRecords()[k].SetVuDataBlockCounter(y.GetRecords()[k].GetVuDataBlockCounter())
		lo, hi = 2+k*48+29, 2+k*48+31
	case 7:
		x.GetRecords()[k].SetVehicleIdentificationNumber(y.GetRecords()[k].GetVehicleIdentificationNumber())
		lo, hi = 2+k*48+31, 2+k*48+48
	}
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "VehiclesUsedG2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "VehiclesUsedG2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 record (thorough: 2), original and new values symbolic; encoding after one field is changed (8 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_VehiclesUsedG2_edited() {
	n := vPick("n", 1+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 146)[:2+n*48]
	c := vBytes("new", 146)[:2+n*48]
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	vAssume(dEach(c, 2, 48, dCardVehicleG2))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalVehiclesUsedG2(c)
	if err != nil {
		return
	}
	f := vPick("field", 8)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
	case 1:
		x.GetRecords()[k].SetVehicleOdometerBeginKm(y.GetRecords()[k].GetVehicleOdometerBeginKm())
	case 2:
		x.GetRecords()[k].SetVehicleOdometerEndKm(y.GetRecords()[k].GetVehicleOdometerEndKm())
	case 3:
		x.GetRecords()[k].SetVehicleFirstUse(y.GetRecords()[k].GetVehicleFirstUse())
	case 4:
		x.GetRecords()[k].SetVehicleLastUse(y.GetRecords()[k].GetVehicleLastUse())
	case 5:
		x.GetRecords()[k].SetVehicleRegistration(y.GetRecords()[k].GetVehicleRegistration())
	case 6:
		x.GetRecords()[k].SetVuDataBlockCounter(y.GetRecords()[k].GetVuDataBlockCounter())
	case 7:
		x.GetRecords()[k].SetVehicleIdentificationNumber(y.GetRecords()[k].GetVehicleIdentificationNumber())
	}
	before := proto.Clone(x)
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 encodes after a field change")
	vAssert(vSame(x, before), "VehiclesUsedG2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "VehiclesUsedG2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendVehiclesUsedG2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "VehiclesUsedG2 appends its encoding after a field change to the buffer")
	out, err = appendVehiclesUsedG2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "VehiclesUsedG2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_Places() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 31)[:1+n*10]
	vAssume(dEach(b, 1, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places accepted")
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places encodes")
	vAssert(len(out) == len(b), "Places encodes to its size")
	vAssert(vEq(out, b), "Places round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic
func vh_C05_EF_Places() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 31)[:1+n*10]
	ok := dEach(b, 1, 10, dNone)
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(!ok || err == nil, "Places accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(x.GetNewestRecordIndex() == int32(b[0]), "Places.newest_record_index")
	vAssert(len(x.GetRecords()) == n, "Places record count")
	for i, r := range x.GetRecords() {
		refPlace(r, b[1+10*i:1+10*i+10])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_Places() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 31)[:1+n*10]
	vAssume(dEach(b, 1, 10, dNone))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(vEq(b, keep), "Places decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendPlaces(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "Places encoding leaves the message alone")
	vAssert(vEq(b, keep), "Places encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendPlaces(buf, x)
	vAssert(err == nil, "Places encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "Places appends its encoding to the buffer")
	out2, err := appendPlaces(nil, x)
	vAssert(err == nil && vEq(out2, out), "Places encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic; values the data dictionary defines
func vh_C22_Places() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 31)[:1+n*10]
	vAssume(dEach(b, 1, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places accepted")
	x = vStrip(x).(*cardv1.Places)
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places without stored bytes encodes")
	vAssert(len(out) == len(b), "Places without stored bytes encodes to its size")
	y, err := o.unmarshalPlaces(out)
	vAssert(err == nil, "Places without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "Places without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_Places_records() {
	b := vBytes("b", 1+2*10)
	vAssume(dEach(b, 1, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "Places record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*ddv1.PlaceRecord)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places with other records encodes")
	y, err := o.unmarshalPlaces(out)
	vAssert(err == nil, "Places with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "Places decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (6 fields)
func vh_C06_EF_Places() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 31)[:1+n*10]
	c := vBytes("new", 31)[:1+n*10]
	vAssume(dEach(b, 1, 10, dNone))
	vAssume(dEach(c, 1, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalPlaces(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 6)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
		lo, hi = 0, 1
	case 1:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
		lo, hi = 1+k*10+0, 1+k*10+4
	case 2:
		x.GetRecords()[k].SetEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetEntryTypeDailyWorkPeriod()); x.GetRecords()[k].SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetUnrecognizedEntryTypeDailyWorkPeriod())
		lo, hi = 1+k*10+4, 1+k*10+5
	case 3:
		x.GetRecords()[k].SetDailyWorkPeriodCountry(y.GetRecords()[k].GetDailyWorkPeriodCountry()); x.GetRecords()[k].SetUnrecognizedDailyWorkPeriodCountry(y.GetRecords()[k].GetUnrecognizedDailyWorkPeriodCountry())
		lo, hi = 1+k*10+5, 1+k*10+6
	case 4:
		x.GetRecords()[k].SetDailyWorkPeriodRegion(y.GetRecords()[k].GetDailyWorkPeriodRegion())
		lo, hi = 1+k*10+6, 1+k*10+7
	case 5:
		x.GetRecords()[k].SetVehicleOdometerKm(y.GetRecords()[k].GetVehicleOdometerKm())
		lo, hi = 1+k*10+7, 1+k*10+10
	}
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "Places field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "Places field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (6 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_Places_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 31)[:1+n*10]
	c := vBytes("new", 31)[:1+n*10]
	vAssume(dEach(b, 1, 10, dNone))
	vAssume(dEach(c, 1, 10, dNone))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalPlaces(c)
	if err != nil {
		return
	}
	f := vPick("field", 6)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
	case 1:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
	case 2:
		x.GetRecords()[k].SetEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetEntryTypeDailyWorkPeriod()); x.GetRecords()[k].SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetUnrecognizedEntryTypeDailyWorkPeriod())
	case 3:
		x.GetRecords()[k].SetDailyWorkPeriodCountry(y.GetRecords()[k].GetDailyWorkPeriodCountry()); x.GetRecords()[k].SetUnrecognizedDailyWorkPeriodCountry(y.GetRecords()[k].GetUnrecognizedDailyWorkPeriodCountry())
	case 4:
		x.GetRecords()[k].SetDailyWorkPeriodRegion(y.GetRecords()[k].GetDailyWorkPeriodRegion())
	case 5:
		x.GetRecords()[k].SetVehicleOdometerKm(y.GetRecords()[k].GetVehicleOdometerKm())
	}
	before := proto.Clone(x)
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places encodes after a field change")
	vAssert(vSame(x, before), "Places encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "Places encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendPlaces(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "Places appends its encoding after a field change to the buffer")
	out, err = appendPlaces(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "Places encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 21 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_PlacesG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 65)[:2+n*21]
	vAssume(dEach(b, 2, 21, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 accepted")
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 encodes")
	vAssert(len(out) == len(b), "PlacesG2 encodes to its size")
	vAssert(vEq(out, b), "PlacesG2 round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 21 bytes, every byte symbolic
func vh_C05_EF_PlacesG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 65)[:2+n*21]
	ok := dEach(b, 2, 21, dNone)
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(!ok || err == nil, "PlacesG2 accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(uint32(x.GetNewestRecordIndex()) == rU16(b), "PlacesG2.newest_record_index")
	vAssert(len(x.GetRecords()) == n, "PlacesG2 record count")
	for i, r := range x.GetRecords() {
		refPlaceG2(r, b[2+21*i:2+21*i+21])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 21 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_PlacesG2() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 65)[:2+n*21]
	vAssume(dEach(b, 2, 21, dNone))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(vEq(b, keep), "PlacesG2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendPlacesG2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "PlacesG2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "PlacesG2 encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendPlacesG2(buf, x)
	vAssert(err == nil, "PlacesG2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "PlacesG2 appends its encoding to the buffer")
	out2, err := appendPlacesG2(nil, x)
	vAssert(err == nil && vEq(out2, out), "PlacesG2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 21 bytes, every byte symbolic; values the data dictionary defines
func vh_C22_PlacesG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 65)[:2+n*21]
	vAssume(dEach(b, 2, 21, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 accepted")
	x = vStrip(x).(*cardv1.PlacesG2)
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 without stored bytes encodes")
	vAssert(len(out) == len(b), "PlacesG2 without stored bytes encodes to its size")
	y, err := o.unmarshalPlacesG2(out)
	vAssert(err == nil, "PlacesG2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "PlacesG2 without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_PlacesG2_records() {
	b := vBytes("b", 2+2*21)
	vAssume(dEach(b, 2, 21, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "PlacesG2 record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*ddv1.PlaceRecordG2)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 with other records encodes")
	y, err := o.unmarshalPlacesG2(out)
	vAssert(err == nil, "PlacesG2 with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "PlacesG2 decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (7 fields)
func vh_C06_EF_PlacesG2() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 65)[:2+n*21]
	c := vBytes("new", 65)[:2+n*21]
	vAssume(dEach(b, 2, 21, dNone))
	vAssume(dEach(c, 2, 21, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalPlacesG2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 7)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
		lo, hi = 0, 2
	case 1:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
		lo, hi = 2+k*21+0, 2+k*21+4
	case 2:
		x.GetRecords()[k].SetEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetEntryTypeDailyWorkPeriod()); x.GetRecords()[k].SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetUnrecognizedEntryTypeDailyWorkPeriod())
		lo, hi = 2+k*21+4, 2+k*21+5
	case 3:
		x.GetRecords()[k].SetDailyWorkPeriodCountry(y.GetRecords()[k].GetDailyWorkPeriodCountry()); x.GetRecords()[k].SetUnrecognizedDailyWorkPeriodCountry(y.GetRecords()[k].GetUnrecognizedDailyWorkPeriodCountry())
		lo, hi = 2+k*21+5, 2+k*21+6
	case 4:
		x.GetRecords()[k].SetDailyWorkPeriodRegion(y.GetRecords()[k].GetDailyWorkPeriodRegion())
		lo, hi = 2+k*21+6, 2+k*21+7
	case 5:
		x.GetRecords()[k].SetVehicleOdometerKm(y.GetRecords()[k].GetVehicleOdometerKm())
		lo, hi = 2+k*21+7, 2+k*21+10
	case 6:
		x.GetRecords()[k].SetEntryGnssPlaceRecord(y.GetRecords()[k].GetEntryGnssPlaceRecord())
		lo, hi = 2+k*21+10, 2+k*21+21
	}
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "PlacesG2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "PlacesG2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (7 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_PlacesG2_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 65)[:2+n*21]
	c := vBytes("new", 65)[:2+n*21]
	vAssume(dEach(b, 2, 21, dNone))
	vAssume(dEach(c, 2, 21, dNone))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalPlacesG2(c)
	if err != nil {
		return
	}
	f := vPick("field", 7)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
	case 1:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
	case 2:
		x.GetRecords()[k].SetEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetEntryTypeDailyWorkPeriod()); x.GetRecords()[k].SetUnrecognizedEntryTypeDailyWorkPeriod(y.GetRecords()[k].GetUnrecognizedEntryTypeDailyWorkPeriod())
	case 3:
		x.GetRecords()[k].SetDailyWorkPeriodCountry(y.GetRecords()[k].GetDailyWorkPeriodCountry()); x.GetRecords()[k].SetUnrecognizedDailyWorkPeriodCountry(y.GetRecords()[k].GetUnrecognizedDailyWorkPeriodCountry())
	case 4:
		x.GetRecords()[k].SetDailyWorkPeriodRegion(y.GetRecords()[k].GetDailyWorkPeriodRegion())
	case 5:
		x.GetRecords()[k].SetVehicleOdometerKm(y.GetRecords()[k].GetVehicleOdometerKm())
	case 6:
		x.GetRecords()[k].SetEntryGnssPlaceRecord(y.GetRecords()[k].GetEntryGnssPlaceRecord())
	}
	before := proto.Clone(x)
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 encodes after a field change")
	vAssert(vSame(x, before), "PlacesG2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "PlacesG2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendPlacesG2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "PlacesG2 appends its encoding after a field change to the buffer")
	out, err = appendPlacesG2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "PlacesG2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_SpecificConditions() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 15)[:0+n*5]
	vAssume(dEach(b, 0, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions accepted")
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions encodes")
	vAssert(len(out) == len(b), "SpecificConditions encodes to its size")
	vAssert(vEq(out, b), "SpecificConditions round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic
func vh_C05_EF_SpecificConditions() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 15)[:0+n*5]
	ok := dEach(b, 0, 5, dNone)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(!ok || err == nil, "SpecificConditions accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(x.GetRecords()) == n, "SpecificConditions record count")
	for i, r := range x.GetRecords() {
		refSpecific(r, b[0+5*i:0+5*i+5])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_SpecificConditions() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 15)[:0+n*5]
	vAssume(dEach(b, 0, 5, dNone))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(vEq(b, keep), "SpecificConditions decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardSpecificConditions(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "SpecificConditions encoding leaves the message alone")
	vAssert(vEq(b, keep), "SpecificConditions encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardSpecificConditions(buf, x)
	vAssert(err == nil, "SpecificConditions encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "SpecificConditions appends its encoding to the buffer")
	out2, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil && vEq(out2, out), "SpecificConditions encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic; values the data dictionary defines
func vh_C22_SpecificConditions() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 15)[:0+n*5]
	vAssume(dEach(b, 0, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions accepted")
	x = vStrip(x).(*cardv1.SpecificConditions)
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions without stored bytes encodes")
	vAssert(len(out) == len(b), "SpecificConditions without stored bytes encodes to its size")
	y, err := o.unmarshalSpecificConditions(out)
	vAssert(err == nil, "SpecificConditions without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "SpecificConditions without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_SpecificConditions_records() {
	b := vBytes("b", 0+2*5)
	vAssume(dEach(b, 0, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "SpecificConditions record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*ddv1.SpecificConditionRecord)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions with other records encodes")
	y, err := o.unmarshalSpecificConditions(out)
	vAssert(err == nil, "SpecificConditions with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "SpecificConditions decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (2 fields)
func vh_C06_EF_SpecificConditions() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 15)[:0+n*5]
	c := vBytes("new", 15)[:0+n*5]
	vAssume(dEach(b, 0, 5, dNone))
	vAssume(dEach(c, 0, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalSpecificConditions(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 2)
	switch f {
	case 0:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
		lo, hi = 0+k*5+0, 0+k*5+4
	case 1:
		x.GetRecords()[k].SetSpecificConditionType(y.GetRecords()[k].GetSpecificConditionType()); x.GetRecords()[k].SetUnrecognizedSpecificConditionType(y.GetRecords()[k].GetUnrecognizedSpecificConditionType())
		lo, hi = 0+k*5+4, 0+k*5+5
	}
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "SpecificConditions field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "SpecificConditions field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (2 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_SpecificConditions_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 15)[:0+n*5]
	c := vBytes("new", 15)[:0+n*5]
	vAssume(dEach(b, 0, 5, dNone))
	vAssume(dEach(c, 0, 5, dNone))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalSpecificConditions(c)
	if err != nil {
		return
	}
	f := vPick("field", 2)
	switch f {
	case 0:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
	case 1:
		x.GetRecords()[k].SetSpecificConditionType(y.GetRecords()[k].GetSpecificConditionType()); x.GetRecords()[k].SetUnrecognizedSpecificConditionType(y.GetRecords()[k].GetUnrecognizedSpecificConditionType())
	}
	before := proto.Clone(x)
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions encodes after a field change")
	vAssert(vSame(x, before), "SpecificConditions encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "SpecificConditions encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardSpecificConditions(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "SpecificConditions appends its encoding after a field change to the buffer")
	out, err = appendCardSpecificConditions(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "SpecificConditions encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_SpecificConditionsG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 17)[:2+n*5]
	vAssume(dEach(b, 2, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 accepted")
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 encodes")
	vAssert(len(out) == len(b), "SpecificConditionsG2 encodes to its size")
	vAssert(vEq(out, b), "SpecificConditionsG2 round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic
func vh_C05_EF_SpecificConditionsG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 17)[:2+n*5]
	ok := dEach(b, 2, 5, dNone)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(!ok || err == nil, "SpecificConditionsG2 accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(uint32(x.GetNewestRecordIndex()) == rU16(b), "SpecificConditionsG2.newest_record_index")
	vAssert(len(x.GetRecords()) == n, "SpecificConditionsG2 record count")
	for i, r := range x.GetRecords() {
		refSpecific(r, b[2+5*i:2+5*i+5])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_SpecificConditionsG2() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 17)[:2+n*5]
	vAssume(dEach(b, 2, 5, dNone))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(vEq(b, keep), "SpecificConditionsG2 decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardSpecificConditionsG2(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "SpecificConditionsG2 encoding leaves the message alone")
	vAssert(vEq(b, keep), "SpecificConditionsG2 encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardSpecificConditionsG2(buf, x)
	vAssert(err == nil, "SpecificConditionsG2 encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "SpecificConditionsG2 appends its encoding to the buffer")
	out2, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil && vEq(out2, out), "SpecificConditionsG2 encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 5 bytes, every byte symbolic; values the data dictionary defines
func vh_C22_SpecificConditionsG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 17)[:2+n*5]
	vAssume(dEach(b, 2, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 accepted")
	x = vStrip(x).(*cardv1.SpecificConditionsG2)
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 without stored bytes encodes")
	vAssert(len(out) == len(b), "SpecificConditionsG2 without stored bytes encodes to its size")
	y, err := o.unmarshalSpecificConditionsG2(out)
	vAssert(err == nil, "SpecificConditionsG2 without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "SpecificConditionsG2 without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_SpecificConditionsG2_records() {
	b := vBytes("b", 2+2*5)
	vAssume(dEach(b, 2, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "SpecificConditionsG2 record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*ddv1.SpecificConditionRecord)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 with other records encodes")
	y, err := o.unmarshalSpecificConditionsG2(out)
	vAssert(err == nil, "SpecificConditionsG2 with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "SpecificConditionsG2 decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (3 fields)
func vh_C06_EF_SpecificConditionsG2() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 17)[:2+n*5]
	c := vBytes("new", 17)[:2+n*5]
	vAssume(dEach(b, 2, 5, dNone))
	vAssume(dEach(c, 2, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalSpecificConditionsG2(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
		lo, hi = 0, 2
	case 1:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
		lo, hi = 2+k*5+0, 2+k*5+4
	case 2:
		x.GetRecords()[k].SetSpecificConditionType(y.GetRecords()[k].GetSpecificConditionType()); x.GetRecords()[k].SetUnrecognizedSpecificConditionType(y.GetRecords()[k].GetUnrecognizedSpecificConditionType())
		lo, hi = 2+k*5+4, 2+k*5+5
	}
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "SpecificConditionsG2 field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "SpecificConditionsG2 field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (3 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_SpecificConditionsG2_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 17)[:2+n*5]
	c := vBytes("new", 17)[:2+n*5]
	vAssume(dEach(b, 2, 5, dNone))
	vAssume(dEach(c, 2, 5, dNone))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalSpecificConditionsG2(c)
	if err != nil {
		return
	}
	f := vPick("field", 3)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
	case 1:
		x.GetRecords()[k].SetEntryTime(y.GetRecords()[k].GetEntryTime())
	case 2:
		x.GetRecords()[k].SetSpecificConditionType(y.GetRecords()[k].GetSpecificConditionType()); x.GetRecords()[k].SetUnrecognizedSpecificConditionType(y.GetRecords()[k].GetUnrecognizedSpecificConditionType())
	}
	before := proto.Clone(x)
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 encodes after a field change")
	vAssert(vSame(x, before), "SpecificConditionsG2 encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "SpecificConditionsG2 encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardSpecificConditionsG2(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "SpecificConditionsG2 appends its encoding after a field change to the buffer")
	out, err = appendCardSpecificConditionsG2(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "SpecificConditionsG2 encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_VehicleUnitsUsed() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 32)[:2+n*10]
	vAssume(dEach(b, 2, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed accepted")
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed encodes")
	vAssert(len(out) == len(b), "VehicleUnitsUsed encodes to its size")
	vAssert(vEq(out, b), "VehicleUnitsUsed round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic
func vh_C05_EF_VehicleUnitsUsed() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 32)[:2+n*10]
	ok := dEach(b, 2, 10, dNone)
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(!ok || err == nil, "VehicleUnitsUsed accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(uint32(x.GetVehicleUnitPointerNewestRecord()) == rU16(b), "VehicleUnitsUsed.newest")
	vAssert(len(x.GetRecords()) == n, "VehicleUnitsUsed record count")
	for i, r := range x.GetRecords() {
		refVehicleUnit(r, b[2+10*i:2+10*i+10])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_VehicleUnitsUsed() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 32)[:2+n*10]
	vAssume(dEach(b, 2, 10, dNone))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(vEq(b, keep), "VehicleUnitsUsed decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardVehicleUnitsUsed(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "VehicleUnitsUsed encoding leaves the message alone")
	vAssert(vEq(b, keep), "VehicleUnitsUsed encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardVehicleUnitsUsed(buf, x)
	vAssert(err == nil, "VehicleUnitsUsed encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "VehicleUnitsUsed appends its encoding to the buffer")
	out2, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil && vEq(out2, out), "VehicleUnitsUsed encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 10 bytes, every byte symbolic except texts, one of four each; values the data dictionary defines
func vh_C22_VehicleUnitsUsed() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 32)[:2+n*10]
	v := vPick("text", 4)
	for i := 0; i < n; i++ {
		vIa5In(b[2+i*10+6:2+i*10+10], (v+i)%4)
	}
	vAssume(dEach(b, 2, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed accepted")
	x = vStrip(x).(*cardv1.VehicleUnitsUsed)
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed without stored bytes encodes")
	vAssert(len(out) == len(b), "VehicleUnitsUsed without stored bytes encodes to its size")
	y, err := o.unmarshalVehicleUnitsUsed(out)
	vAssert(err == nil, "VehicleUnitsUsed without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "VehicleUnitsUsed without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic except texts, one of four each; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_VehicleUnitsUsed_records() {
	b := vBytes("b", 2+2*10)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vIa5In(b[2+i*10+6:2+i*10+10], (v+i)%4)
	}
	vAssume(dEach(b, 2, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "VehicleUnitsUsed record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*cardv1.VehicleUnitsUsed_Record)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed with other records encodes")
	y, err := o.unmarshalVehicleUnitsUsed(out)
	vAssert(err == nil, "VehicleUnitsUsed with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "VehicleUnitsUsed decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (5 fields)
func vh_C06_EF_VehicleUnitsUsed() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 32)[:2+n*10]
	c := vBytes("new", 32)[:2+n*10]
	vAssume(dEach(b, 2, 10, dNone))
	vAssume(dEach(c, 2, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalVehicleUnitsUsed(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 5)
	switch f {
	case 0:
		x.SetVehicleUnitPointerNewestRecord(y.GetVehicleUnitPointerNewestRecord())
		lo, hi = 0, 2
	case 1:
		x.GetRecords()[k].SetTimestamp(y.GetRecords()[k].GetTimestamp())
		lo, hi = 2+k*10+0, 2+k*10+4
	case 2:
		x.GetRecords()[k].SetManufacturerCode(y.GetRecords()[k].GetManufacturerCode())
		lo, hi = 2+k*10+4, 2+k*10+5
	case 3:
		x.GetRecords()[k].SetDeviceId(y.GetRecords()[k].GetDeviceId())
		lo, hi = 2+k*10+5, 2+k*10+6
	case 4:
		x.GetRecords()[k].SetVuSoftwareVersion(y.GetRecords()[k].GetVuSoftwareVersion())
		lo, hi = 2+k*10+6, 2+k*10+10
	}
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "VehicleUnitsUsed field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "VehicleUnitsUsed field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (5 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_VehicleUnitsUsed_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 32)[:2+n*10]
	c := vBytes("new", 32)[:2+n*10]
	vAssume(dEach(b, 2, 10, dNone))
	vAssume(dEach(c, 2, 10, dNone))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalVehicleUnitsUsed(c)
	if err != nil {
		return
	}
	f := vPick("field", 5)
	switch f {
	case 0:
		x.SetVehicleUnitPointerNewestRecord(y.GetVehicleUnitPointerNewestRecord())
	case 1:
		x.GetRecords()[k].SetTimestamp(y.GetRecords()[k].GetTimestamp())
	case 2:
		x.GetRecords()[k].SetManufacturerCode(y.GetRecords()[k].GetManufacturerCode())
	case 3:
		x.GetRecords()[k].SetDeviceId(y.GetRecords()[k].GetDeviceId())
	case 4:
		x.GetRecords()[k].SetVuSoftwareVersion(y.GetRecords()[k].GetVuSoftwareVersion())
	}
	before := proto.Clone(x)
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed encodes after a field change")
	vAssert(vSame(x, before), "VehicleUnitsUsed encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "VehicleUnitsUsed encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardVehicleUnitsUsed(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "VehicleUnitsUsed appends its encoding after a field change to the buffer")
	out, err = appendCardVehicleUnitsUsed(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "VehicleUnitsUsed encodes the same twice after a field change")
	vReach("end", uint64(f))
}

//v:bounds 0 to 2 records (thorough: 3) of 18 bytes, every byte symbolic; values the data dictionary defines
func vh_C03_GnssPlaces() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 56)[:2+n*18]
	vAssume(dEach(b, 2, 18, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces accepted")
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces encodes")
	vAssert(len(out) == len(b), "GnssPlaces encodes to its size")
	vAssert(vEq(out, b), "GnssPlaces round trip")
	vReach("end", uint64(len(out)))
}

//v:bounds 0 to 2 records (thorough: 3) of 18 bytes, every byte symbolic
func vh_C05_EF_GnssPlaces() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 56)[:2+n*18]
	ok := dEach(b, 2, 18, dNone)
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(!ok || err == nil, "GnssPlaces accepted")
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(uint32(x.GetNewestRecordIndex()) == rU16(b), "GnssPlaces.newest_record_index")
	vAssert(len(x.GetRecords()) == n, "GnssPlaces record count")
	for i, r := range x.GetRecords() {
		refGnssPlace(r, b[2+18*i:2+18*i+18])
	}
	vReach("end")
}

//v:bounds 0 to 2 records (thorough: 3) of 18 bytes, every byte symbolic; buffer of 0 to 3 symbolic bytes with spare capacity in front
func vh_C19_EF_GnssPlaces() {
	n := vPick("n", 2+vTier())
	b := vBytes("b", 56)[:2+n*18]
	vAssume(dEach(b, 2, 18, dNone))
	keep := vCopy(b)
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(vEq(b, keep), "GnssPlaces decoding leaves the input alone")
	if err != nil {
		return
	}
	before := proto.Clone(x)
	out, err := appendCardGnssPlaces(nil, x)
	if err != nil {
		return
	}
	vAssert(vSame(x, before), "GnssPlaces encoding leaves the message alone")
	vAssert(vEq(b, keep), "GnssPlaces encoding leaves the decoded input alone")
	m := vPick("prefix", 3)
	p := vBytes("p", 3)
	buf := make([]byte, 0, 3+len(b)+7)
	buf = append(buf, p[:m]...)
	res, err := appendCardGnssPlaces(buf, x)
	vAssert(err == nil, "GnssPlaces encodes into a buffer")
	vAssert(vEq(res, append(vCopy(p[:m]), out...)), "GnssPlaces appends its encoding to the buffer")
	out2, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil && vEq(out2, out), "GnssPlaces encodes the same twice")
	vReach("end", uint64(len(res)))
}

//v:bounds 0 to 2 records (thorough: 3) of 18 bytes, every byte symbolic; values the data dictionary defines
func vh_C22_GnssPlaces() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 56)[:2+n*18]
	vAssume(dEach(b, 2, 18, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces accepted")
	x = vStrip(x).(*cardv1.GnssPlaces)
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces without stored bytes encodes")
	vAssert(len(out) == len(b), "GnssPlaces without stored bytes encodes to its size")
	y, err := o.unmarshalGnssPlaces(out)
	vAssert(err == nil, "GnssPlaces without stored bytes decodes")
	vAssert(vSame(vStrip(y), x), "GnssPlaces without stored bytes decodes to the same fields")
	vReach("end", uint64(len(out)))
}

//v:bounds 2 records, every byte symbolic; a record removed, repeated at the end, or the two exchanged, or all removed
func vh_C22_GnssPlaces_records() {
	b := vBytes("b", 2+2*18)
	vAssume(dEach(b, 2, 18, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces accepted")
	rs := x.GetRecords()
	vAssert(len(rs) == 2, "GnssPlaces record count")
	k := vPick("change", 5)
	switch k {
	case 0:
		x.SetRecords(rs[:1])
	case 1:
		x.SetRecords(rs[1:])
	case 2:
		x.SetRecords(append(rs[:2:2], proto.Clone(rs[0]).(*cardv1.GnssPlaces_Record)))
	case 3:
		rs[0], rs[1] = rs[1], rs[0]
	case 4:
		x.SetRecords(nil)
	}
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces with other records encodes")
	y, err := o.unmarshalGnssPlaces(out)
	vAssert(err == nil, "GnssPlaces with other records decodes")
	vAssert(vSame(vStrip(y), vStrip(x)), "GnssPlaces decodes to the records it was given")
	vReach("end", uint64(k))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; one field changed at a time (4 fields)
func vh_C06_EF_GnssPlaces() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 56)[:2+n*18]
	c := vBytes("new", 56)[:2+n*18]
	vAssume(dEach(b, 2, 18, dNone))
	vAssume(dEach(c, 2, 18, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalGnssPlaces(c)
	if err != nil {
		return
	}
	lo, hi := 0, 0
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
		lo, hi = 0, 2
	case 1:
		x.GetRecords()[k].SetTimestamp(y.GetRecords()[k].GetTimestamp())
		lo, hi = 2+k*18+0, 2+k*18+4
	case 2:
		x.GetRecords()[k].SetGnssPlaceRecord(y.GetRecords()[k].GetGnssPlaceRecord())
		lo, hi = 2+k*18+4, 2+k*18+15
	case 3:
		x.GetRecords()[k].SetVehicleOdometerKm(y.GetRecords()[k].GetVehicleOdometerKm())
		lo, hi = 2+k*18+15, 2+k*18+18
	}
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces encodes after a field change")
	want := vCopy(b)
	copy(want[lo:hi], c[lo:hi])
	vAssert(len(out) == len(b) && vEq(out[:lo], want[:lo]) && vEq(out[hi:], want[hi:]), "GnssPlaces field change leaves the other bytes alone")
	vAssert(vEq(out[lo:hi], want[lo:hi]), "GnssPlaces field change is written at the field's position")
	vReach("end", uint64(f))
}

//v:bounds 1 or 2 records (thorough: 3), original and new values symbolic; encoding after one field is changed (4 fields), into an empty buffer and one of 2 symbolic bytes with spare capacity
func vh_C19_EF_GnssPlaces_edited() {
	n := vPick("n", 2+vTier()) + 1
	k := vPick("k", n)
	b := vBytes("b", 56)[:2+n*18]
	c := vBytes("new", 56)[:2+n*18]
	vAssume(dEach(b, 2, 18, dNone))
	vAssume(dEach(c, 2, 18, dNone))
	keep, keepC := vCopy(b), vCopy(c)
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	if err != nil {
		return
	}
	y, err := o.unmarshalGnssPlaces(c)
	if err != nil {
		return
	}
	f := vPick("field", 4)
	switch f {
	case 0:
		x.SetNewestRecordIndex(y.GetNewestRecordIndex())
	case 1:
		x.GetRecords()[k].SetTimestamp(y.GetRecords()[k].GetTimestamp())
	case 2:
		x.GetRecords()[k].SetGnssPlaceRecord(y.GetRecords()[k].GetGnssPlaceRecord())
	case 3:
		x.GetRecords()[k].SetVehicleOdometerKm(y.GetRecords()[k].GetVehicleOdometerKm())
	}
	before := proto.Clone(x)
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces encodes after a field change")
	vAssert(vSame(x, before), "GnssPlaces encoding after a field change leaves the message alone")
	vAssert(bAnd(vEq(b, keep), vEq(c, keepC)), "GnssPlaces encoding after a field change leaves the decoded inputs alone")
	p := vBytes("p", 2)
	buf := append(make([]byte, 0, 2+len(b)+7), p...)
	res, err := appendCardGnssPlaces(buf, x)
	vAssert(err == nil && vEq(res, append(vCopy(p), out...)), "GnssPlaces appends its encoding after a field change to the buffer")
	out, err = appendCardGnssPlaces(out[:0], x)
	vAssert(err == nil && vEq(out, res[2:]), "GnssPlaces encodes the same twice after a field change")
	vReach("end", uint64(f))
}

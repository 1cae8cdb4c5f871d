package dd

import (
	"google.golang.org/protobuf/proto"

	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// vTwin is b with the bytes of the given ranges replaced by others.
func vTwin(b []byte, name string, ranges ...int) []byte {
	c := vCopy(b)
	n := 0
	for i := 0; i < len(ranges); i += 2 {
		n += ranges[i+1] - ranges[i]
	}
	x := vBytes(name, n)
	for i := 0; i < len(ranges); i += 2 {
		k := copy(c[ranges[i]:ranges[i+1]], x)
		x = x[k:]
	}
	return c
}

//v:bounds two records of 31 symbolic bytes with defined values that differ in times, registration number and odometer (within the same thousand), record index 0 to 99
func vh_C11_CardVehicleRecord() {
	b := vBytes("b", 31)
	c := vTwin(b, "c", 0, 14, 15, 29)
	vAssume(dCardVehicle(b))
	vAssume(dCardVehicle(c))
	vAssume(rU24(b[0:3])/1000 == rU24(c[0:3])/1000)
	vAssume(rU24(b[3:6])/1000 == rU24(c[3:6])/1000)
	i := vRange("index", 0, 99)
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	y, err2 := o.UnmarshalCardVehicleRecord(c)
	vAssert(err == nil && err2 == nil, "CardVehicleRecord accepted")
	before := proto.Clone(x)
	p, q := AnonymizeCardVehicleRecord(x, i), AnonymizeCardVehicleRecord(y, i)
	vAssert(vSame(x, before), "C11 CardVehicleRecord original left alone")
	vAssert(vSame(p, q), "C11 CardVehicleRecord depends on identifying data")
	out, err := AppendCardVehicleRecord(nil, p)
	vAssert(err == nil && len(out) == 31, "C11 CardVehicleRecord encodes")
	vAssert(rU24(out[0:3]) == rU24(b[0:3])/1000*1000 && rU24(out[3:6]) == rU24(b[3:6])/1000*1000, "C11 CardVehicleRecord odometer rounded")
	vAssert(out[14] == b[14] && vEq(out[29:31], b[29:31]), "C11 CardVehicleRecord nation and counter kept")
	out2, err := AppendCardVehicleRecord(nil, q)
	vAssert(err == nil && vEq(out, out2), "C11 CardVehicleRecord encoding depends on identifying data")
	vReach("end")
}

//v:bounds two records of 10 symbolic bytes that differ in country, region and odometer (within the same hundred)
func vh_C11_PlaceRecord() {
	b := vBytes("b", 10)
	c := vTwin(b, "c", 5, 10)
	vAssume(rU24(b[7:10])/100 == rU24(c[7:10])/100)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	y, err2 := o.UnmarshalPlaceRecord(c)
	vAssert(err == nil && err2 == nil, "PlaceRecord accepted")
	before := proto.Clone(x)
	p, q := AnonymizePlaceRecord(x), AnonymizePlaceRecord(y)
	vAssert(vSame(x, before), "C11 PlaceRecord original left alone")
	vAssert(vSame(p, q), "C11 PlaceRecord depends on identifying data")
	out, err := AppendPlaceRecord(nil, p)
	vAssert(err == nil && len(out) == 10, "C11 PlaceRecord encodes")
	vAssert(out[4] == b[4], "C11 PlaceRecord entry type kept")
	vAssert(rU24(out[7:10]) == rU24(b[7:10])/100*100, "C11 PlaceRecord odometer rounded")
	vReach("end")
}

//v:bounds two records of 21 symbolic bytes that differ in country, region, odometer (within the same hundred) and position
func vh_C11_PlaceRecordG2() {
	b := vBytes("b", 21)
	c := vTwin(b, "c", 5, 10, 15, 21)
	vAssume(rU24(b[7:10])/100 == rU24(c[7:10])/100)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	y, err2 := o.UnmarshalPlaceRecordG2(c)
	vAssert(err == nil && err2 == nil, "PlaceRecordG2 accepted")
	before := proto.Clone(x)
	p, q := AnonymizePlaceRecordG2(x), AnonymizePlaceRecordG2(y)
	vAssert(vSame(x, before), "C11 PlaceRecordG2 original left alone")
	vAssert(vSame(p, q), "C11 PlaceRecordG2 depends on identifying data")
	out, err := AppendPlaceRecordG2(nil, p)
	vAssert(err == nil && len(out) == 21, "C11 PlaceRecordG2 encodes")
	vAssert(out[4] == b[4], "C11 PlaceRecordG2 entry type kept")
	vAssert(rU24(out[7:10]) == rU24(b[7:10])/100*100, "C11 PlaceRecordG2 odometer rounded")
	vReach("end")
}

//v:bounds two records of 11 symbolic bytes that differ in their position
func vh_C11_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	c := vTwin(b, "c", 5, 11)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	y, err2 := o.UnmarshalGNSSPlaceRecord(c)
	vAssert(err == nil && err2 == nil, "GNSSPlaceRecord accepted")
	before := proto.Clone(x)
	p, q := AnonymizeGNSSPlaceRecord(x), AnonymizeGNSSPlaceRecord(y)
	vAssert(vSame(x, before), "C11 GNSSPlaceRecord original left alone")
	vAssert(vSame(p, q), "C11 GNSSPlaceRecord depends on the position")
	out, err := AppendGNSSPlaceRecord(nil, p)
	vAssert(err == nil && len(out) == 11, "C11 GNSSPlaceRecord encodes")
	vAssert(out[4] == b[4], "C11 GNSSPlaceRecord accuracy kept")
	vReach("end")
}

//v:bounds two identifications of 14 symbolic bytes
func vh_C11_DriverIdentification() {
	b := vBytes("b", 14)
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	y, err2 := o.UnmarshalDriverIdentification(vBytes("c", 14))
	if err != nil || err2 != nil {
		return
	}
	before := proto.Clone(x)
	p, q := AnonymizeDriverIdentification(x), AnonymizeDriverIdentification(y)
	vAssert(vSame(x, before), "C11 DriverIdentification original left alone")
	vAssert(vSame(p, q), "C11 DriverIdentification depends on the original")
	out, err := AppendDriverIdentification(nil, p)
	vAssert(err == nil && len(out) == 14, "C11 DriverIdentification encodes")
	vReach("end")
}

//v:bounds two activity changes of 2 symbolic bytes that differ in their time, index 0 to 1000
func vh_C11_ActivityChangeInfo() {
	b, c := vBytes("b", 2), vBytes("c", 2)
	vAssume(rU16(b)>>11 == rU16(c)>>11)
	i := vRange("index", 0, 1000)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(b)
	y, err2 := o.UnmarshalActivityChangeInfo(c)
	vAssert(err == nil && err2 == nil, "ActivityChangeInfo accepted")
	before := proto.Clone(x)
	p, q := AnonymizeActivityChangeInfo(x, i), AnonymizeActivityChangeInfo(y, i)
	vAssert(vSame(x, before), "C11 ActivityChangeInfo original left alone")
	vAssert(vSame(p, q), "C11 ActivityChangeInfo depends on the time")
	out, err := AppendActivityChangeInfo(nil, p)
	vAssert(err == nil && len(out) == 2, "C11 ActivityChangeInfo encodes")
	vAssert(rU16(out)>>11 == rU16(b)>>11, "C11 ActivityChangeInfo kind kept")
	vAssert(rU16(out)&0x7ff < 1440, "C11 ActivityChangeInfo time of day")
	vReach("end")
}

//v:bounds no record
func vh_C11_none() {
	vAssert(AnonymizeCardVehicleRecord(nil, 0) == nil && AnonymizePlaceRecord(nil) == nil && AnonymizePlaceRecordG2(nil) == nil &&
		AnonymizeGNSSPlaceRecord(nil) == nil && AnonymizeDriverIdentification(nil) == nil && AnonymizeActivityChangeInfo(nil, 0) == nil, "C11 nothing stays nothing")
	// records without optional parts
	p := AnonymizeCardVehicleRecord(&ddv1.CardVehicleRecord{}, 0)
	vAssert(p != nil && !p.HasVehicleRegistration(), "C11 nothing added")
	vReach("end")
}

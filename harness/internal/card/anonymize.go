package card

import (
	"google.golang.org/protobuf/proto"
)

func vTwin(b []byte, name string, ranges ...int) []byte {
	c := vCopy(b)
	n := 0
	for i := 0; i < len(ranges); i += 2 {
		n += ranges[i+1] - ranges[i]
	}
	x := vBytes(name, 143)[:n]
	for i := 0; i < len(ranges); i += 2 {
		k := copy(c[ranges[i]:ranges[i+1]], x)
		x = x[k:]
	}
	return c
}

//v:bounds 0 to 2 records (thorough: 3), all bytes symbolic with defined values; the two files differ in times, registration numbers and odometers (within the same thousand)
func vh_C11_VehiclesUsed() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 95)[:2+n*31]
	var rs []int
	for i := 0; i < n; i++ {
		p := 2 + 31*i
		rs = append(rs, p, p+14, p+15, p+29)
	}
	c := vTwin(b, "c", rs...)
	vAssume(dEach(b, 2, 31, dCardVehicle))
	vAssume(dEach(c, 2, 31, dCardVehicle))
	for i := 0; i < n; i++ {
		p := 2 + 31*i
		vAssume(rU24(b[p:p+3])/1000 == rU24(c[p:p+3])/1000)
		vAssume(rU24(b[p+3:p+6])/1000 == rU24(c[p+3:p+6])/1000)
	}
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	y, err2 := o.unmarshalVehiclesUsed(c)
	vAssert(err == nil && err2 == nil, "VehiclesUsed accepted")
	x.SetSignature(vBytes("s", 2))
	before := proto.Clone(x)
	p, q := AnonymizeVehiclesUsed(x), AnonymizeVehiclesUsed(y)
	vAssert(vSame(x, before), "C11 VehiclesUsed original left alone")
	vAssert(len(p.GetSignature()) == 0, "C11 VehiclesUsed signature cleared")
	vAssert(vSame(p, q), "C11 VehiclesUsed depends on identifying data")
	out, err := appendVehiclesUsed(nil, p)
	vAssert(err == nil && len(out) == len(b), "C11 VehiclesUsed encodes")
	vAssert(vEq(out[0:2], b[0:2]), "C11 VehiclesUsed pointer kept")
	for i := 0; i < n; i++ {
		k := 2 + 31*i
		vAssert(out[k+14] == b[k+14] && vEq(out[k+29:k+31], b[k+29:k+31]), "C11 VehiclesUsed nation and counter kept")
		vAssert(rU24(out[k:k+3]) == rU24(b[k:k+3])/1000*1000, "C11 VehiclesUsed odometer rounded")
	}
	vReach("end", uint64(n))
}

//v:bounds 0 to 2 records (thorough: 3), all bytes symbolic; the two files differ in times (used or unused alike), countries, regions and odometers (within the same hundred)
func vh_C11_Places() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 31)[:1+n*10]
	var rs []int
	for i := 0; i < n; i++ {
		p := 1 + 10*i
		rs = append(rs, p, p+4, p+5, p+10)
	}
	c := vTwin(b, "c", rs...)
	for i := 0; i < n; i++ {
		p := 1 + 10*i
		vAssume((rU32(b[p:p+4]) == 0) == (rU32(c[p:p+4]) == 0))
		vAssume(rU24(b[p+7:p+10])/100 == rU24(c[p+7:p+10])/100)
	}
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	y, err2 := o.unmarshalPlaces(c)
	vAssert(err == nil && err2 == nil, "Places accepted")
	x.SetSignature(vBytes("s", 2))
	before := proto.Clone(x)
	p, q := AnonymizePlaces(x), AnonymizePlaces(y)
	vAssert(vSame(x, before), "C11 Places original left alone")
	vAssert(len(p.GetSignature()) == 0, "C11 Places signature cleared")
	vAssert(vSame(p, q), "C11 Places depends on identifying data")
	out, err := appendPlaces(nil, p)
	vAssert(err == nil && len(out) == len(b), "C11 Places encodes")
	vAssert(out[0] == b[0], "C11 Places pointer kept")
	for i := 0; i < n; i++ {
		k := 1 + 10*i
		vAssert(out[k+4] == b[k+4], "C11 Places entry type kept")
		vAssert(rU24(out[k+7:k+10]) == rU24(b[k+7:k+10])/100*100, "C11 Places odometer rounded")
	}
	vReach("end", uint64(n))
}

//v:bounds 0 to 2 records (thorough: 3), all bytes symbolic; the two files differ in times (used or unused alike), countries, regions, positions and odometers (within the same hundred)
func vh_C11_PlacesG2() {
	n := vPick("n", 3+vTier())
	b := vBytes("b", 65)[:2+n*21]
	var rs []int
	for i := 0; i < n; i++ {
		p := 2 + 21*i
		rs = append(rs, p, p+4, p+5, p+14, p+15, p+21)
	}
	c := vTwin(b, "c", rs...)
	for i := 0; i < n; i++ {
		p := 2 + 21*i
		vAssume((rU32(b[p:p+4]) == 0) == (rU32(c[p:p+4]) == 0))
		vAssume((rU32(b[p+10:p+14]) == 0) == (rU32(c[p+10:p+14]) == 0))
		vAssume(rU24(b[p+7:p+10])/100 == rU24(c[p+7:p+10])/100)
	}
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	y, err2 := o.unmarshalPlacesG2(c)
	vAssert(err == nil && err2 == nil, "PlacesG2 accepted")
	x.SetSignature(vBytes("s", 2))
	before := proto.Clone(x)
	p, q := AnonymizePlacesG2(x), AnonymizePlacesG2(y)
	vAssert(vSame(x, before), "C11 PlacesG2 original left alone")
	vAssert(len(p.GetSignature()) == 0, "C11 PlacesG2 signature cleared")
	vAssert(vSame(p, q), "C11 PlacesG2 depends on identifying data")
	out, err := appendPlacesG2(nil, p)
	vAssert(err == nil && len(out) == len(b), "C11 PlacesG2 encodes")
	vAssert(vEq(out[0:2], b[0:2]), "C11 PlacesG2 pointer kept")
	for i := 0; i < n; i++ {
		k := 2 + 21*i
		vAssert(out[k+4] == b[k+4] && out[k+14] == b[k+14], "C11 PlacesG2 entry type and accuracy kept")
		vAssert(rU24(out[k+7:k+10]) == rU24(b[k+7:k+10])/100*100, "C11 PlacesG2 odometer rounded")
	}
	vReach("end", uint64(n))
}

//v:bounds all 143 bytes symbolic with defined values and a driver card number; the two files share the nation and the language only
//v:exacttext 16
func vh_C11_Identification() {
	b := vBytes("b", 143)
	c := vTwin(b, "c", 1, 141)
	vAssume(dIdentification(b))
	vAssume(dIdentification(c))
	vAssume(bAnd(dIndex(b[15]), dIndex(b[16])))
	vAssume(bAnd(dIndex(c[15]), dIndex(c[16])))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	y, err2 := o.unmarshalIdentification(c)
	vAssert(err == nil && err2 == nil, "Identification accepted")
	before := proto.Clone(x)
	p, q := AnonymizeIdentification(x), AnonymizeIdentification(y)
	vAssert(vSame(x, before), "C11 Identification original left alone")
	vAssert(vSame(p, q), "C11 Identification depends on identifying data")
	out, err := vIdentification(nil, p)
	vAssert(err == nil && len(out) == 143, "C11 Identification encodes")
	vAssert(out[0] == b[0] && vEq(out[141:143], b[141:143]), "C11 Identification nation and language kept")
	z, err := o.unmarshalIdentification(out)
	vAssert(err == nil && z.GetCardType() == p.GetCardType(), "C11 Identification decodes again")
	vReach("end")
}

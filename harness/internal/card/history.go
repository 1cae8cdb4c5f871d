package card

// Written by tools/genhist.py: the same operation on other data in between.

import "google.golang.org/protobuf/proto"

//v:bounds two files of 10 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_ApplicationIdentification() {
	b := vBytes("b", 10)
	c := vBytes("c", 10)
	vAssume(dAppId(b))
	vAssume(dAppId(c))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	vAssert(err == nil, "ApplicationIdentification accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardApplicationIdentification(nil, x)
	vAssert(err == nil, "ApplicationIdentification encodes")
	keep := vCopy(out)
	y, err := o.unmarshalApplicationIdentification(c)
	vAssert(err == nil, "ApplicationIdentification accepted")
	out2, err := appendCardApplicationIdentification(nil, y)
	vAssert(err == nil && vEq(out2, c), "ApplicationIdentification round trip after another one")
	vAssert(vSame(x, firstMsg), "ApplicationIdentification decoded earlier stays as it was")
	vAssert(vEq(out, keep), "ApplicationIdentification encoded earlier stays as it was")
	z, err := o.unmarshalApplicationIdentification(b)
	vAssert(err == nil && vSame(z, firstMsg), "ApplicationIdentification decodes the same again")
	out3, err := appendCardApplicationIdentification(nil, z)
	vAssert(err == nil && vEq(out3, keep), "ApplicationIdentification encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 17 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_ApplicationIdentificationG2() {
	b := vBytes("b", 17)
	c := vBytes("c", 17)
	vAssume(dAppId(b))
	vAssume(dAppId(c))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	vAssert(err == nil, "ApplicationIdentificationG2 accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardApplicationIdentificationG2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationG2 encodes")
	keep := vCopy(out)
	y, err := o.unmarshalApplicationIdentificationG2(c)
	vAssert(err == nil, "ApplicationIdentificationG2 accepted")
	out2, err := appendCardApplicationIdentificationG2(nil, y)
	vAssert(err == nil && vEq(out2, c), "ApplicationIdentificationG2 round trip after another one")
	vAssert(vSame(x, firstMsg), "ApplicationIdentificationG2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "ApplicationIdentificationG2 encoded earlier stays as it was")
	z, err := o.unmarshalApplicationIdentificationG2(b)
	vAssert(err == nil && vSame(z, firstMsg), "ApplicationIdentificationG2 decodes the same again")
	out3, err := appendCardApplicationIdentificationG2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "ApplicationIdentificationG2 encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 10 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_ApplicationIdentificationV2() {
	b := vBytes("b", 10)
	c := vBytes("c", 10)
	vAssume(dNone(b))
	vAssume(dNone(c))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	vAssert(err == nil, "ApplicationIdentificationV2 accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardApplicationIdentificationV2(nil, x)
	vAssert(err == nil, "ApplicationIdentificationV2 encodes")
	keep := vCopy(out)
	y, err := o.unmarshalApplicationIdentificationV2(c)
	vAssert(err == nil, "ApplicationIdentificationV2 accepted")
	out2, err := appendCardApplicationIdentificationV2(nil, y)
	vAssert(err == nil && vEq(out2, c), "ApplicationIdentificationV2 round trip after another one")
	vAssert(vSame(x, firstMsg), "ApplicationIdentificationV2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "ApplicationIdentificationV2 encoded earlier stays as it was")
	z, err := o.unmarshalApplicationIdentificationV2(b)
	vAssert(err == nil && vSame(z, firstMsg), "ApplicationIdentificationV2 decodes the same again")
	out3, err := appendCardApplicationIdentificationV2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "ApplicationIdentificationV2 encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 4 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_CardDownload() {
	b := vBytes("b", 4)
	c := vBytes("c", 4)
	vAssume(dNone(b))
	vAssume(dNone(c))
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	vAssert(err == nil, "CardDownload accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardDownload(nil, x)
	vAssert(err == nil, "CardDownload encodes")
	keep := vCopy(out)
	y, err := o.unmarshalCardDownload(c)
	vAssert(err == nil, "CardDownload accepted")
	out2, err := appendCardDownload(nil, y)
	vAssert(err == nil && vEq(out2, c), "CardDownload round trip after another one")
	vAssert(vSame(x, firstMsg), "CardDownload decoded earlier stays as it was")
	vAssert(vEq(out, keep), "CardDownload encoded earlier stays as it was")
	z, err := o.unmarshalCardDownload(b)
	vAssert(err == nil && vSame(z, firstMsg), "CardDownload decodes the same again")
	out3, err := appendCardDownload(nil, z)
	vAssert(err == nil && vEq(out3, keep), "CardDownload encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 46 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_ControlActivity() {
	b := vBytes("b", 46)
	c := vBytes("c", 46)
	vAssume(dControlActivity(b))
	vAssume(dControlActivity(c))
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	vAssert(err == nil, "ControlActivity accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardControlActivityData(nil, x)
	vAssert(err == nil, "ControlActivity encodes")
	keep := vCopy(out)
	y, err := o.unmarshalControlActivityData(c)
	vAssert(err == nil, "ControlActivity accepted")
	out2, err := appendCardControlActivityData(nil, y)
	vAssert(err == nil && vEq(out2, c), "ControlActivity round trip after another one")
	vAssert(vSame(x, firstMsg), "ControlActivity decoded earlier stays as it was")
	vAssert(vEq(out, keep), "ControlActivity encoded earlier stays as it was")
	z, err := o.unmarshalControlActivityData(b)
	vAssert(err == nil && vSame(z, firstMsg), "ControlActivity decodes the same again")
	out3, err := appendCardControlActivityData(nil, z)
	vAssert(err == nil && vEq(out3, keep), "ControlActivity encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 19 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_CurrentUsage() {
	b := vBytes("b", 19)
	c := vBytes("c", 19)
	vAssume(dVRN(b[4:19]))
	vAssume(dVRN(c[4:19]))
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	vAssert(err == nil, "CurrentUsage accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCurrentUsage(nil, x)
	vAssert(err == nil, "CurrentUsage encodes")
	keep := vCopy(out)
	y, err := o.unmarshalCurrentUsage(c)
	vAssert(err == nil, "CurrentUsage accepted")
	out2, err := appendCurrentUsage(nil, y)
	vAssert(err == nil && vEq(out2, c), "CurrentUsage round trip after another one")
	vAssert(vSame(x, firstMsg), "CurrentUsage decoded earlier stays as it was")
	vAssert(vEq(out, keep), "CurrentUsage encoded earlier stays as it was")
	z, err := o.unmarshalCurrentUsage(b)
	vAssert(err == nil && vSame(z, firstMsg), "CurrentUsage decodes the same again")
	out3, err := appendCurrentUsage(nil, z)
	vAssert(err == nil && vEq(out3, keep), "CurrentUsage encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 53 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_DrivingLicence() {
	b := vBytes("b", 53)
	c := vBytes("c", 53)
	vAssume(dLicence(b))
	vAssume(dLicence(c))
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	vAssert(err == nil, "DrivingLicence accepted")
	firstMsg := proto.Clone(x)
	out, err := appendDrivingLicenceInfo(nil, x)
	vAssert(err == nil, "DrivingLicence encodes")
	keep := vCopy(out)
	y, err := o.unmarshalDrivingLicenceInfo(c)
	vAssert(err == nil, "DrivingLicence accepted")
	out2, err := appendDrivingLicenceInfo(nil, y)
	vAssert(err == nil && vEq(out2, c), "DrivingLicence round trip after another one")
	vAssert(vSame(x, firstMsg), "DrivingLicence decoded earlier stays as it was")
	vAssert(vEq(out, keep), "DrivingLicence encoded earlier stays as it was")
	z, err := o.unmarshalDrivingLicenceInfo(b)
	vAssert(err == nil && vSame(z, firstMsg), "DrivingLicence decodes the same again")
	out3, err := appendDrivingLicenceInfo(nil, z)
	vAssert(err == nil && vEq(out3, keep), "DrivingLicence encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 8 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_Ic() {
	b := vBytes("b", 8)
	c := vBytes("c", 8)
	vAssume(dNone(b))
	vAssume(dNone(c))
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	vAssert(err == nil, "Ic accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardIc(nil, x)
	vAssert(err == nil, "Ic encodes")
	keep := vCopy(out)
	y, err := o.unmarshalIc(c)
	vAssert(err == nil, "Ic accepted")
	out2, err := appendCardIc(nil, y)
	vAssert(err == nil && vEq(out2, c), "Ic round trip after another one")
	vAssert(vSame(x, firstMsg), "Ic decoded earlier stays as it was")
	vAssert(vEq(out, keep), "Ic encoded earlier stays as it was")
	z, err := o.unmarshalIc(b)
	vAssert(err == nil && vSame(z, firstMsg), "Ic decodes the same again")
	out3, err := appendCardIc(nil, z)
	vAssert(err == nil && vEq(out3, keep), "Ic encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 25 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_Icc() {
	b := vBytes("b", 25)
	c := vBytes("c", 25)
	vAssume(dIcc(b))
	vAssume(dIcc(c))
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	vAssert(err == nil, "Icc accepted")
	firstMsg := proto.Clone(x)
	out, err := appendIcc(nil, x)
	vAssert(err == nil, "Icc encodes")
	keep := vCopy(out)
	y, err := o.unmarshalIcc(c)
	vAssert(err == nil, "Icc accepted")
	out2, err := appendIcc(nil, y)
	vAssert(err == nil && vEq(out2, c), "Icc round trip after another one")
	vAssert(vSame(x, firstMsg), "Icc decoded earlier stays as it was")
	vAssert(vEq(out, keep), "Icc encoded earlier stays as it was")
	z, err := o.unmarshalIcc(b)
	vAssert(err == nil && vSame(z, firstMsg), "Icc decodes the same again")
	out3, err := appendIcc(nil, z)
	vAssert(err == nil && vEq(out3, keep), "Icc encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_Events() {
	b := vBytes("b", 48)[:0+24*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 48)[:0+24*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(dEach(c, 0, 24, dEvent))
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events accepted")
	firstMsg := proto.Clone(x)
	out, err := appendEventsData(nil, x)
	vAssert(err == nil, "Events encodes")
	keep := vCopy(out)
	y, err := o.unmarshalEventsData(c)
	vAssert(err == nil, "Events accepted")
	out2, err := appendEventsData(nil, y)
	vAssert(err == nil && vEq(out2, c), "Events round trip after another one")
	vAssert(vSame(x, firstMsg), "Events decoded earlier stays as it was")
	vAssert(vEq(out, keep), "Events encoded earlier stays as it was")
	z, err := o.unmarshalEventsData(b)
	vAssert(err == nil && vSame(z, firstMsg), "Events decodes the same again")
	out3, err := appendEventsData(nil, z)
	vAssert(err == nil && vEq(out3, keep), "Events encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_Faults() {
	b := vBytes("b", 48)[:0+24*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 48)[:0+24*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(dEach(c, 0, 24, dEvent))
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults accepted")
	firstMsg := proto.Clone(x)
	out, err := appendFaultsData(nil, x)
	vAssert(err == nil, "Faults encodes")
	keep := vCopy(out)
	y, err := o.unmarshalFaultsData(c)
	vAssert(err == nil, "Faults accepted")
	out2, err := appendFaultsData(nil, y)
	vAssert(err == nil && vEq(out2, c), "Faults round trip after another one")
	vAssert(vSame(x, firstMsg), "Faults decoded earlier stays as it was")
	vAssert(vEq(out, keep), "Faults encoded earlier stays as it was")
	z, err := o.unmarshalFaultsData(b)
	vAssert(err == nil && vSame(z, firstMsg), "Faults decodes the same again")
	out3, err := appendFaultsData(nil, z)
	vAssert(err == nil && vEq(out3, keep), "Faults encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded, anonymised one after the other and the first again
func vh_C24_EF_VehiclesUsed() {
	b := vBytes("b", 64)[:2+31*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 64)[:2+31*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 2, 31, dCardVehicle))
	vAssume(dEach(c, 2, 31, dCardVehicle))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed accepted")
	firstMsg := proto.Clone(x)
	out, err := appendVehiclesUsed(nil, x)
	vAssert(err == nil, "VehiclesUsed encodes")
	keep := vCopy(out)
	p := AnonymizeVehiclesUsed(x)
	firstAnon := proto.Clone(p)
	y, err := o.unmarshalVehiclesUsed(c)
	vAssert(err == nil, "VehiclesUsed accepted")
	out2, err := appendVehiclesUsed(nil, y)
	vAssert(err == nil && vEq(out2, c), "VehiclesUsed round trip after another one")
	q := AnonymizeVehiclesUsed(y)
	vAssert(vSame(p, firstAnon), "VehiclesUsed anonymised earlier stays as it was")
	vAssert(q != nil, "VehiclesUsed anonymised")
	vAssert(vSame(x, firstMsg), "VehiclesUsed decoded earlier stays as it was")
	vAssert(vEq(out, keep), "VehiclesUsed encoded earlier stays as it was")
	z, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil && vSame(z, firstMsg), "VehiclesUsed decodes the same again")
	out3, err := appendVehiclesUsed(nil, z)
	vAssert(err == nil && vEq(out3, keep), "VehiclesUsed encodes the same again")
	vAssert(vSame(AnonymizeVehiclesUsed(z), firstAnon), "VehiclesUsed anonymises the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_VehiclesUsedG2() {
	b := vBytes("b", 98)[:2+48*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 98)[:2+48*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	vAssume(dEach(c, 2, 48, dCardVehicleG2))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 accepted")
	firstMsg := proto.Clone(x)
	out, err := appendVehiclesUsedG2(nil, x)
	vAssert(err == nil, "VehiclesUsedG2 encodes")
	keep := vCopy(out)
	y, err := o.unmarshalVehiclesUsedG2(c)
	vAssert(err == nil, "VehiclesUsedG2 accepted")
	out2, err := appendVehiclesUsedG2(nil, y)
	vAssert(err == nil && vEq(out2, c), "VehiclesUsedG2 round trip after another one")
	vAssert(vSame(x, firstMsg), "VehiclesUsedG2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "VehiclesUsedG2 encoded earlier stays as it was")
	z, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil && vSame(z, firstMsg), "VehiclesUsedG2 decodes the same again")
	out3, err := appendVehiclesUsedG2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "VehiclesUsedG2 encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded, anonymised one after the other and the first again
func vh_C24_EF_Places() {
	b := vBytes("b", 21)[:1+10*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 21)[:1+10*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 1, 10, dNone))
	vAssume(dEach(c, 1, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places accepted")
	firstMsg := proto.Clone(x)
	out, err := appendPlaces(nil, x)
	vAssert(err == nil, "Places encodes")
	keep := vCopy(out)
	p := AnonymizePlaces(x)
	firstAnon := proto.Clone(p)
	y, err := o.unmarshalPlaces(c)
	vAssert(err == nil, "Places accepted")
	out2, err := appendPlaces(nil, y)
	vAssert(err == nil && vEq(out2, c), "Places round trip after another one")
	q := AnonymizePlaces(y)
	vAssert(vSame(p, firstAnon), "Places anonymised earlier stays as it was")
	vAssert(q != nil, "Places anonymised")
	vAssert(vSame(x, firstMsg), "Places decoded earlier stays as it was")
	vAssert(vEq(out, keep), "Places encoded earlier stays as it was")
	z, err := o.unmarshalPlaces(b)
	vAssert(err == nil && vSame(z, firstMsg), "Places decodes the same again")
	out3, err := appendPlaces(nil, z)
	vAssert(err == nil && vEq(out3, keep), "Places encodes the same again")
	vAssert(vSame(AnonymizePlaces(z), firstAnon), "Places anonymises the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded, anonymised one after the other and the first again
func vh_C24_EF_PlacesG2() {
	b := vBytes("b", 44)[:2+21*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 44)[:2+21*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 2, 21, dNone))
	vAssume(dEach(c, 2, 21, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 accepted")
	firstMsg := proto.Clone(x)
	out, err := appendPlacesG2(nil, x)
	vAssert(err == nil, "PlacesG2 encodes")
	keep := vCopy(out)
	p := AnonymizePlacesG2(x)
	firstAnon := proto.Clone(p)
	y, err := o.unmarshalPlacesG2(c)
	vAssert(err == nil, "PlacesG2 accepted")
	out2, err := appendPlacesG2(nil, y)
	vAssert(err == nil && vEq(out2, c), "PlacesG2 round trip after another one")
	q := AnonymizePlacesG2(y)
	vAssert(vSame(p, firstAnon), "PlacesG2 anonymised earlier stays as it was")
	vAssert(q != nil, "PlacesG2 anonymised")
	vAssert(vSame(x, firstMsg), "PlacesG2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "PlacesG2 encoded earlier stays as it was")
	z, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil && vSame(z, firstMsg), "PlacesG2 decodes the same again")
	out3, err := appendPlacesG2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "PlacesG2 encodes the same again")
	vAssert(vSame(AnonymizePlacesG2(z), firstAnon), "PlacesG2 anonymises the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_SpecificConditions() {
	b := vBytes("b", 10)[:0+5*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 10)[:0+5*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 0, 5, dNone))
	vAssume(dEach(c, 0, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardSpecificConditions(nil, x)
	vAssert(err == nil, "SpecificConditions encodes")
	keep := vCopy(out)
	y, err := o.unmarshalSpecificConditions(c)
	vAssert(err == nil, "SpecificConditions accepted")
	out2, err := appendCardSpecificConditions(nil, y)
	vAssert(err == nil && vEq(out2, c), "SpecificConditions round trip after another one")
	vAssert(vSame(x, firstMsg), "SpecificConditions decoded earlier stays as it was")
	vAssert(vEq(out, keep), "SpecificConditions encoded earlier stays as it was")
	z, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil && vSame(z, firstMsg), "SpecificConditions decodes the same again")
	out3, err := appendCardSpecificConditions(nil, z)
	vAssert(err == nil && vEq(out3, keep), "SpecificConditions encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_SpecificConditionsG2() {
	b := vBytes("b", 12)[:2+5*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 12)[:2+5*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 2, 5, dNone))
	vAssume(dEach(c, 2, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardSpecificConditionsG2(nil, x)
	vAssert(err == nil, "SpecificConditionsG2 encodes")
	keep := vCopy(out)
	y, err := o.unmarshalSpecificConditionsG2(c)
	vAssert(err == nil, "SpecificConditionsG2 accepted")
	out2, err := appendCardSpecificConditionsG2(nil, y)
	vAssert(err == nil && vEq(out2, c), "SpecificConditionsG2 round trip after another one")
	vAssert(vSame(x, firstMsg), "SpecificConditionsG2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "SpecificConditionsG2 encoded earlier stays as it was")
	z, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil && vSame(z, firstMsg), "SpecificConditionsG2 decodes the same again")
	out3, err := appendCardSpecificConditionsG2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "SpecificConditionsG2 encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_VehicleUnitsUsed() {
	b := vBytes("b", 22)[:2+10*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 22)[:2+10*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 2, 10, dNone))
	vAssume(dEach(c, 2, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardVehicleUnitsUsed(nil, x)
	vAssert(err == nil, "VehicleUnitsUsed encodes")
	keep := vCopy(out)
	y, err := o.unmarshalVehicleUnitsUsed(c)
	vAssert(err == nil, "VehicleUnitsUsed accepted")
	out2, err := appendCardVehicleUnitsUsed(nil, y)
	vAssert(err == nil && vEq(out2, c), "VehicleUnitsUsed round trip after another one")
	vAssert(vSame(x, firstMsg), "VehicleUnitsUsed decoded earlier stays as it was")
	vAssert(vEq(out, keep), "VehicleUnitsUsed encoded earlier stays as it was")
	z, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil && vSame(z, firstMsg), "VehicleUnitsUsed decodes the same again")
	out3, err := appendCardVehicleUnitsUsed(nil, z)
	vAssert(err == nil && vEq(out3, keep), "VehicleUnitsUsed encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two files of 1 record (thorough: 1 or 2), all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_EF_GnssPlaces() {
	b := vBytes("b", 38)[:2+18*(1+vPick("bn", 1+vTier()))]
	c := vBytes("c", 38)[:2+18*(1+vPick("cn", 1+vTier()))]
	vAssume(dEach(b, 2, 18, dNone))
	vAssume(dEach(c, 2, 18, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces accepted")
	firstMsg := proto.Clone(x)
	out, err := appendCardGnssPlaces(nil, x)
	vAssert(err == nil, "GnssPlaces encodes")
	keep := vCopy(out)
	y, err := o.unmarshalGnssPlaces(c)
	vAssert(err == nil, "GnssPlaces accepted")
	out2, err := appendCardGnssPlaces(nil, y)
	vAssert(err == nil && vEq(out2, c), "GnssPlaces round trip after another one")
	vAssert(vSame(x, firstMsg), "GnssPlaces decoded earlier stays as it was")
	vAssert(vEq(out, keep), "GnssPlaces encoded earlier stays as it was")
	z, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil && vSame(z, firstMsg), "GnssPlaces decodes the same again")
	out3, err := appendCardGnssPlaces(nil, z)
	vAssert(err == nil && vEq(out3, keep), "GnssPlaces encodes the same again")
	vReach("end", uint64(len(out)))
}

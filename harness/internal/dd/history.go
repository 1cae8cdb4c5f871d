package dd

// Written by tools/genhist.py: the same operation on other data in between.

import "google.golang.org/protobuf/proto"

//v:bounds two items of 2 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_ActivityChangeInfo() {
	b := vBytes("b", 2)
	c := vBytes("c", 2)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(b)
	vAssert(err == nil, "ActivityChangeInfo accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendActivityChangeInfo(nil, x)
	vAssert(err == nil, "ActivityChangeInfo encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalActivityChangeInfo(c)
	vAssert(err == nil, "ActivityChangeInfo accepted")
	out2, err := AppendActivityChangeInfo(nil, y)
	vAssert(err == nil && vEq(out2, c), "ActivityChangeInfo round trip after another one")
	vAssert(vSame(x, firstMsg), "ActivityChangeInfo decoded earlier stays as it was")
	vAssert(vEq(out, keep), "ActivityChangeInfo encoded earlier stays as it was")
	z, err := o.UnmarshalActivityChangeInfo(b)
	vAssert(err == nil && vSame(z, firstMsg), "ActivityChangeInfo decodes the same again")
	out3, err := AppendActivityChangeInfo(nil, z)
	vAssert(err == nil && vEq(out3, keep), "ActivityChangeInfo encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 2 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_CardStructureVersion() {
	b := vBytes("b", 2)
	c := vBytes("c", 2)
	vAssume(dBCD(b))
	vAssume(dBCD(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	vAssert(err == nil, "CardStructureVersion accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendCardStructureVersion(nil, x)
	vAssert(err == nil, "CardStructureVersion encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalCardStructureVersion(c)
	vAssert(err == nil, "CardStructureVersion accepted")
	out2, err := AppendCardStructureVersion(nil, y)
	vAssert(err == nil && vEq(out2, c), "CardStructureVersion round trip after another one")
	vAssert(vSame(x, firstMsg), "CardStructureVersion decoded earlier stays as it was")
	vAssert(vEq(out, keep), "CardStructureVersion encoded earlier stays as it was")
	z, err := o.UnmarshalCardStructureVersion(b)
	vAssert(err == nil && vSame(z, firstMsg), "CardStructureVersion decodes the same again")
	out3, err := AppendCardStructureVersion(nil, z)
	vAssert(err == nil && vEq(out3, keep), "CardStructureVersion encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 31 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_CardVehicleRecord() {
	b := vBytes("b", 31)
	c := vBytes("c", 31)
	vAssume(dCardVehicle(b))
	vAssume(dCardVehicle(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	vAssert(err == nil, "CardVehicleRecord accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendCardVehicleRecord(nil, x)
	vAssert(err == nil, "CardVehicleRecord encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalCardVehicleRecord(c)
	vAssert(err == nil, "CardVehicleRecord accepted")
	out2, err := AppendCardVehicleRecord(nil, y)
	vAssert(err == nil && vEq(out2, c), "CardVehicleRecord round trip after another one")
	vAssert(vSame(x, firstMsg), "CardVehicleRecord decoded earlier stays as it was")
	vAssert(vEq(out, keep), "CardVehicleRecord encoded earlier stays as it was")
	z, err := o.UnmarshalCardVehicleRecord(b)
	vAssert(err == nil && vSame(z, firstMsg), "CardVehicleRecord decodes the same again")
	out3, err := AppendCardVehicleRecord(nil, z)
	vAssert(err == nil && vEq(out3, keep), "CardVehicleRecord encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 48 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_CardVehicleRecordG2() {
	b := vBytes("b", 48)
	c := vBytes("c", 48)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	vAssume(dCardVehicle(c) && dVIN(c[31:48]))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err == nil, "CardVehicleRecordG2 accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendCardVehicleRecordG2(nil, x)
	vAssert(err == nil, "CardVehicleRecordG2 encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalCardVehicleRecordG2(c)
	vAssert(err == nil, "CardVehicleRecordG2 accepted")
	out2, err := AppendCardVehicleRecordG2(nil, y)
	vAssert(err == nil && vEq(out2, c), "CardVehicleRecordG2 round trip after another one")
	vAssert(vSame(x, firstMsg), "CardVehicleRecordG2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "CardVehicleRecordG2 encoded earlier stays as it was")
	z, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err == nil && vSame(z, firstMsg), "CardVehicleRecordG2 decodes the same again")
	out3, err := AppendCardVehicleRecordG2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "CardVehicleRecordG2 encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 4 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_Date() {
	b := vBytes("b", 4)
	c := vBytes("c", 4)
	vAssume(dBCD(b))
	vAssume(dBCD(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalDate(b)
	vAssert(err == nil, "Date accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendDate(nil, x)
	vAssert(err == nil, "Date encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalDate(c)
	vAssert(err == nil, "Date accepted")
	out2, err := AppendDate(nil, y)
	vAssert(err == nil && vEq(out2, c), "Date round trip after another one")
	vAssert(vSame(x, firstMsg), "Date decoded earlier stays as it was")
	vAssert(vEq(out, keep), "Date encoded earlier stays as it was")
	z, err := o.UnmarshalDate(b)
	vAssert(err == nil && vSame(z, firstMsg), "Date decodes the same again")
	out3, err := AppendDate(nil, z)
	vAssert(err == nil && vEq(out3, keep), "Date encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 2 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_MonthYear() {
	b := vBytes("b", 2)
	c := vBytes("c", 2)
	vAssume(dBCD(b))
	vAssume(dBCD(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalMonthYear(b)
	vAssert(err == nil, "MonthYear accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendMonthYear(nil, x)
	vAssert(err == nil, "MonthYear encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalMonthYear(c)
	vAssert(err == nil, "MonthYear accepted")
	out2, err := AppendMonthYear(nil, y)
	vAssert(err == nil && vEq(out2, c), "MonthYear round trip after another one")
	vAssert(vSame(x, firstMsg), "MonthYear decoded earlier stays as it was")
	vAssert(vEq(out, keep), "MonthYear encoded earlier stays as it was")
	z, err := o.UnmarshalMonthYear(b)
	vAssert(err == nil && vSame(z, firstMsg), "MonthYear decodes the same again")
	out3, err := AppendMonthYear(nil, z)
	vAssert(err == nil && vEq(out3, keep), "MonthYear encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 1 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_ControlType() {
	b := vBytes("b", 1)
	c := vBytes("c", 1)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalControlType(b)
	vAssert(err == nil, "ControlType accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendControlType(nil, x)
	vAssert(err == nil, "ControlType encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalControlType(c)
	vAssert(err == nil, "ControlType accepted")
	out2, err := AppendControlType(nil, y)
	vAssert(err == nil && vEq(out2, c), "ControlType round trip after another one")
	vAssert(vSame(x, firstMsg), "ControlType decoded earlier stays as it was")
	vAssert(vEq(out, keep), "ControlType encoded earlier stays as it was")
	z, err := o.UnmarshalControlType(b)
	vAssert(err == nil && vSame(z, firstMsg), "ControlType decodes the same again")
	out3, err := AppendControlType(nil, z)
	vAssert(err == nil && vEq(out3, keep), "ControlType encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 14 bytes, all symbolic; values the data dictionary defines; decoded, encoded, anonymised one after the other and the first again
func vh_C24_DriverIdentification() {
	b := vBytes("b", 14)
	c := vBytes("c", 14)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	vAssert(err == nil, "DriverIdentification accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendDriverIdentification(nil, x)
	vAssert(err == nil, "DriverIdentification encodes")
	keep := vCopy(out)
	p := AnonymizeDriverIdentification(x)
	firstAnon := proto.Clone(p)
	y, err := o.UnmarshalDriverIdentification(c)
	vAssert(err == nil, "DriverIdentification accepted")
	out2, err := AppendDriverIdentification(nil, y)
	vAssert(err == nil && vEq(out2, c), "DriverIdentification round trip after another one")
	q := AnonymizeDriverIdentification(y)
	vAssert(vSame(p, firstAnon), "DriverIdentification anonymised earlier stays as it was")
	vAssert(q != nil, "DriverIdentification anonymised")
	vAssert(vSame(x, firstMsg), "DriverIdentification decoded earlier stays as it was")
	vAssert(vEq(out, keep), "DriverIdentification encoded earlier stays as it was")
	z, err := o.UnmarshalDriverIdentification(b)
	vAssert(err == nil && vSame(z, firstMsg), "DriverIdentification decodes the same again")
	out3, err := AppendDriverIdentification(nil, z)
	vAssert(err == nil && vEq(out3, keep), "DriverIdentification encodes the same again")
	vAssert(vSame(AnonymizeDriverIdentification(z), firstAnon), "DriverIdentification anonymises the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 8 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_ExtendedSerialNumber() {
	b := vBytes("b", 8)
	c := vBytes("c", 8)
	vAssume(dESN(b))
	vAssume(dESN(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	vAssert(err == nil, "ExtendedSerialNumber accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendExtendedSerialNumber(nil, x)
	vAssert(err == nil, "ExtendedSerialNumber encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalExtendedSerialNumber(c)
	vAssert(err == nil, "ExtendedSerialNumber accepted")
	out2, err := AppendExtendedSerialNumber(nil, y)
	vAssert(err == nil && vEq(out2, c), "ExtendedSerialNumber round trip after another one")
	vAssert(vSame(x, firstMsg), "ExtendedSerialNumber decoded earlier stays as it was")
	vAssert(vEq(out, keep), "ExtendedSerialNumber encoded earlier stays as it was")
	z, err := o.UnmarshalExtendedSerialNumber(b)
	vAssert(err == nil && vSame(z, firstMsg), "ExtendedSerialNumber decodes the same again")
	out3, err := AppendExtendedSerialNumber(nil, z)
	vAssert(err == nil && vEq(out3, keep), "ExtendedSerialNumber encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 18 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_FullCardNumber() {
	b := vBytes("b", 18)
	c := vBytes("c", 18)
	vAssume(dFCN(b))
	vAssume(dFCN(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	vAssert(err == nil, "FullCardNumber accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendFullCardNumber(nil, x)
	vAssert(err == nil, "FullCardNumber encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalFullCardNumber(c)
	vAssert(err == nil, "FullCardNumber accepted")
	out2, err := AppendFullCardNumber(nil, y)
	vAssert(err == nil && vEq(out2, c), "FullCardNumber round trip after another one")
	vAssert(vSame(x, firstMsg), "FullCardNumber decoded earlier stays as it was")
	vAssert(vEq(out, keep), "FullCardNumber encoded earlier stays as it was")
	z, err := o.UnmarshalFullCardNumber(b)
	vAssert(err == nil && vSame(z, firstMsg), "FullCardNumber decodes the same again")
	out3, err := AppendFullCardNumber(nil, z)
	vAssert(err == nil && vEq(out3, keep), "FullCardNumber encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 19 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_FullCardNumberAndGeneration() {
	b := vBytes("b", 19)
	c := vBytes("c", 19)
	vAssume(dFCNG(b))
	vAssume(dFCNG(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	vAssert(err == nil, "FullCardNumberAndGeneration accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendFullCardNumberAndGeneration(nil, x)
	vAssert(err == nil, "FullCardNumberAndGeneration encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalFullCardNumberAndGeneration(c)
	vAssert(err == nil, "FullCardNumberAndGeneration accepted")
	out2, err := AppendFullCardNumberAndGeneration(nil, y)
	vAssert(err == nil && vEq(out2, c), "FullCardNumberAndGeneration round trip after another one")
	vAssert(vSame(x, firstMsg), "FullCardNumberAndGeneration decoded earlier stays as it was")
	vAssert(vEq(out, keep), "FullCardNumberAndGeneration encoded earlier stays as it was")
	z, err := o.UnmarshalFullCardNumberAndGeneration(b)
	vAssert(err == nil && vSame(z, firstMsg), "FullCardNumberAndGeneration decodes the same again")
	out3, err := AppendFullCardNumberAndGeneration(nil, z)
	vAssert(err == nil && vEq(out3, keep), "FullCardNumberAndGeneration encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 6 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_GeoCoordinates() {
	b := vBytes("b", 6)
	c := vBytes("c", 6)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	vAssert(err == nil, "GeoCoordinates accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendGeoCoordinates(nil, x)
	vAssert(err == nil, "GeoCoordinates encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalGeoCoordinates(c)
	vAssert(err == nil, "GeoCoordinates accepted")
	out2, err := AppendGeoCoordinates(nil, y)
	vAssert(err == nil && vEq(out2, c), "GeoCoordinates round trip after another one")
	vAssert(vSame(x, firstMsg), "GeoCoordinates decoded earlier stays as it was")
	vAssert(vEq(out, keep), "GeoCoordinates encoded earlier stays as it was")
	z, err := o.UnmarshalGeoCoordinates(b)
	vAssert(err == nil && vSame(z, firstMsg), "GeoCoordinates decodes the same again")
	out3, err := AppendGeoCoordinates(nil, z)
	vAssert(err == nil && vEq(out3, keep), "GeoCoordinates encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 11 bytes, all symbolic; values the data dictionary defines; decoded, encoded, anonymised one after the other and the first again
func vh_C24_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	c := vBytes("c", 11)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	vAssert(err == nil, "GNSSPlaceRecord accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendGNSSPlaceRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceRecord encodes")
	keep := vCopy(out)
	p := AnonymizeGNSSPlaceRecord(x)
	firstAnon := proto.Clone(p)
	y, err := o.UnmarshalGNSSPlaceRecord(c)
	vAssert(err == nil, "GNSSPlaceRecord accepted")
	out2, err := AppendGNSSPlaceRecord(nil, y)
	vAssert(err == nil && vEq(out2, c), "GNSSPlaceRecord round trip after another one")
	q := AnonymizeGNSSPlaceRecord(y)
	vAssert(vSame(p, firstAnon), "GNSSPlaceRecord anonymised earlier stays as it was")
	vAssert(q != nil, "GNSSPlaceRecord anonymised")
	vAssert(vSame(x, firstMsg), "GNSSPlaceRecord decoded earlier stays as it was")
	vAssert(vEq(out, keep), "GNSSPlaceRecord encoded earlier stays as it was")
	z, err := o.UnmarshalGNSSPlaceRecord(b)
	vAssert(err == nil && vSame(z, firstMsg), "GNSSPlaceRecord decodes the same again")
	out3, err := AppendGNSSPlaceRecord(nil, z)
	vAssert(err == nil && vEq(out3, keep), "GNSSPlaceRecord encodes the same again")
	vAssert(vSame(AnonymizeGNSSPlaceRecord(z), firstAnon), "GNSSPlaceRecord anonymises the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 12 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_GNSSPlaceAuthRecord() {
	b := vBytes("b", 12)
	c := vBytes("c", 12)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(err == nil, "GNSSPlaceAuthRecord accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendGNSSPlaceAuthRecord(nil, x)
	vAssert(err == nil, "GNSSPlaceAuthRecord encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalGNSSPlaceAuthRecord(c)
	vAssert(err == nil, "GNSSPlaceAuthRecord accepted")
	out2, err := AppendGNSSPlaceAuthRecord(nil, y)
	vAssert(err == nil && vEq(out2, c), "GNSSPlaceAuthRecord round trip after another one")
	vAssert(vSame(x, firstMsg), "GNSSPlaceAuthRecord decoded earlier stays as it was")
	vAssert(vEq(out, keep), "GNSSPlaceAuthRecord encoded earlier stays as it was")
	z, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(err == nil && vSame(z, firstMsg), "GNSSPlaceAuthRecord decodes the same again")
	out3, err := AppendGNSSPlaceAuthRecord(nil, z)
	vAssert(err == nil && vEq(out3, keep), "GNSSPlaceAuthRecord encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 72 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_HolderName() {
	b := vBytes("b", 72)
	c := vBytes("c", 72)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	vAssume(dStr(c[0:36]) && dStr(c[36:72]))
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	vAssert(err == nil, "HolderName accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendHolderName(nil, x)
	vAssert(err == nil, "HolderName encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalHolderName(c)
	vAssert(err == nil, "HolderName accepted")
	out2, err := AppendHolderName(nil, y)
	vAssert(err == nil && vEq(out2, c), "HolderName round trip after another one")
	vAssert(vSame(x, firstMsg), "HolderName decoded earlier stays as it was")
	vAssert(vEq(out, keep), "HolderName encoded earlier stays as it was")
	z, err := o.UnmarshalHolderName(b)
	vAssert(err == nil && vSame(z, firstMsg), "HolderName decodes the same again")
	out3, err := AppendHolderName(nil, z)
	vAssert(err == nil && vEq(out3, keep), "HolderName encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 16 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_OwnerIdentification() {
	b := vBytes("b", 16)
	c := vBytes("c", 16)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	vAssert(err == nil, "OwnerIdentification accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendOwnerIdentification(nil, x)
	vAssert(err == nil, "OwnerIdentification encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalOwnerIdentification(c)
	vAssert(err == nil, "OwnerIdentification accepted")
	out2, err := AppendOwnerIdentification(nil, y)
	vAssert(err == nil && vEq(out2, c), "OwnerIdentification round trip after another one")
	vAssert(vSame(x, firstMsg), "OwnerIdentification decoded earlier stays as it was")
	vAssert(vEq(out, keep), "OwnerIdentification encoded earlier stays as it was")
	z, err := o.UnmarshalOwnerIdentification(b)
	vAssert(err == nil && vSame(z, firstMsg), "OwnerIdentification decodes the same again")
	out3, err := AppendOwnerIdentification(nil, z)
	vAssert(err == nil && vEq(out3, keep), "OwnerIdentification encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 10 bytes, all symbolic; values the data dictionary defines; decoded, encoded, anonymised one after the other and the first again
func vh_C24_PlaceRecord() {
	b := vBytes("b", 10)
	c := vBytes("c", 10)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	vAssert(err == nil, "PlaceRecord accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendPlaceRecord(nil, x)
	vAssert(err == nil, "PlaceRecord encodes")
	keep := vCopy(out)
	p := AnonymizePlaceRecord(x)
	firstAnon := proto.Clone(p)
	y, err := o.UnmarshalPlaceRecord(c)
	vAssert(err == nil, "PlaceRecord accepted")
	out2, err := AppendPlaceRecord(nil, y)
	vAssert(err == nil && vEq(out2, c), "PlaceRecord round trip after another one")
	q := AnonymizePlaceRecord(y)
	vAssert(vSame(p, firstAnon), "PlaceRecord anonymised earlier stays as it was")
	vAssert(q != nil, "PlaceRecord anonymised")
	vAssert(vSame(x, firstMsg), "PlaceRecord decoded earlier stays as it was")
	vAssert(vEq(out, keep), "PlaceRecord encoded earlier stays as it was")
	z, err := o.UnmarshalPlaceRecord(b)
	vAssert(err == nil && vSame(z, firstMsg), "PlaceRecord decodes the same again")
	out3, err := AppendPlaceRecord(nil, z)
	vAssert(err == nil && vEq(out3, keep), "PlaceRecord encodes the same again")
	vAssert(vSame(AnonymizePlaceRecord(z), firstAnon), "PlaceRecord anonymises the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 21 bytes, all symbolic; values the data dictionary defines; decoded, encoded, anonymised one after the other and the first again
func vh_C24_PlaceRecordG2() {
	b := vBytes("b", 21)
	c := vBytes("c", 21)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(err == nil, "PlaceRecordG2 accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendPlaceRecordG2(nil, x)
	vAssert(err == nil, "PlaceRecordG2 encodes")
	keep := vCopy(out)
	p := AnonymizePlaceRecordG2(x)
	firstAnon := proto.Clone(p)
	y, err := o.UnmarshalPlaceRecordG2(c)
	vAssert(err == nil, "PlaceRecordG2 accepted")
	out2, err := AppendPlaceRecordG2(nil, y)
	vAssert(err == nil && vEq(out2, c), "PlaceRecordG2 round trip after another one")
	q := AnonymizePlaceRecordG2(y)
	vAssert(vSame(p, firstAnon), "PlaceRecordG2 anonymised earlier stays as it was")
	vAssert(q != nil, "PlaceRecordG2 anonymised")
	vAssert(vSame(x, firstMsg), "PlaceRecordG2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "PlaceRecordG2 encoded earlier stays as it was")
	z, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(err == nil && vSame(z, firstMsg), "PlaceRecordG2 decodes the same again")
	out3, err := AppendPlaceRecordG2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "PlaceRecordG2 encodes the same again")
	vAssert(vSame(AnonymizePlaceRecordG2(z), firstAnon), "PlaceRecordG2 anonymises the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 19 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_PreviousVehicleInfo() {
	b := vBytes("b", 19)
	c := vBytes("c", 19)
	vAssume(dPrevious(b))
	vAssume(dPrevious(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	vAssert(err == nil, "PreviousVehicleInfo accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendPreviousVehicleInfo(nil, x)
	vAssert(err == nil, "PreviousVehicleInfo encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalPreviousVehicleInfo(c)
	vAssert(err == nil, "PreviousVehicleInfo accepted")
	out2, err := AppendPreviousVehicleInfo(nil, y)
	vAssert(err == nil && vEq(out2, c), "PreviousVehicleInfo round trip after another one")
	vAssert(vSame(x, firstMsg), "PreviousVehicleInfo decoded earlier stays as it was")
	vAssert(vEq(out, keep), "PreviousVehicleInfo encoded earlier stays as it was")
	z, err := o.UnmarshalPreviousVehicleInfo(b)
	vAssert(err == nil && vSame(z, firstMsg), "PreviousVehicleInfo decodes the same again")
	out3, err := AppendPreviousVehicleInfo(nil, z)
	vAssert(err == nil && vEq(out3, keep), "PreviousVehicleInfo encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 20 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_PreviousVehicleInfoG2() {
	b := vBytes("b", 20)
	c := vBytes("c", 20)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	vAssume(dVRN(c) && (c[19] == 1 || c[19] == 2))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	vAssert(err == nil, "PreviousVehicleInfoG2 accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendPreviousVehicleInfoG2(nil, x)
	vAssert(err == nil, "PreviousVehicleInfoG2 encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalPreviousVehicleInfoG2(c)
	vAssert(err == nil, "PreviousVehicleInfoG2 accepted")
	out2, err := AppendPreviousVehicleInfoG2(nil, y)
	vAssert(err == nil && vEq(out2, c), "PreviousVehicleInfoG2 round trip after another one")
	vAssert(vSame(x, firstMsg), "PreviousVehicleInfoG2 decoded earlier stays as it was")
	vAssert(vEq(out, keep), "PreviousVehicleInfoG2 encoded earlier stays as it was")
	z, err := o.UnmarshalPreviousVehicleInfoG2(b)
	vAssert(err == nil && vSame(z, firstMsg), "PreviousVehicleInfoG2 decodes the same again")
	out3, err := AppendPreviousVehicleInfoG2(nil, z)
	vAssert(err == nil && vEq(out3, keep), "PreviousVehicleInfoG2 encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 5 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_SpecificConditionRecord() {
	b := vBytes("b", 5)
	c := vBytes("c", 5)
	vAssume(true)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	vAssert(err == nil, "SpecificConditionRecord accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendSpecificConditionRecord(nil, x)
	vAssert(err == nil, "SpecificConditionRecord encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalSpecificConditionRecord(c)
	vAssert(err == nil, "SpecificConditionRecord accepted")
	out2, err := AppendSpecificConditionRecord(nil, y)
	vAssert(err == nil && vEq(out2, c), "SpecificConditionRecord round trip after another one")
	vAssert(vSame(x, firstMsg), "SpecificConditionRecord decoded earlier stays as it was")
	vAssert(vEq(out, keep), "SpecificConditionRecord encoded earlier stays as it was")
	z, err := o.UnmarshalSpecificConditionRecord(b)
	vAssert(err == nil && vSame(z, firstMsg), "SpecificConditionRecord decodes the same again")
	out3, err := AppendSpecificConditionRecord(nil, z)
	vAssert(err == nil && vEq(out3, keep), "SpecificConditionRecord encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 15 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_VehicleRegistration() {
	b := vBytes("b", 15)
	c := vBytes("c", 15)
	vAssume(dVRN(b))
	vAssume(dVRN(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	vAssert(err == nil, "VehicleRegistration accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendVehicleRegistration(nil, x)
	vAssert(err == nil, "VehicleRegistration encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalVehicleRegistration(c)
	vAssert(err == nil, "VehicleRegistration accepted")
	out2, err := AppendVehicleRegistration(nil, y)
	vAssert(err == nil && vEq(out2, c), "VehicleRegistration round trip after another one")
	vAssert(vSame(x, firstMsg), "VehicleRegistration decoded earlier stays as it was")
	vAssert(vEq(out, keep), "VehicleRegistration encoded earlier stays as it was")
	z, err := o.UnmarshalVehicleRegistration(b)
	vAssert(err == nil && vSame(z, firstMsg), "VehicleRegistration decodes the same again")
	out3, err := AppendVehicleRegistration(nil, z)
	vAssert(err == nil && vEq(out3, keep), "VehicleRegistration encodes the same again")
	vReach("end", uint64(len(out)))
}

//v:bounds two items of 129 bytes, all symbolic; values the data dictionary defines; decoded, encoded one after the other and the first again
func vh_C24_VuCardIWRecord() {
	b := vBytes("b", 129)
	c := vBytes("c", 129)
	vAssume(dIW(b))
	vAssume(dIW(c))
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	vAssert(err == nil, "VuCardIWRecord accepted")
	firstMsg := proto.Clone(x)
	out, err := AppendVuCardIWRecord(nil, x)
	vAssert(err == nil, "VuCardIWRecord encodes")
	keep := vCopy(out)
	y, err := o.UnmarshalVuCardIWRecord(c)
	vAssert(err == nil, "VuCardIWRecord accepted")
	out2, err := AppendVuCardIWRecord(nil, y)
	vAssert(err == nil && vEq(out2, c), "VuCardIWRecord round trip after another one")
	vAssert(vSame(x, firstMsg), "VuCardIWRecord decoded earlier stays as it was")
	vAssert(vEq(out, keep), "VuCardIWRecord encoded earlier stays as it was")
	z, err := o.UnmarshalVuCardIWRecord(b)
	vAssert(err == nil && vSame(z, firstMsg), "VuCardIWRecord decodes the same again")
	out3, err := AppendVuCardIWRecord(nil, z)
	vAssert(err == nil && vEq(out3, keep), "VuCardIWRecord encodes the same again")
	vReach("end", uint64(len(out)))
}

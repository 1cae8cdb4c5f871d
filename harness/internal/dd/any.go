package dd

// Generated by tools/genc01.py.

//v:bounds every byte string of 0 to 4 bytes
//v:thorough:bounds every byte string of 0 to 8 bytes
func vh_C01_dd_ActivityChangeInfo() {
	b := vSym("b", 4+4*vTier())
	x, err := UnmarshalOptions{}.UnmarshalActivityChangeInfo(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 5 bytes
//v:thorough:bounds every byte string of 0 to 10 bytes
func vh_C01_dd_BcdString() {
	b := vBytes("b", 5+5*vTier())[:vRange("n", 0, 5+5*vTier())]
	x, err := UnmarshalOptions{}.UnmarshalBcdString(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 4 bytes
//v:thorough:bounds every byte string of 0 to 8 bytes
func vh_C01_dd_CardStructureVersion() {
	b := vSym("b", 4+4*vTier())
	x, err := UnmarshalOptions{}.UnmarshalCardStructureVersion(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 35 bytes
//v:thorough:bounds every byte string of 0 to 70 bytes
func vh_C01_dd_CardVehicleRecord() {
	b := vSym("b", 35+35*vTier())
	x, err := UnmarshalOptions{}.UnmarshalCardVehicleRecord(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 52 bytes
//v:thorough:bounds every byte string of 0 to 104 bytes
func vh_C01_dd_CardVehicleRecordG2() {
	b := vSym("b", 52+52*vTier())
	x, err := UnmarshalOptions{}.UnmarshalCardVehicleRecordG2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 3 bytes
//v:thorough:bounds every byte string of 0 to 6 bytes
func vh_C01_dd_ControlType() {
	b := vSym("b", 3+3*vTier())
	x, err := UnmarshalOptions{}.UnmarshalControlType(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 6 bytes
//v:thorough:bounds every byte string of 0 to 12 bytes
func vh_C01_dd_Date() {
	b := vSym("b", 6+6*vTier())
	x, err := UnmarshalOptions{}.UnmarshalDate(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 18 bytes
//v:thorough:bounds every byte string of 0 to 36 bytes
func vh_C01_dd_DriverIdentification() {
	b := vSym("b", 18+18*vTier())
	x, err := UnmarshalOptions{}.UnmarshalDriverIdentification(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 10 bytes
//v:thorough:bounds every byte string of 0 to 20 bytes
func vh_C01_dd_ExtendedSerialNumber() {
	b := vSym("b", 10+10*vTier())
	x, err := UnmarshalOptions{}.UnmarshalExtendedSerialNumber(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 20 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_dd_FullCardNumber() {
	b := vSym("b", 20+20*vTier())
	x, err := UnmarshalOptions{}.UnmarshalFullCardNumber(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 21 bytes
//v:thorough:bounds every byte string of 0 to 42 bytes
func vh_C01_dd_FullCardNumberAndGeneration() {
	b := vSym("b", 21+21*vTier())
	x, err := UnmarshalOptions{}.UnmarshalFullCardNumberAndGeneration(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 14 bytes
//v:thorough:bounds every byte string of 0 to 28 bytes
func vh_C01_dd_GNSSPlaceAuthRecord() {
	b := vSym("b", 14+14*vTier())
	x, err := UnmarshalOptions{}.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 14 bytes
//v:thorough:bounds every byte string of 0 to 28 bytes
func vh_C01_dd_GNSSPlaceRecord() {
	b := vSym("b", 14+14*vTier())
	x, err := UnmarshalOptions{}.UnmarshalGNSSPlaceRecord(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 8 bytes
//v:thorough:bounds every byte string of 0 to 16 bytes
func vh_C01_dd_GeoCoordinates() {
	b := vSym("b", 8+8*vTier())
	x, err := UnmarshalOptions{}.UnmarshalGeoCoordinates(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 74 bytes
//v:thorough:bounds every byte string of 0 to 148 bytes
func vh_C01_dd_HolderName() {
	b := vSym("b", 74+74*vTier())
	x, err := UnmarshalOptions{}.UnmarshalHolderName(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 20 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_dd_Ia5StringValue() {
	b := vBytes("b", 20+20*vTier())[:vRange("n", 0, 20+20*vTier())]
	x, err := UnmarshalOptions{}.UnmarshalIa5StringValue(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 4 bytes
//v:thorough:bounds every byte string of 0 to 8 bytes
func vh_C01_dd_MonthYear() {
	b := vSym("b", 4+4*vTier())
	x, err := UnmarshalOptions{}.UnmarshalMonthYear(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 18 bytes
//v:thorough:bounds every byte string of 0 to 36 bytes
func vh_C01_dd_OwnerIdentification() {
	b := vSym("b", 18+18*vTier())
	x, err := UnmarshalOptions{}.UnmarshalOwnerIdentification(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 12 bytes
//v:thorough:bounds every byte string of 0 to 24 bytes
func vh_C01_dd_PlaceRecord() {
	b := vSym("b", 12+12*vTier())
	x, err := UnmarshalOptions{}.UnmarshalPlaceRecord(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 24 bytes
//v:thorough:bounds every byte string of 0 to 48 bytes
func vh_C01_dd_PlaceRecordG2() {
	b := vSym("b", 24+24*vTier())
	x, err := UnmarshalOptions{}.UnmarshalPlaceRecordG2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 22 bytes
//v:thorough:bounds every byte string of 0 to 44 bytes
func vh_C01_dd_PreviousVehicleInfo() {
	b := vSym("b", 22+22*vTier())
	x, err := UnmarshalOptions{}.UnmarshalPreviousVehicleInfo(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 24 bytes
//v:thorough:bounds every byte string of 0 to 48 bytes
func vh_C01_dd_PreviousVehicleInfoG2() {
	b := vSym("b", 24+24*vTier())
	x, err := UnmarshalOptions{}.UnmarshalPreviousVehicleInfoG2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 7 bytes
//v:thorough:bounds every byte string of 0 to 14 bytes
func vh_C01_dd_SpecificConditionRecord() {
	b := vSym("b", 7+7*vTier())
	x, err := UnmarshalOptions{}.UnmarshalSpecificConditionRecord(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 38 bytes
//v:thorough:bounds every byte string of 0 to 76 bytes
func vh_C01_dd_StringValue() {
	b := vSym("b", 38+38*vTier())
	x, err := UnmarshalOptions{}.UnmarshalStringValue(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 17 bytes
//v:thorough:bounds every byte string of 0 to 34 bytes
func vh_C01_dd_VehicleRegistration() {
	b := vSym("b", 17+17*vTier())
	x, err := UnmarshalOptions{}.UnmarshalVehicleRegistration(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 132 bytes
//v:thorough:bounds every byte string of 0 to 264 bytes
func vh_C01_dd_VuCardIWRecord() {
	b := vSym("b", 132+132*vTier())
	x, err := UnmarshalOptions{}.UnmarshalVuCardIWRecord(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}


package card

// Generated by tools/genc01.py.

//v:bounds every byte string of 0 to 12 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_card_ApplicationIdentification() {
	b := vSym("b", 12+28*vTier())
	x, err := UnmarshalOptions{}.unmarshalApplicationIdentification(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 18 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_card_ApplicationIdentificationG2() {
	b := vSym("b", 18+22*vTier())
	x, err := UnmarshalOptions{}.unmarshalApplicationIdentificationG2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 8 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_card_ApplicationIdentificationV2() {
	b := vSym("b", 8+32*vTier())
	x, err := UnmarshalOptions{}.unmarshalApplicationIdentificationV2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 6 bytes
//v:thorough:bounds every byte string of 0 to 20 bytes
func vh_C01_card_CardDownload() {
	b := vSym("b", 6+14*vTier())
	x, err := UnmarshalOptions{}.unmarshalCardDownload(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 48 bytes
//v:thorough:bounds every byte string of 0 to 100 bytes
func vh_C01_card_ControlActivityData() {
	b := vSym("b", 48+52*vTier())
	x, err := UnmarshalOptions{}.unmarshalControlActivityData(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 21 bytes
//v:thorough:bounds every byte string of 0 to 60 bytes
func vh_C01_card_CurrentUsage() {
	b := vSym("b", 21+39*vTier())
	x, err := UnmarshalOptions{}.unmarshalCurrentUsage(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 55 bytes
//v:thorough:bounds every byte string of 0 to 120 bytes
func vh_C01_card_DrivingLicenceInfo() {
	b := vSym("b", 55+65*vTier())
	x, err := UnmarshalOptions{}.unmarshalDrivingLicenceInfo(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 26 bytes
//v:thorough:bounds every byte string of 0 to 60 bytes
func vh_C01_card_EventRecord() {
	b := vSym("b", 26+34*vTier())
	x, err := UnmarshalOptions{}.unmarshalEventRecord(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 54 bytes
//v:thorough:bounds every byte string of 0 to 110 bytes
func vh_C01_card_EventsData() {
	b := vSym("b", 54+56*vTier())
	x, err := UnmarshalOptions{}.unmarshalEventsData(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 54 bytes
//v:thorough:bounds every byte string of 0 to 110 bytes
func vh_C01_card_FaultsData() {
	b := vSym("b", 54+56*vTier())
	x, err := UnmarshalOptions{}.unmarshalFaultsData(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 40 bytes
//v:thorough:bounds every byte string of 0 to 80 bytes
func vh_C01_card_GnssPlaces() {
	b := vSym("b", 40+40*vTier())
	x, err := UnmarshalOptions{}.unmarshalGnssPlaces(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 10 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_card_Ic() {
	b := vSym("b", 10+30*vTier())
	x, err := UnmarshalOptions{}.unmarshalIc(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 27 bytes
//v:thorough:bounds every byte string of 0 to 60 bytes
func vh_C01_card_Icc() {
	b := vSym("b", 27+33*vTier())
	x, err := UnmarshalOptions{}.unmarshalIcc(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 146 bytes
//v:thorough:bounds every byte string of 0 to 300 bytes
func vh_C01_card_Identification() {
	b := vSym("b", 146+154*vTier())
	x, err := UnmarshalOptions{}.unmarshalIdentification(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 33 bytes
//v:thorough:bounds every byte string of 0 to 65 bytes
func vh_C01_card_Places() {
	b := vSym("b", 33+32*vTier())
	x, err := UnmarshalOptions{}.unmarshalPlaces(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 50 bytes
//v:thorough:bounds every byte string of 0 to 90 bytes
func vh_C01_card_PlacesG2() {
	b := vSym("b", 50+40*vTier())
	x, err := UnmarshalOptions{}.unmarshalPlacesG2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 18 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_card_SpecificConditions() {
	b := vSym("b", 18+22*vTier())
	x, err := UnmarshalOptions{}.unmarshalSpecificConditions(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 18 bytes
//v:thorough:bounds every byte string of 0 to 40 bytes
func vh_C01_card_SpecificConditionsG2() {
	b := vSym("b", 18+22*vTier())
	x, err := UnmarshalOptions{}.unmarshalSpecificConditionsG2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 34 bytes
//v:thorough:bounds every byte string of 0 to 70 bytes
func vh_C01_card_VehicleUnitsUsed() {
	b := vSym("b", 34+36*vTier())
	x, err := UnmarshalOptions{}.unmarshalVehicleUnitsUsed(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 68 bytes
//v:thorough:bounds every byte string of 0 to 130 bytes
func vh_C01_card_VehiclesUsed() {
	b := vSym("b", 68+62*vTier())
	x, err := UnmarshalOptions{}.unmarshalVehiclesUsed(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}

//v:bounds every byte string of 0 to 102 bytes
//v:thorough:bounds every byte string of 0 to 200 bytes
func vh_C01_card_VehiclesUsedG2() {
	b := vSym("b", 102+98*vTier())
	x, err := UnmarshalOptions{}.unmarshalVehiclesUsedG2(b)
	vAssert((x == nil) == (err != nil), "C01 value or error")
	vReach("end")
}


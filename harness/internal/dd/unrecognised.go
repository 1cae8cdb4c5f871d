package dd

// Codes outside the dictionary in records that keep them, and in records that
// have no field to keep them.

//v:bounds all place records, both generations
func vh_C07_PlaceRecord_unrecognised() {
	b := vBytes("b", 21)
	var o UnmarshalOptions
	p, err := o.UnmarshalPlaceRecord(b[:10])
	vAssert(err == nil, "PlaceRecord accepted")
	vAssert(okEnum(int32(p.GetEntryTypeDailyWorkPeriod()), p.GetUnrecognizedEntryTypeDailyWorkPeriod(), &eEntryTypeDailyWorkPeriod, b[4]), "PlaceRecord keeps an unknown entry type")
	vAssert(okEnum(int32(p.GetDailyWorkPeriodCountry()), p.GetUnrecognizedDailyWorkPeriodCountry(), &eNationNumeric, b[5]), "PlaceRecord keeps an unknown country")
	p.ClearRawData()
	out, err := AppendPlaceRecord(nil, p)
	vAssert(err == nil && len(out) == 10, "PlaceRecord encodes")
	vAssert(out[4] == b[4] && out[5] == b[5], "PlaceRecord gives unknown codes back")
	q, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(err == nil, "PlaceRecordG2 accepted")
	vAssert(okEnum(int32(q.GetEntryTypeDailyWorkPeriod()), q.GetUnrecognizedEntryTypeDailyWorkPeriod(), &eEntryTypeDailyWorkPeriod, b[4]), "PlaceRecordG2 keeps an unknown entry type")
	vAssert(okEnum(int32(q.GetDailyWorkPeriodCountry()), q.GetUnrecognizedDailyWorkPeriodCountry(), &eNationNumeric, b[5]), "PlaceRecordG2 keeps an unknown country")
	q.ClearRawData()
	out, err = AppendPlaceRecordG2(nil, q)
	vAssert(err == nil && len(out) == 21, "PlaceRecordG2 encodes")
	vAssert(out[4] == b[4] && out[5] == b[5], "PlaceRecordG2 gives unknown codes back")
	vReach("end", uint64(out[4]), uint64(out[5]))
}

//v:bounds all specific condition and authenticated GNSS records
func vh_C07_Records_unrecognised() {
	b := vBytes("b", 12)
	var o UnmarshalOptions
	s, err := o.UnmarshalSpecificConditionRecord(b[:5])
	vAssert(err == nil, "SpecificConditionRecord accepted")
	vAssert(okEnum(int32(s.GetSpecificConditionType()), s.GetUnrecognizedSpecificConditionType(), &eSpecificConditionType, b[4]), "SpecificConditionRecord keeps an unknown type")
	out, err := AppendSpecificConditionRecord(nil, s)
	vAssert(err == nil && len(out) == 5 && out[4] == b[4], "SpecificConditionRecord gives an unknown type back")
	g, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(err == nil, "GNSSPlaceAuthRecord accepted")
	vAssert(okEnum(int32(g.GetAuthenticationStatus()), g.GetUnrecognizedAuthenticationStatus(), &ePositionAuthenticationStatus, b[11]), "GNSSPlaceAuthRecord keeps an unknown status")
	out, err = AppendGNSSPlaceAuthRecord(nil, g)
	vAssert(err == nil && len(out) == 12 && out[11] == b[11], "GNSSPlaceAuthRecord gives an unknown status back")
	vReach("end", uint64(out[11]))
}

//v:bounds all vehicle registrations, serial numbers and card numbers
func vh_C07_Records_undefined() {
	b := vBytes("b", 19)
	var o UnmarshalOptions
	v, err := o.UnmarshalVehicleRegistration(b[:15])
	vAssert(err == nil, "VehicleRegistration accepted")
	if eNationNumeric[b[0]] < 0 {
		vAssert(int32(v.GetNation()) == 1, "VehicleRegistration: an unknown nation is unrecognised")
	}
	e, err := o.UnmarshalExtendedSerialNumber(b[:8])
	vAssert(err == nil, "ExtendedSerialNumber accepted")
	if eEquipmentType[b[6]] < 0 {
		vAssert(int32(e.GetType()) == 1, "ExtendedSerialNumber: an unknown type is unrecognised")
	}
	f, err := o.UnmarshalFullCardNumber(b[:18])
	if eEquipmentType[b[0]] < 0 {
		vAssert(err != nil, "FullCardNumber: an unknown card type is refused")
	}
	if err == nil && eNationNumeric[b[1]] < 0 {
		vAssert(int32(f.GetCardIssuingMemberState()) == 1, "FullCardNumber: an unknown issuing state is unrecognised")
	}
	_, err = o.UnmarshalFullCardNumberAndGeneration(b)
	if eGeneration[b[18]] < 0 {
		vAssert(err != nil, "FullCardNumberAndGeneration: an unknown generation is refused")
	}
	vReach("end")
}

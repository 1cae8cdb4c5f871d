package card

// The values a card is personalised with (Annex 1C appendix 2, default values)
// are values the data dictionary defines.

func fBlank(parts ...int) []byte {
	// alternating numbers of zero bytes and blanks
	var b []byte
	for i, n := range parts {
		for ; n > 0; n-- {
			b = append(b, byte(i&1)*0x20)
		}
	}
	return b
}

func fRepeat(head, n int, r []byte) []byte {
	b := make([]byte, head)
	for ; n > 0; n-- {
		b = append(b, r...)
	}
	return b
}

//v:bounds the default value of one elementary file at a time (21 files)
//v:budget 120
func vh_C03_defaults() {
	var o UnmarshalOptions
	var b, out []byte
	var err error
	ok := true
	switch vPick("file", 21) {
	case 0:
		b = fBlank(9, 8, 8)
		ok = dIcc(b)
		x, e := o.unmarshalIcc(b)
		vAssert(e == nil, "default Icc accepted")
		out, err = appendIcc(nil, x)
	case 1:
		b = fBlank(8)
		x, e := o.unmarshalIc(b)
		vAssert(e == nil, "default Ic accepted")
		out, err = appendCardIc(nil, x)
	case 2:
		b = fBlank(10)
		ok = dAppId(b)
		x, e := o.unmarshalApplicationIdentification(b)
		vAssert(e == nil, "default ApplicationIdentification accepted")
		out, err = appendCardApplicationIdentification(nil, x)
	case 3:
		b = fBlank(17)
		x, e := o.unmarshalApplicationIdentificationG2(b)
		vAssert(e == nil, "default ApplicationIdentificationG2 accepted")
		out, err = appendCardApplicationIdentificationG2(nil, x)
	case 4:
		b = fBlank(10)
		x, e := o.unmarshalApplicationIdentificationV2(b)
		vAssert(e == nil, "default ApplicationIdentificationV2 accepted")
		out, err = appendCardApplicationIdentificationV2(nil, x)
	case 5:
		b = fBlank(1, 16, 1, 35, 13, 35, 1, 35, 4, 2)
		x, e := o.unmarshalIdentification(b)
		vAssert(e == nil, "default Identification accepted")
		out, err = vIdentification(nil, x)
	case 6:
		b = fBlank(1, 35, 1, 16)
		ok = dLicence(b)
		x, e := o.unmarshalDrivingLicenceInfo(b)
		vAssert(e == nil, "default DrivingLicenceInfo accepted")
		out, err = appendDrivingLicenceInfo(nil, x)
	case 7:
		b = fRepeat(0, 12, fBlank(11, 13))
		ok = dEvent(b)
		x, e := o.unmarshalEventsData(b)
		vAssert(e == nil, "default EventsData accepted")
		out, err = appendEventsData(nil, x)
	case 8:
		b = fRepeat(0, 12, fBlank(11, 13))
		ok = dEvent(b)
		x, e := o.unmarshalFaultsData(b)
		vAssert(e == nil, "default FaultsData accepted")
		out, err = appendFaultsData(nil, x)
	case 9:
		b = make([]byte, 4+120)
		x, e := o.unmarshalDriverActivityData(b)
		vAssert(e == nil, "default DriverActivityData accepted")
		out, err = appendDriverActivity(nil, x)
	case 10:
		b = fRepeat(2, 3, fBlank(16, 13, 2))
		ok = dEach(b, 2, 31, dCardVehicle)
		x, e := o.unmarshalVehiclesUsed(b)
		vAssert(e == nil, "default VehiclesUsed accepted")
		out, err = appendVehiclesUsed(nil, x)
	case 11:
		b = fRepeat(2, 3, fBlank(16, 13, 2, 17))
		ok = dEach(b, 2, 48, dCardVehicleG2)
		x, e := o.unmarshalVehiclesUsedG2(b)
		vAssert(e == nil, "default VehiclesUsedG2 accepted")
		out, err = appendVehiclesUsedG2(nil, x)
	case 12:
		b = fRepeat(1, 3, fBlank(10))
		x, e := o.unmarshalPlaces(b)
		vAssert(e == nil, "default Places accepted")
		out, err = appendPlaces(nil, x)
	case 13:
		b = fRepeat(2, 3, fBlank(21))
		x, e := o.unmarshalPlacesG2(b)
		vAssert(e == nil, "default PlacesG2 accepted")
		out, err = appendPlacesG2(nil, x)
	case 14:
		b = fBlank(6, 13)
		ok = dVRN(b[4:])
		x, e := o.unmarshalCurrentUsage(b)
		vAssert(e == nil, "default CurrentUsage accepted")
		out, err = appendCurrentUsage(nil, x)
	case 15:
		b = fBlank(7, 16, 2, 13, 8)
		ok = dControlActivity(b)
		x, e := o.unmarshalControlActivityData(b)
		vAssert(e == nil, "default ControlActivityData accepted")
		out, err = appendCardControlActivityData(nil, x)
	case 16:
		b = fRepeat(0, 5, fBlank(5))
		x, e := o.unmarshalSpecificConditions(b)
		vAssert(e == nil, "default SpecificConditions accepted")
		out, err = appendCardSpecificConditions(nil, x)
	case 17:
		b = fRepeat(2, 5, fBlank(5))
		x, e := o.unmarshalSpecificConditionsG2(b)
		vAssert(e == nil, "default SpecificConditionsG2 accepted")
		out, err = appendCardSpecificConditionsG2(nil, x)
	case 18:
		b = fBlank(4)
		x, e := o.unmarshalCardDownload(b)
		vAssert(e == nil, "default CardDownload accepted")
		out, err = appendCardDownload(nil, x)
	case 19:
		b = fRepeat(2, 3, fBlank(10))
		x, e := o.unmarshalVehicleUnitsUsed(b)
		vAssert(e == nil, "default VehicleUnitsUsed accepted")
		out, err = appendCardVehicleUnitsUsed(nil, x)
	case 20:
		b = fRepeat(2, 3, fBlank(18))
		x, e := o.unmarshalGnssPlaces(b)
		vAssert(e == nil, "default GnssPlaces accepted")
		out, err = appendCardGnssPlaces(nil, x)
	}
	vAssert(ok, "default values are in the domain of the round trips")
	vAssert(err == nil && vEq(out, b), "default elementary file round trip")
	vReach("end", uint64(len(b)))
}

//v:bounds all 143 bytes symbolic; blank indices, or a wholly blank card number, of a card number that is no driver card's
//v:exacttext 16
func vh_C03_Identification_blank() {
	b := vBytes("b", 143)
	vAssume(bAnd(bAnd(dNation(b[0]), dIa5(b[1:14])), bAnd(bOr(b[15] == 0x20, dIndex(b[15])), bOr(b[16] == 0x20, dIndex(b[16])))))
	vAssume(bOr(b[14] == 0x20, bAnd(b[14] > 0x20, b[14] < 0x7f)))
	vAssume(bOr(b[15] == 0x20, b[16] == 0x20))
	vAssume(bAnd(bAnd(dStr(b[17:53]), dStr(b[65:101])), bAnd(dStr(b[101:137]), dBCD(b[137:141]))))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(err == nil, "Identification with blank indices accepted")
	out, err := vIdentification(nil, x)
	vAssert(err == nil && vEq(out, b), "Identification with blank indices round trip")
	vReach("end", uint64(len(out)))
}

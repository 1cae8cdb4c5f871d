package dd

// Written by tools/genclear.py: dictionary items with one field missing.

import ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"

//v:bounds all 2 bytes symbolic; values the data dictionary defines; any one of 5 fields missing, stored bytes kept or dropped
func vh_C23_ActivityChangeInfo() {
	b := vBytes("b", 2)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalActivityChangeInfo(b)
	vAssert(err == nil, "ActivityChangeInfo accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.ActivityChangeInfo)
	}
	f := vPick("field", 5)
	clearActivityChangeInfo(x, f)
	out, err := AppendActivityChangeInfo(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 2, "ActivityChangeInfo with a missing field encodes to its size")
	y, err := o.UnmarshalActivityChangeInfo(out)
	vAssert(err == nil, "ActivityChangeInfo with a missing field decodes")
	clearActivityChangeInfo(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "ActivityChangeInfo with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearActivityChangeInfo(x *ddv1.ActivityChangeInfo, f int) {
	switch f {
	case 0:
		x.ClearSlot()
	case 1:
		x.ClearCrew()
	case 2:
		x.ClearInserted()
	case 3:
		x.ClearActivity()
	case 4:
		x.ClearTimeOfChangeMinutes()
	}
}

//v:bounds all 2 bytes symbolic; values the data dictionary defines; any one of 2 fields missing, stored bytes kept or dropped
func vh_C23_CardStructureVersion() {
	b := vBytes("b", 2)
	vAssume(dBCD(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardStructureVersion(b)
	vAssert(err == nil, "CardStructureVersion accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.CardStructureVersion)
	}
	f := vPick("field", 2)
	clearCardStructureVersion(x, f)
	out, err := AppendCardStructureVersion(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 2, "CardStructureVersion with a missing field encodes to its size")
	y, err := o.UnmarshalCardStructureVersion(out)
	vAssert(err == nil, "CardStructureVersion with a missing field decodes")
	clearCardStructureVersion(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "CardStructureVersion with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearCardStructureVersion(x *ddv1.CardStructureVersion, f int) {
	switch f {
	case 0:
		x.ClearMajor()
	case 1:
		x.ClearMinor()
	}
}

//v:bounds all 31 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 8 fields missing, stored bytes kept or dropped
func vh_C23_CardVehicleRecord() {
	b := vBytes("b", 31)
	v := vPick("text", 4)
	vTextIn(b[15:29], v)
	vAssume(dCardVehicle(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecord(b)
	vAssert(err == nil, "CardVehicleRecord accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.CardVehicleRecord)
	}
	f := vPick("field", 8)
	clearCardVehicleRecord(x, f)
	out, err := AppendCardVehicleRecord(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 31, "CardVehicleRecord with a missing field encodes to its size")
	y, err := o.UnmarshalCardVehicleRecord(out)
	vAssert(err == nil, "CardVehicleRecord with a missing field decodes")
	clearCardVehicleRecord(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "CardVehicleRecord with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearCardVehicleRecord(x *ddv1.CardVehicleRecord, f int) {
	switch f {
	case 0:
		x.ClearVehicleOdometerBeginKm()
	case 1:
		x.ClearVehicleOdometerEndKm()
	case 2:
		x.ClearVehicleFirstUse()
	case 3:
		x.ClearVehicleLastUse()
	case 4:
		x.ClearVehicleRegistration()
	case 5:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNation()
		}
	case 6:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNumber()
		}
	case 7:
		x.ClearVuDataBlockCounter()
	}
}

//v:bounds all 48 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 9 fields missing, stored bytes kept or dropped
func vh_C23_CardVehicleRecordG2() {
	b := vBytes("b", 48)
	v := vPick("text", 4)
	vTextIn(b[15:29], v)
	vIa5In(b[31:48], (v+1)%4)
	vAssume(dCardVehicle(b) && dVIN(b[31:48]))
	var o UnmarshalOptions
	x, err := o.UnmarshalCardVehicleRecordG2(b)
	vAssert(err == nil, "CardVehicleRecordG2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.CardVehicleRecordG2)
	}
	f := vPick("field", 9)
	clearCardVehicleRecordG2(x, f)
	out, err := AppendCardVehicleRecordG2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 48, "CardVehicleRecordG2 with a missing field encodes to its size")
	y, err := o.UnmarshalCardVehicleRecordG2(out)
	vAssert(err == nil, "CardVehicleRecordG2 with a missing field decodes")
	clearCardVehicleRecordG2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "CardVehicleRecordG2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearCardVehicleRecordG2(x *ddv1.CardVehicleRecordG2, f int) {
	switch f {
	case 0:
		x.ClearVehicleOdometerBeginKm()
	case 1:
		x.ClearVehicleOdometerEndKm()
	case 2:
		x.ClearVehicleFirstUse()
	case 3:
		x.ClearVehicleLastUse()
	case 4:
		x.ClearVehicleRegistration()
	case 5:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNation()
		}
	case 6:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNumber()
		}
	case 7:
		x.ClearVuDataBlockCounter()
	case 8:
		x.ClearVehicleIdentificationNumber()
	}
}

//v:bounds all 1 bytes symbolic; values the data dictionary defines; any one of 5 fields missing, stored bytes kept or dropped
func vh_C23_ControlType() {
	b := vBytes("b", 1)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalControlType(b)
	vAssert(err == nil, "ControlType accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.ControlType)
	}
	f := vPick("field", 5)
	clearControlType(x, f)
	out, err := AppendControlType(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 1, "ControlType with a missing field encodes to its size")
	y, err := o.UnmarshalControlType(out)
	vAssert(err == nil, "ControlType with a missing field decodes")
	clearControlType(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "ControlType with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearControlType(x *ddv1.ControlType, f int) {
	switch f {
	case 0:
		x.ClearCardDownloading()
	case 1:
		x.ClearVuDownloading()
	case 2:
		x.ClearPrinting()
	case 3:
		x.ClearDisplay()
	case 4:
		x.ClearCalibrationChecking()
	}
}

//v:bounds all 14 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 3 fields missing, stored bytes kept or dropped
func vh_C23_DriverIdentification() {
	b := vBytes("b", 14)
	v := vPick("text", 4)
	vIa5In(b[0:14], v)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalDriverIdentification(b)
	vAssert(err == nil, "DriverIdentification accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.DriverIdentification)
	}
	f := vPick("field", 3)
	clearDriverIdentification(x, f)
	out, err := AppendDriverIdentification(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 14, "DriverIdentification with a missing field encodes to its size")
	y, err := o.UnmarshalDriverIdentification(out)
	vAssert(err == nil, "DriverIdentification with a missing field decodes")
	clearDriverIdentification(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "DriverIdentification with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearDriverIdentification(x *ddv1.DriverIdentification, f int) {
	switch f {
	case 0:
		x.ClearDriverIdentificationNumber()
	case 1:
		x.ClearCardReplacementIndex()
	case 2:
		x.ClearCardRenewalIndex()
	}
}

//v:bounds all 8 bytes symbolic; values the data dictionary defines; any one of 4 fields missing, stored bytes kept or dropped
func vh_C23_ExtendedSerialNumber() {
	b := vBytes("b", 8)
	vAssume(dESN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalExtendedSerialNumber(b)
	vAssert(err == nil, "ExtendedSerialNumber accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.ExtendedSerialNumber)
	}
	f := vPick("field", 4)
	clearExtendedSerialNumber(x, f)
	out, err := AppendExtendedSerialNumber(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 8, "ExtendedSerialNumber with a missing field encodes to its size")
	y, err := o.UnmarshalExtendedSerialNumber(out)
	vAssert(err == nil, "ExtendedSerialNumber with a missing field decodes")
	clearExtendedSerialNumber(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "ExtendedSerialNumber with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearExtendedSerialNumber(x *ddv1.ExtendedSerialNumber, f int) {
	switch f {
	case 0:
		x.ClearSerialNumber()
	case 1:
		x.ClearMonthYear()
	case 2:
		x.ClearType()
	case 3:
		x.ClearManufacturerCode()
	}
}

//v:bounds all 18 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 11 fields missing, stored bytes kept or dropped
func vh_C23_FullCardNumber() {
	b := vBytes("b", 18)
	v := vPick("text", 4)
	vIa5In(b[2:18], v)
	vAssume(dFCN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumber(b)
	vAssert(err == nil, "FullCardNumber accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.FullCardNumber)
	}
	f := vPick("field", 11)
	clearFullCardNumber(x, f)
	out, err := AppendFullCardNumber(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 18, "FullCardNumber with a missing field encodes to its size")
	y, err := o.UnmarshalFullCardNumber(out)
	vAssert(err == nil, "FullCardNumber with a missing field decodes")
	clearFullCardNumber(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "FullCardNumber with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearFullCardNumber(x *ddv1.FullCardNumber, f int) {
	switch f {
	case 0:
		x.ClearCardType()
	case 1:
		x.ClearCardIssuingMemberState()
	case 2:
		x.ClearDriverIdentification()
	case 3:
		if x.GetDriverIdentification() != nil {
			x.GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 4:
		if x.GetDriverIdentification() != nil {
			x.GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 5:
		if x.GetDriverIdentification() != nil {
			x.GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 6:
		x.ClearOwnerIdentification()
	case 7:
		if x.GetOwnerIdentification() != nil {
			x.GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 8:
		if x.GetOwnerIdentification() != nil {
			x.GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 9:
		if x.GetOwnerIdentification() != nil {
			x.GetOwnerIdentification().ClearReplacementIndex()
		}
	case 10:
		if x.GetOwnerIdentification() != nil {
			x.GetOwnerIdentification().ClearRenewalIndex()
		}
	}
}

//v:bounds all 19 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 13 fields missing, stored bytes kept or dropped
func vh_C23_FullCardNumberAndGeneration() {
	b := vBytes("b", 19)
	v := vPick("text", 4)
	vIa5In(b[2:18], v)
	vAssume(dFCNG(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalFullCardNumberAndGeneration(b)
	vAssert(err == nil, "FullCardNumberAndGeneration accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.FullCardNumberAndGeneration)
	}
	f := vPick("field", 13)
	clearFullCardNumberAndGeneration(x, f)
	out, err := AppendFullCardNumberAndGeneration(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 19, "FullCardNumberAndGeneration with a missing field encodes to its size")
	y, err := o.UnmarshalFullCardNumberAndGeneration(out)
	vAssert(err == nil, "FullCardNumberAndGeneration with a missing field decodes")
	clearFullCardNumberAndGeneration(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "FullCardNumberAndGeneration with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearFullCardNumberAndGeneration(x *ddv1.FullCardNumberAndGeneration, f int) {
	switch f {
	case 0:
		x.ClearFullCardNumber()
	case 1:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearCardType()
		}
	case 2:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearCardIssuingMemberState()
		}
	case 3:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearDriverIdentification()
		}
	case 4:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetFullCardNumber().GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 5:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetFullCardNumber().GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 6:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetFullCardNumber().GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 7:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearOwnerIdentification()
		}
	case 8:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 9:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 10:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearReplacementIndex()
		}
	case 11:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearRenewalIndex()
		}
	case 12:
		x.ClearGeneration()
	}
}

//v:bounds all 6 bytes symbolic; values the data dictionary defines; any one of 2 fields missing, stored bytes kept or dropped
func vh_C23_GeoCoordinates() {
	b := vBytes("b", 6)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGeoCoordinates(b)
	vAssert(err == nil, "GeoCoordinates accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.GeoCoordinates)
	}
	f := vPick("field", 2)
	clearGeoCoordinates(x, f)
	out, err := AppendGeoCoordinates(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 6, "GeoCoordinates with a missing field encodes to its size")
	y, err := o.UnmarshalGeoCoordinates(out)
	vAssert(err == nil, "GeoCoordinates with a missing field decodes")
	clearGeoCoordinates(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "GeoCoordinates with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearGeoCoordinates(x *ddv1.GeoCoordinates, f int) {
	switch f {
	case 0:
		x.ClearLatitude()
	case 1:
		x.ClearLongitude()
	}
}

//v:bounds all 11 bytes symbolic; values the data dictionary defines; any one of 5 fields missing, stored bytes kept or dropped
func vh_C23_GNSSPlaceRecord() {
	b := vBytes("b", 11)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceRecord(b)
	vAssert(err == nil, "GNSSPlaceRecord accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.GNSSPlaceRecord)
	}
	f := vPick("field", 5)
	clearGNSSPlaceRecord(x, f)
	out, err := AppendGNSSPlaceRecord(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 11, "GNSSPlaceRecord with a missing field encodes to its size")
	y, err := o.UnmarshalGNSSPlaceRecord(out)
	vAssert(err == nil, "GNSSPlaceRecord with a missing field decodes")
	clearGNSSPlaceRecord(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "GNSSPlaceRecord with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearGNSSPlaceRecord(x *ddv1.GNSSPlaceRecord, f int) {
	switch f {
	case 0:
		x.ClearTimestamp()
	case 1:
		x.ClearGnssAccuracy()
	case 2:
		x.ClearGeoCoordinates()
	case 3:
		if x.GetGeoCoordinates() != nil {
			x.GetGeoCoordinates().ClearLatitude()
		}
	case 4:
		if x.GetGeoCoordinates() != nil {
			x.GetGeoCoordinates().ClearLongitude()
		}
	}
}

//v:bounds all 12 bytes symbolic; values the data dictionary defines; any one of 6 fields missing, stored bytes kept or dropped
func vh_C23_GNSSPlaceAuthRecord() {
	b := vBytes("b", 12)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalGNSSPlaceAuthRecord(b)
	vAssert(err == nil, "GNSSPlaceAuthRecord accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.GNSSPlaceAuthRecord)
	}
	f := vPick("field", 6)
	clearGNSSPlaceAuthRecord(x, f)
	out, err := AppendGNSSPlaceAuthRecord(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 12, "GNSSPlaceAuthRecord with a missing field encodes to its size")
	y, err := o.UnmarshalGNSSPlaceAuthRecord(out)
	vAssert(err == nil, "GNSSPlaceAuthRecord with a missing field decodes")
	clearGNSSPlaceAuthRecord(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "GNSSPlaceAuthRecord with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearGNSSPlaceAuthRecord(x *ddv1.GNSSPlaceAuthRecord, f int) {
	switch f {
	case 0:
		x.ClearTimestamp()
	case 1:
		x.ClearGnssAccuracy()
	case 2:
		x.ClearGeoCoordinates()
	case 3:
		if x.GetGeoCoordinates() != nil {
			x.GetGeoCoordinates().ClearLatitude()
		}
	case 4:
		if x.GetGeoCoordinates() != nil {
			x.GetGeoCoordinates().ClearLongitude()
		}
	case 5:
		x.ClearAuthenticationStatus(); x.ClearUnrecognizedAuthenticationStatus()
	}
}

//v:bounds all 72 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 2 fields missing, stored bytes kept or dropped
func vh_C23_HolderName() {
	b := vBytes("b", 72)
	v := vPick("text", 4)
	vTextIn(b[0:36], v)
	vTextIn(b[36:72], (v+1)%4)
	vAssume(dStr(b[0:36]) && dStr(b[36:72]))
	var o UnmarshalOptions
	x, err := o.UnmarshalHolderName(b)
	vAssert(err == nil, "HolderName accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.HolderName)
	}
	f := vPick("field", 2)
	clearHolderName(x, f)
	out, err := AppendHolderName(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 72, "HolderName with a missing field encodes to its size")
	y, err := o.UnmarshalHolderName(out)
	vAssert(err == nil, "HolderName with a missing field decodes")
	clearHolderName(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "HolderName with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearHolderName(x *ddv1.HolderName, f int) {
	switch f {
	case 0:
		x.ClearHolderSurname()
	case 1:
		x.ClearHolderFirstNames()
	}
}

//v:bounds all 16 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 4 fields missing, stored bytes kept or dropped
func vh_C23_OwnerIdentification() {
	b := vBytes("b", 16)
	v := vPick("text", 4)
	vIa5In(b[0:13], v)
	vIa5In(b[13:14], (v+1)%4)
	vIa5In(b[14:15], v)
	vIa5In(b[15:16], (v+1)%4)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalOwnerIdentification(b)
	vAssert(err == nil, "OwnerIdentification accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.OwnerIdentification)
	}
	f := vPick("field", 4)
	clearOwnerIdentification(x, f)
	out, err := AppendOwnerIdentification(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 16, "OwnerIdentification with a missing field encodes to its size")
	y, err := o.UnmarshalOwnerIdentification(out)
	vAssert(err == nil, "OwnerIdentification with a missing field decodes")
	clearOwnerIdentification(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "OwnerIdentification with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearOwnerIdentification(x *ddv1.OwnerIdentification, f int) {
	switch f {
	case 0:
		x.ClearOwnerIdentification()
	case 1:
		x.ClearConsecutiveIndex()
	case 2:
		x.ClearReplacementIndex()
	case 3:
		x.ClearRenewalIndex()
	}
}

//v:bounds all 10 bytes symbolic; values the data dictionary defines; any one of 5 fields missing, stored bytes kept or dropped
func vh_C23_PlaceRecord() {
	b := vBytes("b", 10)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecord(b)
	vAssert(err == nil, "PlaceRecord accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.PlaceRecord)
	}
	f := vPick("field", 5)
	clearPlaceRecord(x, f)
	out, err := AppendPlaceRecord(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 10, "PlaceRecord with a missing field encodes to its size")
	y, err := o.UnmarshalPlaceRecord(out)
	vAssert(err == nil, "PlaceRecord with a missing field decodes")
	clearPlaceRecord(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "PlaceRecord with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearPlaceRecord(x *ddv1.PlaceRecord, f int) {
	switch f {
	case 0:
		x.ClearEntryTime()
	case 1:
		x.ClearEntryTypeDailyWorkPeriod(); x.ClearUnrecognizedEntryTypeDailyWorkPeriod()
	case 2:
		x.ClearDailyWorkPeriodCountry(); x.ClearUnrecognizedDailyWorkPeriodCountry()
	case 3:
		x.ClearDailyWorkPeriodRegion()
	case 4:
		x.ClearVehicleOdometerKm()
	}
}

//v:bounds all 21 bytes symbolic; values the data dictionary defines; any one of 11 fields missing, stored bytes kept or dropped
func vh_C23_PlaceRecordG2() {
	b := vBytes("b", 21)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalPlaceRecordG2(b)
	vAssert(err == nil, "PlaceRecordG2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.PlaceRecordG2)
	}
	f := vPick("field", 11)
	clearPlaceRecordG2(x, f)
	out, err := AppendPlaceRecordG2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 21, "PlaceRecordG2 with a missing field encodes to its size")
	y, err := o.UnmarshalPlaceRecordG2(out)
	vAssert(err == nil, "PlaceRecordG2 with a missing field decodes")
	clearPlaceRecordG2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "PlaceRecordG2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearPlaceRecordG2(x *ddv1.PlaceRecordG2, f int) {
	switch f {
	case 0:
		x.ClearEntryTime()
	case 1:
		x.ClearEntryTypeDailyWorkPeriod(); x.ClearUnrecognizedEntryTypeDailyWorkPeriod()
	case 2:
		x.ClearDailyWorkPeriodCountry(); x.ClearUnrecognizedDailyWorkPeriodCountry()
	case 3:
		x.ClearDailyWorkPeriodRegion()
	case 4:
		x.ClearVehicleOdometerKm()
	case 5:
		x.ClearEntryGnssPlaceRecord()
	case 6:
		if x.GetEntryGnssPlaceRecord() != nil {
			x.GetEntryGnssPlaceRecord().ClearTimestamp()
		}
	case 7:
		if x.GetEntryGnssPlaceRecord() != nil {
			x.GetEntryGnssPlaceRecord().ClearGnssAccuracy()
		}
	case 8:
		if x.GetEntryGnssPlaceRecord() != nil {
			x.GetEntryGnssPlaceRecord().ClearGeoCoordinates()
		}
	case 9:
		if x.GetEntryGnssPlaceRecord() != nil && x.GetEntryGnssPlaceRecord().GetGeoCoordinates() != nil {
			x.GetEntryGnssPlaceRecord().GetGeoCoordinates().ClearLatitude()
		}
	case 10:
		if x.GetEntryGnssPlaceRecord() != nil && x.GetEntryGnssPlaceRecord().GetGeoCoordinates() != nil {
			x.GetEntryGnssPlaceRecord().GetGeoCoordinates().ClearLongitude()
		}
	}
}

//v:bounds all 19 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 4 fields missing, stored bytes kept or dropped
func vh_C23_PreviousVehicleInfo() {
	b := vBytes("b", 19)
	v := vPick("text", 4)
	vTextIn(b[1:15], v)
	vAssume(dPrevious(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfo(b)
	vAssert(err == nil, "PreviousVehicleInfo accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.PreviousVehicleInfo)
	}
	f := vPick("field", 4)
	clearPreviousVehicleInfo(x, f)
	out, err := AppendPreviousVehicleInfo(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 19, "PreviousVehicleInfo with a missing field encodes to its size")
	y, err := o.UnmarshalPreviousVehicleInfo(out)
	vAssert(err == nil, "PreviousVehicleInfo with a missing field decodes")
	clearPreviousVehicleInfo(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "PreviousVehicleInfo with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearPreviousVehicleInfo(x *ddv1.PreviousVehicleInfo, f int) {
	switch f {
	case 0:
		x.ClearVehicleRegistration()
	case 1:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNation()
		}
	case 2:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNumber()
		}
	case 3:
		x.ClearCardWithdrawalTime()
	}
}

//v:bounds all 20 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 5 fields missing, stored bytes kept or dropped
func vh_C23_PreviousVehicleInfoG2() {
	b := vBytes("b", 20)
	v := vPick("text", 4)
	vTextIn(b[1:15], v)
	vAssume(dVRN(b) && (b[19] == 1 || b[19] == 2))
	var o UnmarshalOptions
	x, err := o.UnmarshalPreviousVehicleInfoG2(b)
	vAssert(err == nil, "PreviousVehicleInfoG2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.PreviousVehicleInfoG2)
	}
	f := vPick("field", 5)
	clearPreviousVehicleInfoG2(x, f)
	out, err := AppendPreviousVehicleInfoG2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 20, "PreviousVehicleInfoG2 with a missing field encodes to its size")
	y, err := o.UnmarshalPreviousVehicleInfoG2(out)
	vAssert(err == nil, "PreviousVehicleInfoG2 with a missing field decodes")
	clearPreviousVehicleInfoG2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "PreviousVehicleInfoG2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearPreviousVehicleInfoG2(x *ddv1.PreviousVehicleInfoG2, f int) {
	switch f {
	case 0:
		x.ClearVehicleRegistration()
	case 1:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNation()
		}
	case 2:
		if x.GetVehicleRegistration() != nil {
			x.GetVehicleRegistration().ClearNumber()
		}
	case 3:
		x.ClearCardWithdrawalTime()
	case 4:
		x.ClearVuGeneration()
	}
}

//v:bounds all 5 bytes symbolic; values the data dictionary defines; any one of 2 fields missing, stored bytes kept or dropped
func vh_C23_SpecificConditionRecord() {
	b := vBytes("b", 5)
	vAssume(true)
	var o UnmarshalOptions
	x, err := o.UnmarshalSpecificConditionRecord(b)
	vAssert(err == nil, "SpecificConditionRecord accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.SpecificConditionRecord)
	}
	f := vPick("field", 2)
	clearSpecificConditionRecord(x, f)
	out, err := AppendSpecificConditionRecord(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 5, "SpecificConditionRecord with a missing field encodes to its size")
	y, err := o.UnmarshalSpecificConditionRecord(out)
	vAssert(err == nil, "SpecificConditionRecord with a missing field decodes")
	clearSpecificConditionRecord(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "SpecificConditionRecord with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearSpecificConditionRecord(x *ddv1.SpecificConditionRecord, f int) {
	switch f {
	case 0:
		x.ClearEntryTime()
	case 1:
		x.ClearSpecificConditionType(); x.ClearUnrecognizedSpecificConditionType()
	}
}

//v:bounds all 15 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 2 fields missing, stored bytes kept or dropped
func vh_C23_VehicleRegistration() {
	b := vBytes("b", 15)
	v := vPick("text", 4)
	vTextIn(b[1:15], v)
	vAssume(dVRN(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalVehicleRegistration(b)
	vAssert(err == nil, "VehicleRegistration accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.VehicleRegistrationIdentification)
	}
	f := vPick("field", 2)
	clearVehicleRegistration(x, f)
	out, err := AppendVehicleRegistration(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 15, "VehicleRegistration with a missing field encodes to its size")
	y, err := o.UnmarshalVehicleRegistration(out)
	vAssert(err == nil, "VehicleRegistration with a missing field decodes")
	clearVehicleRegistration(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "VehicleRegistration with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearVehicleRegistration(x *ddv1.VehicleRegistrationIdentification, f int) {
	switch f {
	case 0:
		x.ClearNation()
	case 1:
		x.ClearNumber()
	}
}

//v:bounds all 129 bytes symbolic, texts one of four each; values the data dictionary defines; any one of 27 fields missing, stored bytes kept or dropped
//v:exacttext 16
func vh_C23_VuCardIWRecord() {
	b := vBytes("b", 129)
	v := vPick("text", 4)
	vTextIn(b[0:36], v)
	vTextIn(b[36:72], (v+1)%4)
	vIa5In(b[74:90], v)
	vTextIn(b[110:124], (v+1)%4)
	vAssume(dIW(b))
	var o UnmarshalOptions
	x, err := o.UnmarshalVuCardIWRecord(b)
	vAssert(err == nil, "VuCardIWRecord accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*ddv1.VuCardIWRecord)
	}
	f := vPick("field", 27)
	clearVuCardIWRecord(x, f)
	out, err := AppendVuCardIWRecord(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == 129, "VuCardIWRecord with a missing field encodes to its size")
	y, err := o.UnmarshalVuCardIWRecord(out)
	vAssert(err == nil, "VuCardIWRecord with a missing field decodes")
	clearVuCardIWRecord(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "VuCardIWRecord with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearVuCardIWRecord(x *ddv1.VuCardIWRecord, f int) {
	switch f {
	case 0:
		x.ClearCardHolderName()
	case 1:
		if x.GetCardHolderName() != nil {
			x.GetCardHolderName().ClearHolderSurname()
		}
	case 2:
		if x.GetCardHolderName() != nil {
			x.GetCardHolderName().ClearHolderFirstNames()
		}
	case 3:
		x.ClearFullCardNumber()
	case 4:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearCardType()
		}
	case 5:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearCardIssuingMemberState()
		}
	case 6:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearDriverIdentification()
		}
	case 7:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetFullCardNumber().GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 8:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetFullCardNumber().GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 9:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetFullCardNumber().GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 10:
		if x.GetFullCardNumber() != nil {
			x.GetFullCardNumber().ClearOwnerIdentification()
		}
	case 11:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 12:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 13:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearReplacementIndex()
		}
	case 14:
		if x.GetFullCardNumber() != nil && x.GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetFullCardNumber().GetOwnerIdentification().ClearRenewalIndex()
		}
	case 15:
		x.ClearCardExpiryDate()
	case 16:
		x.ClearCardInsertionTime()
	case 17:
		x.ClearOdometerAtInsertionKm()
	case 18:
		x.ClearCardSlotNumber()
	case 19:
		x.ClearCardWithdrawalTime()
	case 20:
		x.ClearOdometerAtWithdrawalKm()
	case 21:
		x.ClearPreviousVehicleInfo()
	case 22:
		if x.GetPreviousVehicleInfo() != nil {
			x.GetPreviousVehicleInfo().ClearVehicleRegistration()
		}
	case 23:
		if x.GetPreviousVehicleInfo() != nil && x.GetPreviousVehicleInfo().GetVehicleRegistration() != nil {
			x.GetPreviousVehicleInfo().GetVehicleRegistration().ClearNation()
		}
	case 24:
		if x.GetPreviousVehicleInfo() != nil && x.GetPreviousVehicleInfo().GetVehicleRegistration() != nil {
			x.GetPreviousVehicleInfo().GetVehicleRegistration().ClearNumber()
		}
	case 25:
		if x.GetPreviousVehicleInfo() != nil {
			x.GetPreviousVehicleInfo().ClearCardWithdrawalTime()
		}
	case 26:
		x.ClearManualInputFlag()
	}
}

// No item at all.
//
//v:bounds every item; buffers of any 3 bytes
func vh_C23_missing() {
	var o UnmarshalOptions
	dst := vBytes("dst", 3)
	n, m, size, back := "", dst, 0, func(b []byte) error { return nil }
	var err error
	switch vPick("item", 23) {
	case 0:
		n, size, back = "ActivityChangeInfo", 2, func(b []byte) error { _, err := o.UnmarshalActivityChangeInfo(b); return err }
		m, err = AppendActivityChangeInfo(dst, nil)
	case 1:
		n, size, back = "CardStructureVersion", 2, func(b []byte) error { _, err := o.UnmarshalCardStructureVersion(b); return err }
		m, err = AppendCardStructureVersion(dst, nil)
	case 2:
		n, size, back = "CardVehicleRecord", 31, func(b []byte) error { _, err := o.UnmarshalCardVehicleRecord(b); return err }
		m, err = AppendCardVehicleRecord(dst, nil)
	case 3:
		n, size, back = "CardVehicleRecordG2", 48, func(b []byte) error { _, err := o.UnmarshalCardVehicleRecordG2(b); return err }
		m, err = AppendCardVehicleRecordG2(dst, nil)
	case 4:
		n, size, back = "Date", 4, func(b []byte) error { _, err := o.UnmarshalDate(b); return err }
		m, err = AppendDate(dst, nil)
	case 5:
		n, size, back = "MonthYear", 2, func(b []byte) error { _, err := o.UnmarshalMonthYear(b); return err }
		m, err = AppendMonthYear(dst, nil)
	case 6:
		n, size, back = "ControlType", 1, func(b []byte) error { _, err := o.UnmarshalControlType(b); return err }
		m, err = AppendControlType(dst, nil)
	case 7:
		n, size, back = "DriverIdentification", 14, func(b []byte) error { _, err := o.UnmarshalDriverIdentification(b); return err }
		m, err = AppendDriverIdentification(dst, nil)
	case 8:
		n, size, back = "ExtendedSerialNumber", 8, func(b []byte) error { _, err := o.UnmarshalExtendedSerialNumber(b); return err }
		m, err = AppendExtendedSerialNumber(dst, nil)
	case 9:
		n, size, back = "FullCardNumber", 18, func(b []byte) error { _, err := o.UnmarshalFullCardNumber(b); return err }
		m, err = AppendFullCardNumber(dst, nil)
	case 10:
		n, size, back = "FullCardNumberAndGeneration", 19, func(b []byte) error { _, err := o.UnmarshalFullCardNumberAndGeneration(b); return err }
		m, err = AppendFullCardNumberAndGeneration(dst, nil)
	case 11:
		n, size, back = "GeoCoordinates", 6, func(b []byte) error { _, err := o.UnmarshalGeoCoordinates(b); return err }
		m, err = AppendGeoCoordinates(dst, nil)
	case 12:
		n, size, back = "GNSSPlaceRecord", 11, func(b []byte) error { _, err := o.UnmarshalGNSSPlaceRecord(b); return err }
		m, err = AppendGNSSPlaceRecord(dst, nil)
	case 13:
		n, size, back = "GNSSPlaceAuthRecord", 12, func(b []byte) error { _, err := o.UnmarshalGNSSPlaceAuthRecord(b); return err }
		m, err = AppendGNSSPlaceAuthRecord(dst, nil)
	case 14:
		n, size, back = "HolderName", 72, func(b []byte) error { _, err := o.UnmarshalHolderName(b); return err }
		m, err = AppendHolderName(dst, nil)
	case 15:
		n, size, back = "OwnerIdentification", 16, func(b []byte) error { _, err := o.UnmarshalOwnerIdentification(b); return err }
		m, err = AppendOwnerIdentification(dst, nil)
	case 16:
		n, size, back = "PlaceRecord", 10, func(b []byte) error { _, err := o.UnmarshalPlaceRecord(b); return err }
		m, err = AppendPlaceRecord(dst, nil)
	case 17:
		n, size, back = "PlaceRecordG2", 21, func(b []byte) error { _, err := o.UnmarshalPlaceRecordG2(b); return err }
		m, err = AppendPlaceRecordG2(dst, nil)
	case 18:
		n, size, back = "PreviousVehicleInfo", 19, func(b []byte) error { _, err := o.UnmarshalPreviousVehicleInfo(b); return err }
		m, err = AppendPreviousVehicleInfo(dst, nil)
	case 19:
		n, size, back = "PreviousVehicleInfoG2", 20, func(b []byte) error { _, err := o.UnmarshalPreviousVehicleInfoG2(b); return err }
		m, err = AppendPreviousVehicleInfoG2(dst, nil)
	case 20:
		n, size, back = "SpecificConditionRecord", 5, func(b []byte) error { _, err := o.UnmarshalSpecificConditionRecord(b); return err }
		m, err = AppendSpecificConditionRecord(dst, nil)
	case 21:
		n, size, back = "VehicleRegistration", 15, func(b []byte) error { _, err := o.UnmarshalVehicleRegistration(b); return err }
		m, err = AppendVehicleRegistration(dst, nil)
	case 22:
		n, size, back = "VuCardIWRecord", 129, func(b []byte) error { _, err := o.UnmarshalVuCardIWRecord(b); return err }
		m, err = AppendVuCardIWRecord(dst, nil)
	}
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(m) == 3+size, "missing item is refused or given its full size: "+n)
	vAssert(vEq(m[:3], dst), "missing item leaves the buffer in front alone: "+n)
	vAssert(back(m[3:]) == nil, "missing item decodes: "+n)
	vReach("end")
}

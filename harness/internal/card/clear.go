package card

// Written by tools/genclear.py: elementary files with one field missing.

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

//v:bounds all 10 bytes symbolic; values the data dictionary defines; any one of 22 fields missing, stored bytes kept or dropped
func vh_C23_EF_ApplicationIdentification() {
	b := vBytes("b", 10)
	vAssume(dAppId(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentification(b)
	vAssert(err == nil, "ApplicationIdentification accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.ApplicationIdentification)
	}
	f := vPick("field", 22)
	clearEFApplicationIdentification(x, f)
	out, err := appendCardApplicationIdentification(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "ApplicationIdentification with a missing field encodes to its size")
	y, err := o.unmarshalApplicationIdentification(out)
	vAssert(err == nil, "ApplicationIdentification with a missing field decodes")
	clearEFApplicationIdentification(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "ApplicationIdentification with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFApplicationIdentification(x *cardv1.ApplicationIdentification, f int) {
	switch f {
	case 0:
		x.ClearTypeOfTachographCardId()
	case 1:
		x.ClearCardStructureVersion()
	case 2:
		if x.GetCardStructureVersion() != nil {
			x.GetCardStructureVersion().ClearMajor()
		}
	case 3:
		if x.GetCardStructureVersion() != nil {
			x.GetCardStructureVersion().ClearMinor()
		}
	case 4:
		x.ClearDriver()
	case 5:
		if x.GetDriver() != nil {
			x.GetDriver().ClearEventsPerTypeCount()
		}
	case 6:
		if x.GetDriver() != nil {
			x.GetDriver().ClearFaultsPerTypeCount()
		}
	case 7:
		if x.GetDriver() != nil {
			x.GetDriver().ClearActivityStructureLength()
		}
	case 8:
		if x.GetDriver() != nil {
			x.GetDriver().ClearCardVehicleRecordsCount()
		}
	case 9:
		if x.GetDriver() != nil {
			x.GetDriver().ClearCardPlaceRecordsCount()
		}
	case 10:
		x.ClearWorkshop()
	case 11:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearEventsPerTypeCount()
		}
	case 12:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearFaultsPerTypeCount()
		}
	case 13:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearActivityStructureLength()
		}
	case 14:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearCardVehicleRecordsCount()
		}
	case 15:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearCardPlaceRecordsCount()
		}
	case 16:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearCalibrationRecordsCount()
		}
	case 17:
		x.ClearCompany()
	case 18:
		if x.GetCompany() != nil {
			x.GetCompany().ClearCompanyActivityRecordsCount()
		}
	case 19:
		x.ClearControl()
	case 20:
		if x.GetControl() != nil {
			x.GetControl().ClearControlActivityRecordsCount()
		}
	case 21:
		x.ClearSignatureVerified()
	}
}

//v:bounds all 17 bytes symbolic; values the data dictionary defines; any one of 25 fields missing, stored bytes kept or dropped
func vh_C23_EF_ApplicationIdentificationG2() {
	b := vBytes("b", 17)
	vAssume(dAppId(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationG2(b)
	vAssert(err == nil, "ApplicationIdentificationG2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.ApplicationIdentificationG2)
	}
	f := vPick("field", 25)
	clearEFApplicationIdentificationG2(x, f)
	out, err := appendCardApplicationIdentificationG2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "ApplicationIdentificationG2 with a missing field encodes to its size")
	y, err := o.unmarshalApplicationIdentificationG2(out)
	vAssert(err == nil, "ApplicationIdentificationG2 with a missing field decodes")
	clearEFApplicationIdentificationG2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "ApplicationIdentificationG2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFApplicationIdentificationG2(x *cardv1.ApplicationIdentificationG2, f int) {
	switch f {
	case 0:
		x.ClearTypeOfTachographCardId()
	case 1:
		x.ClearCardStructureVersion()
	case 2:
		if x.GetCardStructureVersion() != nil {
			x.GetCardStructureVersion().ClearMajor()
		}
	case 3:
		if x.GetCardStructureVersion() != nil {
			x.GetCardStructureVersion().ClearMinor()
		}
	case 4:
		x.ClearDriver()
	case 5:
		if x.GetDriver() != nil {
			x.GetDriver().ClearEventsPerTypeCount()
		}
	case 6:
		if x.GetDriver() != nil {
			x.GetDriver().ClearFaultsPerTypeCount()
		}
	case 7:
		if x.GetDriver() != nil {
			x.GetDriver().ClearActivityStructureLength()
		}
	case 8:
		if x.GetDriver() != nil {
			x.GetDriver().ClearCardVehicleRecordsCount()
		}
	case 9:
		if x.GetDriver() != nil {
			x.GetDriver().ClearCardPlaceRecordsCount()
		}
	case 10:
		if x.GetDriver() != nil {
			x.GetDriver().ClearGnssAdRecordsCount()
		}
	case 11:
		if x.GetDriver() != nil {
			x.GetDriver().ClearSpecificConditionRecordsCount()
		}
	case 12:
		if x.GetDriver() != nil {
			x.GetDriver().ClearCardVehicleUnitRecordsCount()
		}
	case 13:
		x.ClearWorkshop()
	case 14:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearEventsPerTypeCount()
		}
	case 15:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearFaultsPerTypeCount()
		}
	case 16:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearActivityStructureLength()
		}
	case 17:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearCardVehicleRecordsCount()
		}
	case 18:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearCardPlaceRecordsCount()
		}
	case 19:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearCalibrationRecordsCount()
		}
	case 20:
		x.ClearCompany()
	case 21:
		if x.GetCompany() != nil {
			x.GetCompany().ClearCompanyActivityRecordsCount()
		}
	case 22:
		x.ClearControl()
	case 23:
		if x.GetControl() != nil {
			x.GetControl().ClearControlActivityRecordsCount()
		}
	case 24:
		x.ClearSignatureVerified()
	}
}

//v:bounds all 10 bytes symbolic; values the data dictionary defines; any one of 20 fields missing, stored bytes kept or dropped
func vh_C23_EF_ApplicationIdentificationV2() {
	b := vBytes("b", 10)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalApplicationIdentificationV2(b)
	vAssert(err == nil, "ApplicationIdentificationV2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.ApplicationIdentificationV2)
	}
	f := vPick("field", 20)
	clearEFApplicationIdentificationV2(x, f)
	out, err := appendCardApplicationIdentificationV2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "ApplicationIdentificationV2 with a missing field encodes to its size")
	y, err := o.unmarshalApplicationIdentificationV2(out)
	vAssert(err == nil, "ApplicationIdentificationV2 with a missing field decodes")
	clearEFApplicationIdentificationV2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "ApplicationIdentificationV2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFApplicationIdentificationV2(x *cardv1.ApplicationIdentificationV2, f int) {
	switch f {
	case 0:
		x.ClearCardType()
	case 1:
		x.ClearDriver()
	case 2:
		if x.GetDriver() != nil {
			x.GetDriver().ClearLengthOfFollowingData()
		}
	case 3:
		if x.GetDriver() != nil {
			x.GetDriver().ClearBorderCrossingRecordsCount()
		}
	case 4:
		if x.GetDriver() != nil {
			x.GetDriver().ClearLoadUnloadRecordsCount()
		}
	case 5:
		if x.GetDriver() != nil {
			x.GetDriver().ClearLoadTypeEntryRecordsCount()
		}
	case 6:
		if x.GetDriver() != nil {
			x.GetDriver().ClearVuConfigurationLengthRange()
		}
	case 7:
		x.ClearWorkshop()
	case 8:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearLengthOfFollowingData()
		}
	case 9:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearBorderCrossingRecordsCount()
		}
	case 10:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearLoadUnloadRecordsCount()
		}
	case 11:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearLoadTypeEntryRecordsCount()
		}
	case 12:
		if x.GetWorkshop() != nil {
			x.GetWorkshop().ClearVuConfigurationLengthRange()
		}
	case 13:
		x.ClearCompany()
	case 14:
		if x.GetCompany() != nil {
			x.GetCompany().ClearLengthOfFollowingData()
		}
	case 15:
		if x.GetCompany() != nil {
			x.GetCompany().ClearVuConfigurationLengthRange()
		}
	case 16:
		x.ClearControl()
	case 17:
		if x.GetControl() != nil {
			x.GetControl().ClearLengthOfFollowingData()
		}
	case 18:
		if x.GetControl() != nil {
			x.GetControl().ClearVuConfigurationLengthRange()
		}
	case 19:
		x.ClearSignatureVerified()
	}
}

//v:bounds all 4 bytes symbolic; values the data dictionary defines; any one of 2 fields missing, stored bytes kept or dropped
func vh_C23_EF_CardDownload() {
	b := vBytes("b", 4)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalCardDownload(b)
	vAssert(err == nil, "CardDownload accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.CardDownloadDriver)
	}
	f := vPick("field", 2)
	clearEFCardDownload(x, f)
	out, err := appendCardDownload(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "CardDownload with a missing field encodes to its size")
	y, err := o.unmarshalCardDownload(out)
	vAssert(err == nil, "CardDownload with a missing field decodes")
	clearEFCardDownload(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "CardDownload with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFCardDownload(x *cardv1.CardDownloadDriver, f int) {
	switch f {
	case 0:
		x.ClearTimestamp()
	case 1:
		x.ClearSignatureVerified()
	}
}

//v:bounds all 46 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 26 fields missing, stored bytes kept or dropped
func vh_C23_EF_ControlActivity() {
	b := vBytes("b", 46)
	v := vPick("text", 4)
	vIa5In(b[7:23], v)
	vTextIn(b[24:38], (v+1)%4)
	vAssume(dControlActivity(b))
	vAssume(rU32(b[1:5]) != 0)
	var o UnmarshalOptions
	x, err := o.unmarshalControlActivityData(b)
	vAssert(err == nil, "ControlActivity accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.ControlActivityData)
	}
	f := vPick("field", 26)
	clearEFControlActivity(x, f)
	out, err := appendCardControlActivityData(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "ControlActivity with a missing field encodes to its size")
	y, err := o.unmarshalControlActivityData(out)
	vAssert(err == nil, "ControlActivity with a missing field decodes")
	clearEFControlActivity(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "ControlActivity with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFControlActivity(x *cardv1.ControlActivityData, f int) {
	switch f {
	case 0:
		x.ClearControlType()
	case 1:
		if x.GetControlType() != nil {
			x.GetControlType().ClearCardDownloading()
		}
	case 2:
		if x.GetControlType() != nil {
			x.GetControlType().ClearVuDownloading()
		}
	case 3:
		if x.GetControlType() != nil {
			x.GetControlType().ClearPrinting()
		}
	case 4:
		if x.GetControlType() != nil {
			x.GetControlType().ClearDisplay()
		}
	case 5:
		if x.GetControlType() != nil {
			x.GetControlType().ClearCalibrationChecking()
		}
	case 6:
		x.ClearControlCardNumber()
	case 7:
		if x.GetControlCardNumber() != nil {
			x.GetControlCardNumber().ClearFullCardNumber()
		}
	case 8:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil {
			x.GetControlCardNumber().GetFullCardNumber().ClearCardType()
		}
	case 9:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil {
			x.GetControlCardNumber().GetFullCardNumber().ClearCardIssuingMemberState()
		}
	case 10:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil {
			x.GetControlCardNumber().GetFullCardNumber().ClearDriverIdentification()
		}
	case 11:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetControlCardNumber().GetFullCardNumber().GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 12:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetControlCardNumber().GetFullCardNumber().GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 13:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetControlCardNumber().GetFullCardNumber().GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 14:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil {
			x.GetControlCardNumber().GetFullCardNumber().ClearOwnerIdentification()
		}
	case 15:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 16:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 17:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification().ClearReplacementIndex()
		}
	case 18:
		if x.GetControlCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber() != nil && x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetControlCardNumber().GetFullCardNumber().GetOwnerIdentification().ClearRenewalIndex()
		}
	case 19:
		if x.GetControlCardNumber() != nil {
			x.GetControlCardNumber().ClearGeneration()
		}
	case 20:
		x.ClearControlVehicleRegistration()
	case 21:
		if x.GetControlVehicleRegistration() != nil {
			x.GetControlVehicleRegistration().ClearNation()
		}
	case 22:
		if x.GetControlVehicleRegistration() != nil {
			x.GetControlVehicleRegistration().ClearNumber()
		}
	case 23:
		x.ClearControlDownloadPeriodBegin()
	case 24:
		x.ClearControlDownloadPeriodEnd()
	case 25:
		x.ClearSignatureVerified()
	}
}

//v:bounds all 19 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 5 fields missing, stored bytes kept or dropped
func vh_C23_EF_CurrentUsage() {
	b := vBytes("b", 19)
	v := vPick("text", 4)
	vTextIn(b[5:19], v)
	vAssume(dVRN(b[4:19]))
	var o UnmarshalOptions
	x, err := o.unmarshalCurrentUsage(b)
	vAssert(err == nil, "CurrentUsage accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.CurrentUsage)
	}
	f := vPick("field", 5)
	clearEFCurrentUsage(x, f)
	out, err := appendCurrentUsage(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "CurrentUsage with a missing field encodes to its size")
	y, err := o.unmarshalCurrentUsage(out)
	vAssert(err == nil, "CurrentUsage with a missing field decodes")
	clearEFCurrentUsage(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "CurrentUsage with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFCurrentUsage(x *cardv1.CurrentUsage, f int) {
	switch f {
	case 0:
		x.ClearSessionOpenTime()
	case 1:
		x.ClearSessionOpenVehicle()
	case 2:
		if x.GetSessionOpenVehicle() != nil {
			x.GetSessionOpenVehicle().ClearNation()
		}
	case 3:
		if x.GetSessionOpenVehicle() != nil {
			x.GetSessionOpenVehicle().ClearNumber()
		}
	case 4:
		x.ClearSignatureVerified()
	}
}

//v:bounds all 53 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 4 fields missing, stored bytes kept or dropped
func vh_C23_EF_DrivingLicence() {
	b := vBytes("b", 53)
	v := vPick("text", 4)
	vTextIn(b[0:36], v)
	vIa5In(b[37:53], (v+1)%4)
	vAssume(dLicence(b))
	var o UnmarshalOptions
	x, err := o.unmarshalDrivingLicenceInfo(b)
	vAssert(err == nil, "DrivingLicence accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.DrivingLicenceInfo)
	}
	f := vPick("field", 4)
	clearEFDrivingLicence(x, f)
	out, err := appendDrivingLicenceInfo(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "DrivingLicence with a missing field encodes to its size")
	y, err := o.unmarshalDrivingLicenceInfo(out)
	vAssert(err == nil, "DrivingLicence with a missing field decodes")
	clearEFDrivingLicence(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "DrivingLicence with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFDrivingLicence(x *cardv1.DrivingLicenceInfo, f int) {
	switch f {
	case 0:
		x.ClearDrivingLicenceIssuingAuthority()
	case 1:
		x.ClearDrivingLicenceIssuingNation()
	case 2:
		x.ClearDrivingLicenceNumber()
	case 3:
		x.ClearSignatureVerified()
	}
}

//v:bounds all 8 bytes symbolic; values the data dictionary defines; any one of 2 fields missing, stored bytes kept or dropped
func vh_C23_EF_Ic() {
	b := vBytes("b", 8)
	vAssume(dNone(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIc(b)
	vAssert(err == nil, "Ic accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.Ic)
	}
	f := vPick("field", 2)
	clearEFIc(x, f)
	out, err := appendCardIc(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "Ic with a missing field encodes to its size")
	y, err := o.unmarshalIc(out)
	vAssert(err == nil, "Ic with a missing field decodes")
	clearEFIc(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "Ic with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFIc(x *cardv1.Ic, f int) {
	switch f {
	case 0:
		x.ClearIcSerialNumber()
	case 1:
		x.ClearIcManufacturingReferences()
	}
}

//v:bounds all 25 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 13 fields missing, stored bytes kept or dropped
func vh_C23_EF_Icc() {
	b := vBytes("b", 25)
	v := vPick("text", 4)
	vIa5In(b[9:17], v)
	vIa5In(b[18:20], (v+1)%4)
	vIa5In(b[20:22], v)
	vAssume(dIcc(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIcc(b)
	vAssert(err == nil, "Icc accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.Icc)
	}
	f := vPick("field", 13)
	clearEFIcc(x, f)
	out, err := appendIcc(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "Icc with a missing field encodes to its size")
	y, err := o.unmarshalIcc(out)
	vAssert(err == nil, "Icc with a missing field decodes")
	clearEFIcc(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "Icc with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFIcc(x *cardv1.Icc, f int) {
	switch f {
	case 0:
		x.ClearClockStop()
	case 1:
		x.ClearCardExtendedSerialNumber()
	case 2:
		if x.GetCardExtendedSerialNumber() != nil {
			x.GetCardExtendedSerialNumber().ClearSerialNumber()
		}
	case 3:
		if x.GetCardExtendedSerialNumber() != nil {
			x.GetCardExtendedSerialNumber().ClearMonthYear()
		}
	case 4:
		if x.GetCardExtendedSerialNumber() != nil {
			x.GetCardExtendedSerialNumber().ClearType()
		}
	case 5:
		if x.GetCardExtendedSerialNumber() != nil {
			x.GetCardExtendedSerialNumber().ClearManufacturerCode()
		}
	case 6:
		x.ClearCardApprovalNumber()
	case 7:
		x.ClearCardPersonaliserId()
	case 8:
		x.ClearEmbedderIcAssemblerId()
	case 9:
		if x.GetEmbedderIcAssemblerId() != nil {
			x.GetEmbedderIcAssemblerId().ClearCountryCode()
		}
	case 10:
		if x.GetEmbedderIcAssemblerId() != nil {
			x.GetEmbedderIcAssemblerId().ClearModuleEmbedder()
		}
	case 11:
		if x.GetEmbedderIcAssemblerId() != nil {
			x.GetEmbedderIcAssemblerId().ClearManufacturerInformation()
		}
	case 12:
		x.ClearIcIdentifier()
	}
}

//v:bounds 2 records of 24 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 6 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_Events() {
	b := vBytes("b", 48)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[0+i*24+10:0+i*24+24], (v+i)%4)
	}
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(rU32(b[1:5]) != 0 && rU32(b[25:29]) != 0)
	var o UnmarshalOptions
	x, err := o.unmarshalEventsData(b)
	vAssert(err == nil, "Events accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.EventsData)
	}
	f := vPick("field", 6)
	clearEFEvents(x, f)
	out, err := appendEventsData(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "Events with a missing field encodes to its size")
	y, err := o.unmarshalEventsData(out)
	vAssert(err == nil, "Events with a missing field decodes")
	clearEFEvents(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "Events with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFEvents(x *cardv1.EventsData, f int) {
	switch f {
	case 0:
		if len(x.GetEvents()) > 0 {
			x.GetEvents()[0].ClearEventType()
		}
	case 1:
		if len(x.GetEvents()) > 0 {
			x.GetEvents()[0].ClearEventEndTime()
		}
	case 2:
		if len(x.GetEvents()) > 0 {
			x.GetEvents()[0].ClearEventVehicleRegistration()
		}
	case 3:
		if len(x.GetEvents()) > 0 && x.GetEvents()[0].GetEventVehicleRegistration() != nil {
			x.GetEvents()[0].GetEventVehicleRegistration().ClearNation()
		}
	case 4:
		if len(x.GetEvents()) > 0 && x.GetEvents()[0].GetEventVehicleRegistration() != nil {
			x.GetEvents()[0].GetEventVehicleRegistration().ClearNumber()
		}
	case 5:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 24 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 6 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_Faults() {
	b := vBytes("b", 48)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[0+i*24+10:0+i*24+24], (v+i)%4)
	}
	vAssume(dEach(b, 0, 24, dEvent))
	vAssume(rU32(b[1:5]) != 0 && rU32(b[25:29]) != 0)
	var o UnmarshalOptions
	x, err := o.unmarshalFaultsData(b)
	vAssert(err == nil, "Faults accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.FaultsData)
	}
	f := vPick("field", 6)
	clearEFFaults(x, f)
	out, err := appendFaultsData(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "Faults with a missing field encodes to its size")
	y, err := o.unmarshalFaultsData(out)
	vAssert(err == nil, "Faults with a missing field decodes")
	clearEFFaults(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "Faults with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFFaults(x *cardv1.FaultsData, f int) {
	switch f {
	case 0:
		if len(x.GetFaults()) > 0 {
			x.GetFaults()[0].ClearFaultType()
		}
	case 1:
		if len(x.GetFaults()) > 0 {
			x.GetFaults()[0].ClearFaultEndTime()
		}
	case 2:
		if len(x.GetFaults()) > 0 {
			x.GetFaults()[0].ClearFaultVehicleRegistration()
		}
	case 3:
		if len(x.GetFaults()) > 0 && x.GetFaults()[0].GetFaultVehicleRegistration() != nil {
			x.GetFaults()[0].GetFaultVehicleRegistration().ClearNation()
		}
	case 4:
		if len(x.GetFaults()) > 0 && x.GetFaults()[0].GetFaultVehicleRegistration() != nil {
			x.GetFaults()[0].GetFaultVehicleRegistration().ClearNumber()
		}
	case 5:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 31 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 10 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_VehiclesUsed() {
	b := vBytes("b", 64)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[2+i*31+15:2+i*31+29], (v+i)%4)
	}
	vAssume(dEach(b, 2, 31, dCardVehicle))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsed(b)
	vAssert(err == nil, "VehiclesUsed accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.VehiclesUsed)
	}
	f := vPick("field", 10)
	clearEFVehiclesUsed(x, f)
	out, err := appendVehiclesUsed(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "VehiclesUsed with a missing field encodes to its size")
	y, err := o.unmarshalVehiclesUsed(out)
	vAssert(err == nil, "VehiclesUsed with a missing field decodes")
	clearEFVehiclesUsed(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "VehiclesUsed with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFVehiclesUsed(x *cardv1.VehiclesUsed, f int) {
	switch f {
	case 0:
		x.ClearNewestRecordIndex()
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleOdometerBeginKm()
		}
	case 2:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleOdometerEndKm()
		}
	case 3:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleFirstUse()
		}
	case 4:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleLastUse()
		}
	case 5:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleRegistration()
		}
	case 6:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetVehicleRegistration() != nil {
			x.GetRecords()[0].GetVehicleRegistration().ClearNation()
		}
	case 7:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetVehicleRegistration() != nil {
			x.GetRecords()[0].GetVehicleRegistration().ClearNumber()
		}
	case 8:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVuDataBlockCounter()
		}
	case 9:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 48 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 11 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_VehiclesUsedG2() {
	b := vBytes("b", 98)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vTextIn(b[2+i*48+15:2+i*48+29], (v+i)%4)
		vIa5In(b[2+i*48+31:2+i*48+48], (v+1)%4)
	}
	vAssume(dEach(b, 2, 48, dCardVehicleG2))
	var o UnmarshalOptions
	x, err := o.unmarshalVehiclesUsedG2(b)
	vAssert(err == nil, "VehiclesUsedG2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.VehiclesUsedG2)
	}
	f := vPick("field", 11)
	clearEFVehiclesUsedG2(x, f)
	out, err := appendVehiclesUsedG2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "VehiclesUsedG2 with a missing field encodes to its size")
	y, err := o.unmarshalVehiclesUsedG2(out)
	vAssert(err == nil, "VehiclesUsedG2 with a missing field decodes")
	clearEFVehiclesUsedG2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "VehiclesUsedG2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFVehiclesUsedG2(x *cardv1.VehiclesUsedG2, f int) {
	switch f {
	case 0:
		x.ClearNewestRecordIndex()
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleOdometerBeginKm()
		}
	case 2:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleOdometerEndKm()
		}
	case 3:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleFirstUse()
		}
	case 4:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleLastUse()
		}
	case 5:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleRegistration()
		}
	case 6:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetVehicleRegistration() != nil {
			x.GetRecords()[0].GetVehicleRegistration().ClearNation()
		}
	case 7:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetVehicleRegistration() != nil {
			x.GetRecords()[0].GetVehicleRegistration().ClearNumber()
		}
	case 8:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVuDataBlockCounter()
		}
	case 9:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleIdentificationNumber()
		}
	case 10:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 10 bytes symbolic; values the data dictionary defines; any one of 7 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_Places() {
	b := vBytes("b", 21)
	vAssume(dEach(b, 1, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlaces(b)
	vAssert(err == nil, "Places accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.Places)
	}
	f := vPick("field", 7)
	clearEFPlaces(x, f)
	out, err := appendPlaces(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "Places with a missing field encodes to its size")
	y, err := o.unmarshalPlaces(out)
	vAssert(err == nil, "Places with a missing field decodes")
	clearEFPlaces(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "Places with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFPlaces(x *cardv1.Places, f int) {
	switch f {
	case 0:
		x.ClearNewestRecordIndex()
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearEntryTime()
		}
	case 2:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearEntryTypeDailyWorkPeriod(); x.GetRecords()[0].ClearUnrecognizedEntryTypeDailyWorkPeriod()
		}
	case 3:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearDailyWorkPeriodCountry(); x.GetRecords()[0].ClearUnrecognizedDailyWorkPeriodCountry()
		}
	case 4:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearDailyWorkPeriodRegion()
		}
	case 5:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleOdometerKm()
		}
	case 6:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 21 bytes symbolic; values the data dictionary defines; any one of 13 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_PlacesG2() {
	b := vBytes("b", 44)
	vAssume(dEach(b, 2, 21, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalPlacesG2(b)
	vAssert(err == nil, "PlacesG2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.PlacesG2)
	}
	f := vPick("field", 13)
	clearEFPlacesG2(x, f)
	out, err := appendPlacesG2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "PlacesG2 with a missing field encodes to its size")
	y, err := o.unmarshalPlacesG2(out)
	vAssert(err == nil, "PlacesG2 with a missing field decodes")
	clearEFPlacesG2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "PlacesG2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFPlacesG2(x *cardv1.PlacesG2, f int) {
	switch f {
	case 0:
		x.ClearNewestRecordIndex()
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearEntryTime()
		}
	case 2:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearEntryTypeDailyWorkPeriod(); x.GetRecords()[0].ClearUnrecognizedEntryTypeDailyWorkPeriod()
		}
	case 3:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearDailyWorkPeriodCountry(); x.GetRecords()[0].ClearUnrecognizedDailyWorkPeriodCountry()
		}
	case 4:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearDailyWorkPeriodRegion()
		}
	case 5:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleOdometerKm()
		}
	case 6:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearEntryGnssPlaceRecord()
		}
	case 7:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetEntryGnssPlaceRecord() != nil {
			x.GetRecords()[0].GetEntryGnssPlaceRecord().ClearTimestamp()
		}
	case 8:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetEntryGnssPlaceRecord() != nil {
			x.GetRecords()[0].GetEntryGnssPlaceRecord().ClearGnssAccuracy()
		}
	case 9:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetEntryGnssPlaceRecord() != nil {
			x.GetRecords()[0].GetEntryGnssPlaceRecord().ClearGeoCoordinates()
		}
	case 10:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetEntryGnssPlaceRecord() != nil && x.GetRecords()[0].GetEntryGnssPlaceRecord().GetGeoCoordinates() != nil {
			x.GetRecords()[0].GetEntryGnssPlaceRecord().GetGeoCoordinates().ClearLatitude()
		}
	case 11:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetEntryGnssPlaceRecord() != nil && x.GetRecords()[0].GetEntryGnssPlaceRecord().GetGeoCoordinates() != nil {
			x.GetRecords()[0].GetEntryGnssPlaceRecord().GetGeoCoordinates().ClearLongitude()
		}
	case 12:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 5 bytes symbolic; values the data dictionary defines; any one of 3 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_SpecificConditions() {
	b := vBytes("b", 10)
	vAssume(dEach(b, 0, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditions(b)
	vAssert(err == nil, "SpecificConditions accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.SpecificConditions)
	}
	f := vPick("field", 3)
	clearEFSpecificConditions(x, f)
	out, err := appendCardSpecificConditions(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "SpecificConditions with a missing field encodes to its size")
	y, err := o.unmarshalSpecificConditions(out)
	vAssert(err == nil, "SpecificConditions with a missing field decodes")
	clearEFSpecificConditions(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "SpecificConditions with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFSpecificConditions(x *cardv1.SpecificConditions, f int) {
	switch f {
	case 0:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearEntryTime()
		}
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearSpecificConditionType(); x.GetRecords()[0].ClearUnrecognizedSpecificConditionType()
		}
	case 2:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 5 bytes symbolic; values the data dictionary defines; any one of 4 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_SpecificConditionsG2() {
	b := vBytes("b", 12)
	vAssume(dEach(b, 2, 5, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalSpecificConditionsG2(b)
	vAssert(err == nil, "SpecificConditionsG2 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.SpecificConditionsG2)
	}
	f := vPick("field", 4)
	clearEFSpecificConditionsG2(x, f)
	out, err := appendCardSpecificConditionsG2(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "SpecificConditionsG2 with a missing field encodes to its size")
	y, err := o.unmarshalSpecificConditionsG2(out)
	vAssert(err == nil, "SpecificConditionsG2 with a missing field decodes")
	clearEFSpecificConditionsG2(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "SpecificConditionsG2 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFSpecificConditionsG2(x *cardv1.SpecificConditionsG2, f int) {
	switch f {
	case 0:
		x.ClearNewestRecordIndex()
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearEntryTime()
		}
	case 2:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearSpecificConditionType(); x.GetRecords()[0].ClearUnrecognizedSpecificConditionType()
		}
	case 3:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 10 bytes symbolic except texts, one of four each; values the data dictionary defines; any one of 6 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_VehicleUnitsUsed() {
	b := vBytes("b", 22)
	v := vPick("text", 4)
	for i := 0; i < 2; i++ {
		vIa5In(b[2+i*10+6:2+i*10+10], (v+i)%4)
	}
	vAssume(dEach(b, 2, 10, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalVehicleUnitsUsed(b)
	vAssert(err == nil, "VehicleUnitsUsed accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.VehicleUnitsUsed)
	}
	f := vPick("field", 6)
	clearEFVehicleUnitsUsed(x, f)
	out, err := appendCardVehicleUnitsUsed(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "VehicleUnitsUsed with a missing field encodes to its size")
	y, err := o.unmarshalVehicleUnitsUsed(out)
	vAssert(err == nil, "VehicleUnitsUsed with a missing field decodes")
	clearEFVehicleUnitsUsed(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "VehicleUnitsUsed with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFVehicleUnitsUsed(x *cardv1.VehicleUnitsUsed, f int) {
	switch f {
	case 0:
		x.ClearVehicleUnitPointerNewestRecord()
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearTimestamp()
		}
	case 2:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearManufacturerCode()
		}
	case 3:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearDeviceId()
		}
	case 4:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVuSoftwareVersion()
		}
	case 5:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 records of 18 bytes symbolic; values the data dictionary defines; any one of 10 fields (of the file or its first record) missing, stored bytes kept or dropped
func vh_C23_EF_GnssPlaces() {
	b := vBytes("b", 38)
	vAssume(dEach(b, 2, 18, dNone))
	var o UnmarshalOptions
	x, err := o.unmarshalGnssPlaces(b)
	vAssert(err == nil, "GnssPlaces accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.GnssPlaces)
	}
	f := vPick("field", 10)
	clearEFGnssPlaces(x, f)
	out, err := appendCardGnssPlaces(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "GnssPlaces with a missing field encodes to its size")
	y, err := o.unmarshalGnssPlaces(out)
	vAssert(err == nil, "GnssPlaces with a missing field decodes")
	clearEFGnssPlaces(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "GnssPlaces with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearEFGnssPlaces(x *cardv1.GnssPlaces, f int) {
	switch f {
	case 0:
		x.ClearNewestRecordIndex()
	case 1:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearTimestamp()
		}
	case 2:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearGnssPlaceRecord()
		}
	case 3:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetGnssPlaceRecord() != nil {
			x.GetRecords()[0].GetGnssPlaceRecord().ClearTimestamp()
		}
	case 4:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetGnssPlaceRecord() != nil {
			x.GetRecords()[0].GetGnssPlaceRecord().ClearGnssAccuracy()
		}
	case 5:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetGnssPlaceRecord() != nil {
			x.GetRecords()[0].GetGnssPlaceRecord().ClearGeoCoordinates()
		}
	case 6:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetGnssPlaceRecord() != nil && x.GetRecords()[0].GetGnssPlaceRecord().GetGeoCoordinates() != nil {
			x.GetRecords()[0].GetGnssPlaceRecord().GetGeoCoordinates().ClearLatitude()
		}
	case 7:
		if len(x.GetRecords()) > 0 && x.GetRecords()[0].GetGnssPlaceRecord() != nil && x.GetRecords()[0].GetGnssPlaceRecord().GetGeoCoordinates() != nil {
			x.GetRecords()[0].GetGnssPlaceRecord().GetGeoCoordinates().ClearLongitude()
		}
	case 8:
		if len(x.GetRecords()) > 0 {
			x.GetRecords()[0].ClearVehicleOdometerKm()
		}
	case 9:
		x.ClearSignatureVerified()
	}
}

//v:bounds every byte symbolic except texts, one of four each; values the data dictionary defines; any one of 35 fields missing
func vh_C23_Identification() {
	b := vBytes("b", 143)
	v := vPick("text", 4)
	vIa5In(b[1:15], v)
	b[15], b[16] = byte("0Z19"[v]), byte("A0 2"[v])
	vTextIn(b[17:53], v)
	vTextIn(b[65:101], (v+1)%4)
	vTextIn(b[101:137], (v+2)%4)
	vIa5In(b[141:143], (v+3)%4)
	vAssume(dIdentification(b))
	var o UnmarshalOptions
	x, err := o.unmarshalIdentification(b)
	vAssert(err == nil, "Identification accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*cardv1.Identification)
	}
	f := vPick("field", 35)
	clearIdentification(x, f)
	out, err := vIdentification(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "Identification with a missing field encodes to its size")
	y, err := o.unmarshalIdentification(out)
	vAssert(err == nil, "Identification with a missing field decodes")
	clearIdentification(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "Identification with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearIdentification(x *cardv1.Identification, f int) {
	switch f {
	case 0:
		x.ClearCard()
	case 1:
		if x.GetCard() != nil {
			x.GetCard().ClearCardIssuingMemberState()
		}
	case 2:
		if x.GetCard() != nil && x.GetCard().GetDriverIdentification() != nil {
			x.GetCard().GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 3:
		if x.GetCard() != nil && x.GetCard().GetDriverIdentification() != nil {
			x.GetCard().GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 4:
		if x.GetCard() != nil && x.GetCard().GetDriverIdentification() != nil {
			x.GetCard().GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 5:
		if x.GetCard() != nil && x.GetCard().GetOwnerIdentification() != nil {
			x.GetCard().GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 6:
		if x.GetCard() != nil && x.GetCard().GetOwnerIdentification() != nil {
			x.GetCard().GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 7:
		if x.GetCard() != nil && x.GetCard().GetOwnerIdentification() != nil {
			x.GetCard().GetOwnerIdentification().ClearReplacementIndex()
		}
	case 8:
		if x.GetCard() != nil && x.GetCard().GetOwnerIdentification() != nil {
			x.GetCard().GetOwnerIdentification().ClearRenewalIndex()
		}
	case 9:
		if x.GetCard() != nil {
			x.GetCard().ClearCardIssuingAuthorityName()
		}
	case 10:
		if x.GetCard() != nil {
			x.GetCard().ClearCardIssueDate()
		}
	case 11:
		if x.GetCard() != nil {
			x.GetCard().ClearCardValidityBegin()
		}
	case 12:
		if x.GetCard() != nil {
			x.GetCard().ClearCardExpiryDate()
		}
	case 13:
		x.ClearDriverCardHolder()
	case 14:
		if x.GetDriverCardHolder() != nil {
			x.GetDriverCardHolder().ClearCardHolderSurname()
		}
	case 15:
		if x.GetDriverCardHolder() != nil {
			x.GetDriverCardHolder().ClearCardHolderFirstNames()
		}
	case 16:
		if x.GetDriverCardHolder() != nil {
			x.GetDriverCardHolder().ClearCardHolderBirthDate()
		}
	case 17:
		if x.GetDriverCardHolder() != nil {
			x.GetDriverCardHolder().ClearCardHolderPreferredLanguage()
		}
	case 18:
		x.ClearWorkshopCardHolder()
	case 19:
		if x.GetWorkshopCardHolder() != nil {
			x.GetWorkshopCardHolder().ClearWorkshopName()
		}
	case 20:
		if x.GetWorkshopCardHolder() != nil {
			x.GetWorkshopCardHolder().ClearWorkshopAddress()
		}
	case 21:
		if x.GetWorkshopCardHolder() != nil {
			x.GetWorkshopCardHolder().ClearCardHolderSurname()
		}
	case 22:
		if x.GetWorkshopCardHolder() != nil {
			x.GetWorkshopCardHolder().ClearCardHolderFirstNames()
		}
	case 23:
		if x.GetWorkshopCardHolder() != nil {
			x.GetWorkshopCardHolder().ClearCardHolderPreferredLanguage()
		}
	case 24:
		x.ClearControlCardHolder()
	case 25:
		if x.GetControlCardHolder() != nil {
			x.GetControlCardHolder().ClearControlBodyName()
		}
	case 26:
		if x.GetControlCardHolder() != nil {
			x.GetControlCardHolder().ClearControlBodyAddress()
		}
	case 27:
		if x.GetControlCardHolder() != nil {
			x.GetControlCardHolder().ClearCardHolderSurname()
		}
	case 28:
		if x.GetControlCardHolder() != nil {
			x.GetControlCardHolder().ClearCardHolderFirstNames()
		}
	case 29:
		if x.GetControlCardHolder() != nil {
			x.GetControlCardHolder().ClearCardHolderPreferredLanguage()
		}
	case 30:
		x.ClearCompanyCardHolder()
	case 31:
		if x.GetCompanyCardHolder() != nil {
			x.GetCompanyCardHolder().ClearCompanyName()
		}
	case 32:
		if x.GetCompanyCardHolder() != nil {
			x.GetCompanyCardHolder().ClearCompanyAddress()
		}
	case 33:
		if x.GetCompanyCardHolder() != nil {
			x.GetCompanyCardHolder().ClearCardHolderPreferredLanguage()
		}
	case 34:
		x.ClearSignatureVerified()
	}
}

//v:bounds 2 valid records of 12 to 16 bytes, all contents symbolic (defined values), without their stored buffer; any one of 10 fields of the first record missing
func vh_C23_DriverActivity() {
	var size [2]int
	total := 0
	for i := range size {
		size[i] = 12 + 2*vPick("size", 3)
		total += size[i]
	}
	b := vBytes("b", 36)[:4+total]
	p := 4
	for i := range size {
		prev := 0
		if i > 0 {
			prev = size[i-1]
		}
		b[p], b[p+1], b[p+2], b[p+3] = byte(prev>>8), byte(prev), byte(size[i]>>8), byte(size[i])
		vAssume(dBCD(b[p+8 : p+10]))
		for j := p + 12; j < p+size[i]; j += 2 {
			vAssume(rU16(b[j:j+2])|0x2000 != 0xffff)
		}
		if i == 1 {
			b[2], b[3] = byte((p-4)>>8), byte(p-4)
		}
		p += size[i]
	}
	var o UnmarshalOptions
	x, err := o.unmarshalDriverActivityData(b)
	vAssert(err == nil, "DriverActivityData accepted")
	x = vStrip(x).(*cardv1.DriverActivityData)
	f := vPick("field", 10)
	clearDriverActivity(x, f)
	out, err := appendDriverActivity(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "DriverActivityData with a missing field encodes to its size")
	y, err := o.unmarshalDriverActivityData(out)
	vAssert(err == nil, "DriverActivityData with a missing field decodes")
	clearDriverActivity(y, f)
	vAssert(vSame(vStrip(y), x), "DriverActivityData with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearDriverActivity(x *cardv1.DriverActivityData, f int) {
	switch f {
	case 0:
		if len(x.GetDailyRecords()) > 0 {
			x.GetDailyRecords()[0].ClearActivityPreviousRecordLength()
		}
	case 1:
		if len(x.GetDailyRecords()) > 0 {
			x.GetDailyRecords()[0].ClearActivityRecordLength()
		}
	case 2:
		if len(x.GetDailyRecords()) > 0 {
			x.GetDailyRecords()[0].ClearActivityRecordDate()
		}
	case 3:
		if len(x.GetDailyRecords()) > 0 {
			x.GetDailyRecords()[0].ClearActivityDailyPresenceCounter()
		}
	case 4:
		if len(x.GetDailyRecords()) > 0 {
			x.GetDailyRecords()[0].ClearActivityDayDistance()
		}
	case 5:
		if len(x.GetDailyRecords()) > 0 && len(x.GetDailyRecords()[0].GetActivityChangeInfo()) > 0 {
			x.GetDailyRecords()[0].GetActivityChangeInfo()[0].ClearSlot()
		}
	case 6:
		if len(x.GetDailyRecords()) > 0 && len(x.GetDailyRecords()[0].GetActivityChangeInfo()) > 0 {
			x.GetDailyRecords()[0].GetActivityChangeInfo()[0].ClearCrew()
		}
	case 7:
		if len(x.GetDailyRecords()) > 0 && len(x.GetDailyRecords()[0].GetActivityChangeInfo()) > 0 {
			x.GetDailyRecords()[0].GetActivityChangeInfo()[0].ClearInserted()
		}
	case 8:
		if len(x.GetDailyRecords()) > 0 && len(x.GetDailyRecords()[0].GetActivityChangeInfo()) > 0 {
			x.GetDailyRecords()[0].GetActivityChangeInfo()[0].ClearActivity()
		}
	case 9:
		if len(x.GetDailyRecords()) > 0 && len(x.GetDailyRecords()[0].GetActivityChangeInfo()) > 0 {
			x.GetDailyRecords()[0].GetActivityChangeInfo()[0].ClearTimeOfChangeMinutes()
		}
	}
}

//v:bounds a card of all 35 elementary files, one byte of each content symbolic, with or without signatures (2 symbolic bytes); any one of 44 files or applications missing
//v:cost 30
func vh_C23_card() {
	_, x := vWhole(0, 1+vPick("signed", 2))
	f := vPick("field", 44)
	clearCard(x, f)
	out, err := MarshalDriverCardFile(x)
	vAssert(err == nil, "a card without one of its files encodes")
	raw, err := UnmarshalRawCardFile(out)
	vAssert(err == nil, "the encoding of a card without one of its files is a card image")
	y, err := UnmarshalDriverCardFile(raw)
	vAssert(err == nil, "the encoding of a card without one of its files decodes")
	vAssert(vSame(y, x), "a card without one of its files keeps the others")
	vReach("end", uint64(f))
}

func clearCard(x *cardv1.DriverCardFile, f int) {
	switch f {
	case 0:
		x.ClearIcc()
	case 1:
		x.ClearIc()
	case 2:
		x.ClearTachograph()
	case 3:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearApplicationIdentification()
		}
	case 4:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearIdentification()
		}
	case 5:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearCardDownload()
		}
	case 6:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearDrivingLicenceInfo()
		}
	case 7:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearEventsData()
		}
	case 8:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearFaultsData()
		}
	case 9:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearDriverActivityData()
		}
	case 10:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearVehiclesUsed()
		}
	case 11:
		if x.GetTachograph() != nil {
			x.GetTachograph().SetPlaces(nil)
		}
	case 12:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearCurrentUsage()
		}
	case 13:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearControlActivityData()
		}
	case 14:
		if x.GetTachograph() != nil {
			x.GetTachograph().SetSpecificConditions(nil)
		}
	case 15:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearCardCertificate()
		}
	case 16:
		if x.GetTachograph() != nil {
			x.GetTachograph().ClearCaCertificate()
		}
	case 17:
		x.ClearTachographG2()
	case 18:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearApplicationIdentification()
		}
	case 19:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearIdentification()
		}
	case 20:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearCardDownload()
		}
	case 21:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearDrivingLicenceInfo()
		}
	case 22:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearEventsData()
		}
	case 23:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearFaultsData()
		}
	case 24:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearDriverActivityData()
		}
	case 25:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearVehiclesUsed()
		}
	case 26:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().SetPlaces(nil)
		}
	case 27:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearCurrentUsage()
		}
	case 28:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearControlActivityData()
		}
	case 29:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().SetSpecificConditions(nil)
		}
	case 30:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearVehicleUnitsUsed()
		}
	case 31:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearGnssPlaces()
		}
	case 32:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearApplicationIdentificationV2()
		}
	case 33:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearPlacesAuthentication()
		}
	case 34:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearGnssPlacesAuthentication()
		}
	case 35:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().SetBorderCrossings(nil)
		}
	case 36:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().SetLoadUnloadOperations(nil)
		}
	case 37:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearLoadTypeEntries()
		}
	case 38:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearCompanyActivityData()
		}
	case 39:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearVuConfiguration()
		}
	case 40:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearCardMaCertificate()
		}
	case 41:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearCardSignCertificate()
		}
	case 42:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearCaCertificate()
		}
	case 43:
		if x.GetTachographG2() != nil {
			x.GetTachographG2().ClearLinkCertificate()
		}
	}
}

package card

import (
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

// Reference decoders of the elementary files of a driver card (Annex 1C
// appendix 2), by offset, written independently of the code under test.

// dIa5: printable IA5 characters, padded with spaces at the end.
func dIa5(b []byte) bool {
	ok := true
	pad := false
	for i := range b {
		pr := bAnd(b[i] > 0x20, b[i] < 0x7f)
		ok = bAnd(ok, bOr(bAnd(pr, !pad), b[i] == 0x20))
		pad = bOr(pad, b[i] == 0x20)
	}
	return ok
}

// dIndex: replacement and renewal indices, '0' to '9' and 'A' to 'Z'.
func dIndex(c byte) bool {
	return bOr(bAnd(c >= '0', c <= '9'), bAnd(c >= 'A', c <= 'Z'))
}

func dAppId(b []byte) bool { return bAnd(eEquipmentType[b[0]] >= 0, dBCD(b[1:3])) }

func refAppId(a *cardv1.ApplicationIdentification, b []byte) {
	vAssert(okDef(int32(a.GetTypeOfTachographCardId()), &eEquipmentType, b[0]), "ApplicationIdentification.type")
	refCSV(a.GetCardStructureVersion(), b[1:3])
	d := a.GetDriver()
	vAssert(d != nil, "ApplicationIdentification.driver present")
	vAssert(d.GetEventsPerTypeCount() == int32(b[3]), "ApplicationIdentification.events_per_type")
	vAssert(d.GetFaultsPerTypeCount() == int32(b[4]), "ApplicationIdentification.faults_per_type")
	vAssert(uint32(d.GetActivityStructureLength()) == rU16(b[5:7]), "ApplicationIdentification.activity_structure_length")
	vAssert(uint32(d.GetCardVehicleRecordsCount()) == rU16(b[7:9]), "ApplicationIdentification.vehicle_records")
	vAssert(d.GetCardPlaceRecordsCount() == int32(b[9]), "ApplicationIdentification.place_records")
}

func refAppIdG2(a *cardv1.ApplicationIdentificationG2, b []byte) {
	vAssert(okDef(int32(a.GetTypeOfTachographCardId()), &eEquipmentType, b[0]), "ApplicationIdentificationG2.type")
	refCSV(a.GetCardStructureVersion(), b[1:3])
	d := a.GetDriver()
	vAssert(d != nil, "ApplicationIdentificationG2.driver present")
	vAssert(d.GetEventsPerTypeCount() == int32(b[3]), "ApplicationIdentificationG2.events_per_type")
	vAssert(d.GetFaultsPerTypeCount() == int32(b[4]), "ApplicationIdentificationG2.faults_per_type")
	vAssert(uint32(d.GetActivityStructureLength()) == rU16(b[5:7]), "ApplicationIdentificationG2.activity_structure_length")
	vAssert(uint32(d.GetCardVehicleRecordsCount()) == rU16(b[7:9]), "ApplicationIdentificationG2.vehicle_records")
	vAssert(uint32(d.GetCardPlaceRecordsCount()) == rU16(b[9:11]), "ApplicationIdentificationG2.place_records")
	vAssert(uint32(d.GetGnssAdRecordsCount()) == rU16(b[11:13]), "ApplicationIdentificationG2.gnss_ad_records")
	vAssert(uint32(d.GetSpecificConditionRecordsCount()) == rU16(b[13:15]), "ApplicationIdentificationG2.specific_condition_records")
	vAssert(uint32(d.GetCardVehicleUnitRecordsCount()) == rU16(b[15:17]), "ApplicationIdentificationG2.vehicle_unit_records")
}

func refAppIdV2(a *cardv1.ApplicationIdentificationV2, b []byte) {
	d := a.GetDriver()
	vAssert(d != nil, "ApplicationIdentificationV2.driver present")
	vAssert(uint32(d.GetLengthOfFollowingData()) == rU16(b[0:2]), "ApplicationIdentificationV2.length_of_following_data")
	vAssert(uint32(d.GetBorderCrossingRecordsCount()) == rU16(b[2:4]), "ApplicationIdentificationV2.border_crossing_records")
	vAssert(uint32(d.GetLoadUnloadRecordsCount()) == rU16(b[4:6]), "ApplicationIdentificationV2.load_unload_records")
	vAssert(uint32(d.GetLoadTypeEntryRecordsCount()) == rU16(b[6:8]), "ApplicationIdentificationV2.load_type_entry_records")
	vAssert(uint32(d.GetVuConfigurationLengthRange()) == rU16(b[8:10]), "ApplicationIdentificationV2.vu_configuration_length_range")
}

func refCardDownload(c *cardv1.CardDownloadDriver, b []byte) {
	vAssert(rTime(c.GetTimestamp(), b), "CardDownloadDriver.timestamp")
}

func dControlActivity(b []byte) bool {
	return bOr(rU32(b[1:5]) == 0, bAnd(dFCN(b[5:23]), dVRN(b[23:38])))
}

func refControlActivity(c *cardv1.ControlActivityData, b []byte) {
	if rU32(b[1:5]) == 0 {
		vAssert(!c.GetValid(), "ControlActivityData.valid")
		vAssert(vEq(c.GetRawData(), b), "ControlActivityData.raw_data")
		return
	}
	vAssert(c.GetValid(), "ControlActivityData.valid")
	refControlType(c.GetControlType(), b[0:1])
	vAssert(rTime(c.GetControlTime(), b[1:5]), "ControlActivityData.control_time")
	refFCN(c.GetControlCardNumber().GetFullCardNumber(), b[5:23])
	refVRN(c.GetControlVehicleRegistration(), b[23:38])
	vAssert(rTime(c.GetControlDownloadPeriodBegin(), b[38:42]), "ControlActivityData.control_download_period_begin")
	vAssert(rTime(c.GetControlDownloadPeriodEnd(), b[42:46]), "ControlActivityData.control_download_period_end")
}

func refCurrentUsage(c *cardv1.CurrentUsage, b []byte) {
	vAssert(rTime(c.GetSessionOpenTime(), b[0:4]), "CurrentUsage.session_open_time")
	refVRN(c.GetSessionOpenVehicle(), b[4:19])
}

func dLicence(b []byte) bool { return bAnd(dStr(b[0:36]), dNation(b[36])) }

func refLicence(d *cardv1.DrivingLicenceInfo, b []byte) {
	refStr(d.GetDrivingLicenceIssuingAuthority(), b[0:36])
	vAssert(okDef(int32(d.GetDrivingLicenceIssuingNation()), &eNationNumeric, b[36]), "DrivingLicenceInfo.issuing_nation")
	refIa5(d.GetDrivingLicenceNumber(), b[37:53])
}

func refIc(c *cardv1.Ic, b []byte) {
	vAssert(vEq(c.GetIcSerialNumber(), b[0:4]), "Ic.serial_number")
	vAssert(vEq(c.GetIcManufacturingReferences(), b[4:8]), "Ic.manufacturing_references")
}

func dIcc(b []byte) bool { return bAnd(eClockStopMode[b[0]] >= 0, dESN(b[1:9])) }

func refIcc(c *cardv1.Icc, b []byte) {
	vAssert(okDef(int32(c.GetClockStop()), &eClockStopMode, b[0]), "Icc.clock_stop")
	refESN(c.GetCardExtendedSerialNumber(), b[1:9])
	refIa5(c.GetCardApprovalNumber(), b[9:17])
	vAssert(c.GetCardPersonaliserId() == int32(b[17]), "Icc.card_personaliser_id")
	e := c.GetEmbedderIcAssemblerId()
	vAssert(e != nil, "Icc.embedder_ic_assembler_id present")
	refIa5(e.GetCountryCode(), b[18:20])
	refIa5(e.GetModuleEmbedder(), b[20:22])
	vAssert(e.GetManufacturerInformation() == int32(b[22]), "Icc.manufacturer_information")
	vAssert(vEq(c.GetIcIdentifier(), b[23:25]), "Icc.ic_identifier")
}

func dIdentification(b []byte) bool {
	return bAnd(bAnd(bAnd(dNation(b[0]), dIa5(b[1:15])), bAnd(dIndex(b[15]), dIndex(b[16]))),
		bAnd(bAnd(dStr(b[17:53]), dStr(b[65:101])), bAnd(dStr(b[101:137]), dBCD(b[137:141]))))
}

func refIdentification(i *cardv1.Identification, b []byte) {
	c := i.GetCard()
	vAssert(c != nil, "Identification.card present")
	vAssert(okDef(int32(c.GetCardIssuingMemberState()), &eNationNumeric, b[0]), "Identification.card_issuing_member_state")
	if bAnd(dIndex(b[15]), dIndex(b[16])) {
		vAssert(i.GetCardType() == cardv1.CardType_DRIVER_CARD, "Identification.card_type")
		d := c.GetDriverIdentification()
		vAssert(d != nil, "Identification.driver_identification present")
		refIa5(d.GetDriverIdentificationNumber(), b[1:15])
		refIa5(d.GetCardReplacementIndex(), b[15:16])
		refIa5(d.GetCardRenewalIndex(), b[16:17])
	}
	refStr(c.GetCardIssuingAuthorityName(), b[17:53])
	vAssert(rTime(c.GetCardIssueDate(), b[53:57]), "Identification.card_issue_date")
	vAssert(rTime(c.GetCardValidityBegin(), b[57:61]), "Identification.card_validity_begin")
	vAssert(rTime(c.GetCardExpiryDate(), b[61:65]), "Identification.card_expiry_date")
	h := i.GetDriverCardHolder()
	vAssert(h != nil, "Identification.driver_card_holder present")
	refStr(h.GetCardHolderSurname(), b[65:101])
	refStr(h.GetCardHolderFirstNames(), b[101:137])
	refDate(h.GetCardHolderBirthDate(), b[137:141])
	refIa5(h.GetCardHolderPreferredLanguage(), b[141:143])
}

// CardEventRecord and CardFaultRecord have the same layout; a begin time of
// zero marks an unused record.
func dEvent(b []byte) bool {
	return bOr(rU32(b[1:5]) == 0, bAnd(eEventFaultType[b[0]] >= 0, dVRN(b[9:24])))
}

func refEvent(r *cardv1.EventsData_Record, b []byte) {
	if rU32(b[1:5]) == 0 {
		vAssert(!r.GetValid(), "EventsData.valid")
		vAssert(vEq(r.GetRawData(), b), "EventsData.raw_data")
		return
	}
	vAssert(r.GetValid(), "EventsData.valid")
	vAssert(okDef(int32(r.GetEventType()), &eEventFaultType, b[0]), "EventsData.event_type")
	vAssert(rTime(r.GetEventBeginTime(), b[1:5]), "EventsData.begin_time")
	vAssert(rTime(r.GetEventEndTime(), b[5:9]), "EventsData.end_time")
	refVRN(r.GetEventVehicleRegistration(), b[9:24])
}

func refFault(r *cardv1.FaultsData_Record, b []byte) {
	if rU32(b[1:5]) == 0 {
		vAssert(!r.GetValid(), "FaultsData.valid")
		vAssert(vEq(r.GetRawData(), b), "FaultsData.raw_data")
		return
	}
	vAssert(r.GetValid(), "FaultsData.valid")
	vAssert(okDef(int32(r.GetFaultType()), &eEventFaultType, b[0]), "FaultsData.fault_type")
	vAssert(rTime(r.GetFaultBeginTime(), b[1:5]), "FaultsData.begin_time")
	vAssert(rTime(r.GetFaultEndTime(), b[5:9]), "FaultsData.end_time")
	refVRN(r.GetFaultVehicleRegistration(), b[9:24])
}

func refVehicleUnit(r *cardv1.VehicleUnitsUsed_Record, b []byte) {
	vAssert(rTime(r.GetTimestamp(), b[0:4]), "VehicleUnitsUsed.timestamp")
	vAssert(r.GetManufacturerCode() == int32(b[4]), "VehicleUnitsUsed.manufacturer_code")
	vAssert(vEq(r.GetDeviceId(), b[5:6]), "VehicleUnitsUsed.device_id")
	vAssert(vEq(r.GetVuSoftwareVersion(), b[6:10]), "VehicleUnitsUsed.vu_software_version")
}

func refGnssPlace(r *cardv1.GnssPlaces_Record, b []byte) {
	vAssert(rTime(r.GetTimestamp(), b[0:4]), "GnssPlaces.timestamp")
	refGNSS(r.GetGnssPlaceRecord(), b[4:15])
	vAssert(uint32(r.GetVehicleOdometerKm()) == rU24(b[15:18]), "GnssPlaces.odometer")
}

func dNone(b []byte) bool { return true }

// each applies d to the n records of size sz after a header of h bytes.
func dEach(b []byte, h, sz int, d func([]byte) bool) bool {
	ok := true
	for i := h; i+sz <= len(b); i += sz {
		ok = bAnd(ok, d(b[i:i+sz]))
	}
	return ok
}

func dCardVehicleG2(b []byte) bool { return bAnd(dCardVehicle(b), dIa5(b[31:48])) }

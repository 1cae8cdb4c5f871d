package vu

// Written by tools/genclear.py: first-generation overviews with one field missing.

import vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"

//v:bounds overviews with no or 3 locks and controls, every byte symbolic (defined codes) except texts, one of four each; any one of 63 fields (of the overview or its first records) missing, stored bytes kept or dropped
//v:cost 40
//v:exacttext 17
func vh_C23_overview() {
	nl, nc := vOverviewCounts()
	vAssume(nl == nc)
	v := vPick("text", 1+3*vTier())
	b := vOverview(nl, nc)
	vAssume(bAnd(eSlotCardType[b[432]&15] >= 0, eSlotCardType[b[432]>>4] >= 0))
	vIa5In(b[388:405], v)
	vTextIn(b[406:420], v)
	vIa5In(b[439:455], v)
	vTextIn(b[455:491], (v+1)%4)
	for i := 0; i < nl; i++ {
		l := b[492+98*i : 492+98*i+98]
		vTextIn(l[8:44], (v+i)%4)
		vTextIn(l[44:80], (v+i+1)%4)
		vIa5In(l[82:98], (v+i+2)%4)
	}
	for i := 0; i < nc; i++ {
		c := 493 + 98*nl + 31*i
		vIa5In(b[c+7:c+23], (v+i)%4)
	}
	x, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 accepted")
	if vPick("strip", 2) == 1 {
		x = vStrip(x).(*vuv1.OverviewGen1)
	}
	f := vPick("field", 63)
	clearOverview(x, f)
	out, err := appendOverviewGen1(nil, x)
	if err != nil {
		vReach("refused")
		return
	}
	vAssert(len(out) == len(b), "OverviewGen1 with a missing field encodes to its size")
	y, err := unmarshalOverviewGen1(out)
	vAssert(err == nil, "OverviewGen1 with a missing field decodes")
	clearOverview(y, f)
	vAssert(vSame(vStrip(y), vStrip(x)), "OverviewGen1 with a missing field keeps the others")
	vReach("end", uint64(f))
}

func clearOverview(x *vuv1.OverviewGen1, f int) {
	switch f {
	case 0:
		x.ClearMemberStateCertificate()
	case 1:
		x.ClearVuCertificate()
	case 2:
		x.ClearVehicleIdentificationNumber()
	case 3:
		x.ClearVehicleRegistrationWithNation()
	case 4:
		if x.GetVehicleRegistrationWithNation() != nil {
			x.GetVehicleRegistrationWithNation().ClearNation()
		}
	case 5:
		if x.GetVehicleRegistrationWithNation() != nil {
			x.GetVehicleRegistrationWithNation().ClearNumber()
		}
	case 6:
		x.ClearCurrentDateTime()
	case 7:
		x.ClearDownloadablePeriod()
	case 8:
		if x.GetDownloadablePeriod() != nil {
			x.GetDownloadablePeriod().ClearMinTime()
		}
	case 9:
		if x.GetDownloadablePeriod() != nil {
			x.GetDownloadablePeriod().ClearMaxTime()
		}
	case 10:
		x.ClearDriverSlotCard()
	case 11:
		x.ClearCoDriverSlotCard()
	case 12:
		if len(x.GetDownloadActivities()) > 0 {
			x.GetDownloadActivities()[0].ClearDownloadingTime()
		}
	case 13:
		if len(x.GetDownloadActivities()) > 0 {
			x.GetDownloadActivities()[0].ClearFullCardNumber()
		}
	case 14:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().ClearCardType()
		}
	case 15:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().ClearCardIssuingMemberState()
		}
	case 16:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().ClearDriverIdentification()
		}
	case 17:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil && x.GetDownloadActivities()[0].GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 18:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil && x.GetDownloadActivities()[0].GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 19:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil && x.GetDownloadActivities()[0].GetFullCardNumber().GetDriverIdentification() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 20:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().ClearOwnerIdentification()
		}
	case 21:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil && x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 22:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil && x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 23:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil && x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification().ClearReplacementIndex()
		}
	case 24:
		if len(x.GetDownloadActivities()) > 0 && x.GetDownloadActivities()[0].GetFullCardNumber() != nil && x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification() != nil {
			x.GetDownloadActivities()[0].GetFullCardNumber().GetOwnerIdentification().ClearRenewalIndex()
		}
	case 25:
		if len(x.GetDownloadActivities()) > 0 {
			x.GetDownloadActivities()[0].ClearCompanyOrWorkshopName()
		}
	case 26:
		if len(x.GetCompanyLocks()) > 0 {
			x.GetCompanyLocks()[0].ClearLockInTime()
		}
	case 27:
		if len(x.GetCompanyLocks()) > 0 {
			x.GetCompanyLocks()[0].ClearLockOutTime()
		}
	case 28:
		if len(x.GetCompanyLocks()) > 0 {
			x.GetCompanyLocks()[0].ClearCompanyName()
		}
	case 29:
		if len(x.GetCompanyLocks()) > 0 {
			x.GetCompanyLocks()[0].ClearCompanyAddress()
		}
	case 30:
		if len(x.GetCompanyLocks()) > 0 {
			x.GetCompanyLocks()[0].ClearCompanyCardNumber()
		}
	case 31:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().ClearCardType()
		}
	case 32:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().ClearCardIssuingMemberState()
		}
	case 33:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().ClearDriverIdentification()
		}
	case 34:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil && x.GetCompanyLocks()[0].GetCompanyCardNumber().GetDriverIdentification() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 35:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil && x.GetCompanyLocks()[0].GetCompanyCardNumber().GetDriverIdentification() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 36:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil && x.GetCompanyLocks()[0].GetCompanyCardNumber().GetDriverIdentification() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 37:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().ClearOwnerIdentification()
		}
	case 38:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil && x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 39:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil && x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 40:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil && x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification().ClearReplacementIndex()
		}
	case 41:
		if len(x.GetCompanyLocks()) > 0 && x.GetCompanyLocks()[0].GetCompanyCardNumber() != nil && x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification() != nil {
			x.GetCompanyLocks()[0].GetCompanyCardNumber().GetOwnerIdentification().ClearRenewalIndex()
		}
	case 42:
		if len(x.GetControlActivities()) > 0 {
			x.GetControlActivities()[0].ClearControlType()
		}
	case 43:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlType() != nil {
			x.GetControlActivities()[0].GetControlType().ClearCardDownloading()
		}
	case 44:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlType() != nil {
			x.GetControlActivities()[0].GetControlType().ClearVuDownloading()
		}
	case 45:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlType() != nil {
			x.GetControlActivities()[0].GetControlType().ClearPrinting()
		}
	case 46:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlType() != nil {
			x.GetControlActivities()[0].GetControlType().ClearDisplay()
		}
	case 47:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlType() != nil {
			x.GetControlActivities()[0].GetControlType().ClearCalibrationChecking()
		}
	case 48:
		if len(x.GetControlActivities()) > 0 {
			x.GetControlActivities()[0].ClearControlTime()
		}
	case 49:
		if len(x.GetControlActivities()) > 0 {
			x.GetControlActivities()[0].ClearControlCardNumber()
		}
	case 50:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().ClearCardType()
		}
	case 51:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().ClearCardIssuingMemberState()
		}
	case 52:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().ClearDriverIdentification()
		}
	case 53:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil && x.GetControlActivities()[0].GetControlCardNumber().GetDriverIdentification() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().GetDriverIdentification().ClearDriverIdentificationNumber()
		}
	case 54:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil && x.GetControlActivities()[0].GetControlCardNumber().GetDriverIdentification() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().GetDriverIdentification().ClearCardReplacementIndex()
		}
	case 55:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil && x.GetControlActivities()[0].GetControlCardNumber().GetDriverIdentification() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().GetDriverIdentification().ClearCardRenewalIndex()
		}
	case 56:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().ClearOwnerIdentification()
		}
	case 57:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil && x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification().ClearOwnerIdentification()
		}
	case 58:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil && x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification().ClearConsecutiveIndex()
		}
	case 59:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil && x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification().ClearReplacementIndex()
		}
	case 60:
		if len(x.GetControlActivities()) > 0 && x.GetControlActivities()[0].GetControlCardNumber() != nil && x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification() != nil {
			x.GetControlActivities()[0].GetControlCardNumber().GetOwnerIdentification().ClearRenewalIndex()
		}
	case 61:
		if len(x.GetControlActivities()) > 0 {
			x.GetControlActivities()[0].ClearDownloadPeriodBeginTime()
		}
	case 62:
		if len(x.GetControlActivities()) > 0 {
			x.GetControlActivities()[0].ClearDownloadPeriodEndTime()
		}
	}
}

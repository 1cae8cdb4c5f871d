package vu

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// --- first generation overview and activities, the two transfers decoded field by field ---

func dLock(b []byte) bool { return bAnd(bAnd(dStr(b[8:44]), dStr(b[44:80])), dFCN(b[80:98])) }

func refLock(l *vuv1.OverviewGen1_CompanyLock, b []byte) {
	vAssert(l != nil, "CompanyLock present")
	vAssert(rTime(l.GetLockInTime(), b[0:4]), "CompanyLock.lock_in_time")
	vAssert(rTime(l.GetLockOutTime(), b[4:8]), "CompanyLock.lock_out_time")
	refStr(l.GetCompanyName(), b[8:44])
	refStr(l.GetCompanyAddress(), b[44:80])
	refFCN(l.GetCompanyCardNumber(), b[80:98])
}

func dControl(b []byte) bool { return dFCN(b[5:23]) }

func refControl(c *vuv1.OverviewGen1_ControlActivity, b []byte) {
	vAssert(c != nil, "ControlActivity present")
	refControlType(c.GetControlType(), b[0:1])
	vAssert(rTime(c.GetControlTime(), b[1:5]), "ControlActivity.control_time")
	refFCN(c.GetControlCardNumber(), b[5:23])
	vAssert(rTime(c.GetDownloadPeriodBeginTime(), b[23:27]), "ControlActivity.download_period_begin_time")
	vAssert(rTime(c.GetDownloadPeriodEndTime(), b[27:31]), "ControlActivity.download_period_end_time")
}

// vOverview is an overview of nl locks and nc controls with arbitrary defined contents.
// Of more than three records only the first, one in the middle and the last are symbolic.
func vOverview(nl, nc int) []byte {
	f := vBytes("ov", 491)
	vAssume(bAnd(bAnd(dVRN(f[405:420]), dFCN(f[437:455])), dStr(f[455:491])))
	b := append([]byte{}, f...)
	rec := func(name string, i, n, size int) []byte {
		if n <= 3 || i == 0 || i == n/2 || i == n-1 {
			return vBytes(name+string(rune('0'+i%10))+string(rune('0'+i/10%10))+string(rune('0'+i/100)), size)
		}
		r := make([]byte, size)
		for k := range r {
			r[k] = "0123456789"[i/[3]int{1, 10, 100}[k%3]%10]
		}
		return r
	}
	b = append(b, byte(nl))
	for i := 0; i < nl; i++ {
		r := rec("l", i, nl, 98)
		if nl > 3 && i != 0 && i != nl/2 && i != nl-1 {
			r[8], r[44], r[80], r[81] = 1, 2, 4, 1+byte(i%40)
		} else {
			vAssume(dLock(r))
		}
		b = append(b, r...)
	}
	b = append(b, byte(nc))
	for i := 0; i < nc; i++ {
		r := rec("c", i, nc, 31)
		if nc > 3 && i != 0 && i != nc/2 && i != nc-1 {
			r[5], r[6] = 3, 1+byte(i%40)
		} else {
			vAssume(dControl(r))
		}
		b = append(b, r...)
	}
	return append(b, vBytes("sig", 128)...)
}

func refOverview(o *vuv1.OverviewGen1, b []byte) {
	vAssert(o != nil, "OverviewGen1 present")
	vAssert(vEq(o.GetMemberStateCertificate(), b[0:194]), "OverviewGen1.member_state_certificate")
	vAssert(vEq(o.GetVuCertificate(), b[194:388]), "OverviewGen1.vu_certificate")
	refIa5(o.GetVehicleIdentificationNumber(), b[388:405])
	refVRN(o.GetVehicleRegistrationWithNation(), b[405:420])
	vAssert(rTime(o.GetCurrentDateTime(), b[420:424]), "OverviewGen1.current_date_time")
	vAssert(rTime(o.GetDownloadablePeriod().GetMinTime(), b[424:428]), "OverviewGen1.downloadable_period.min_time")
	vAssert(rTime(o.GetDownloadablePeriod().GetMaxTime(), b[428:432]), "OverviewGen1.downloadable_period.max_time")
	vAssert(okDef(int32(o.GetDriverSlotCard()), &eSlotCardType, b[432]&15), "OverviewGen1.driver_slot_card")
	vAssert(okDef(int32(o.GetCoDriverSlotCard()), &eSlotCardType, b[432]>>4), "OverviewGen1.co_driver_slot_card")
	das := o.GetDownloadActivities()
	vAssert(len(das) == 1, "OverviewGen1.download_activities count")
	vAssert(rTime(das[0].GetDownloadingTime(), b[433:437]), "DownloadActivity.downloading_time")
	refFCN(das[0].GetFullCardNumber(), b[437:455])
	refStr(das[0].GetCompanyOrWorkshopName(), b[455:491])
	nl := int(b[491])
	vAssert(len(o.GetCompanyLocks()) == nl, "OverviewGen1.company_locks count")
	p := 492
	for _, l := range o.GetCompanyLocks() {
		refLock(l, b[p:p+98])
		p += 98
	}
	vAssert(len(o.GetControlActivities()) == int(b[p]), "OverviewGen1.control_activities count")
	p++
	for _, c := range o.GetControlActivities() {
		refControl(c, b[p:p+31])
		p += 31
	}
	vAssert(vEq(o.GetSignature(), b[p:p+128]), "OverviewGen1.signature")
}

func vOverviewCounts() (int, int) {
	n := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 1}, {1, 2}, {3, 3}}[vPick("counts", 6)]
	return n[0], n[1]
}

//v:bounds overviews of first-generation vehicle units with 0 to 3 locks and controls, every byte symbolic (card types, nations and code pages defined)
//v:budget 200
func vh_C05_overview() {
	nl, nc := vOverviewCounts()
	b := vOverview(nl, nc)
	o, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 accepted")
	refOverview(o, b)
	vReach("end", uint64(nl), uint64(nc))
}

// Encoding, and the value's size.
//
//v:bounds overviews with 0 to 3 locks and controls, every byte symbolic (card types, nations and code pages defined); whole, cut by one byte and with one byte more
func vh_C09_overview() {
	nl, nc := vOverviewCounts()
	b := vOverview(nl, nc)
	switch vPick("size", 3) {
	case 1:
		o, err := unmarshalOverviewGen1(b[:len(b)-1])
		vAssert(o == nil && err != nil, "OverviewGen1 with a missing byte refused")
		vReach("cut")
		return
	case 2:
		o, err := unmarshalOverviewGen1(append(b, vU8("extra")))
		vAssert(o == nil && err != nil, "OverviewGen1 with an extra byte refused")
		vReach("longer")
		return
	}
	o, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 accepted")
	vAssert(len(o.GetCompanyLocks()) == nl && len(o.GetControlActivities()) == nc, "OverviewGen1 one entry per record")
	vAssert(vEq(o.GetSignature(), b[len(b)-128:]), "OverviewGen1 signature is the trailing section")
	vAssert(vEq(o.GetRawData(), b), "OverviewGen1 keeps its bytes")
	out, err := appendOverviewGen1(nil, o)
	vAssert(err == nil, "OverviewGen1 encodes")
	vAssert(vEq(out, b), "OverviewGen1 round trip")
	vReach("whole", uint64(nl), uint64(nc))
}

//v:bounds overviews with 255 locks and 1 control, 1 lock and 255 controls, or 128 of each: first, middle and last record of every kind symbolic (defined codes), the others of distinct fixed contents
//v:cost 20
func vh_C20_overview() {
	n := [][2]int{{255, 1}, {1, 255}, {128, 128}}[vPick("n", 3)]
	b := vOverview(n[0], n[1])
	o, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 with many records accepted")
	refOverview(o, b)
	out, err := appendOverviewGen1(nil, o)
	vAssert(err == nil && vEq(out, b), "OverviewGen1 with many records round trip")
	vReach("end", uint64(n[0]))
}

func dVuPlace(b []byte) bool {
	return bAnd(eEntryTypeDailyWorkPeriod[b[22]] >= 0, eNationNumeric[b[23]] >= 0)
}

func refVuPlace(p *vuv1.ActivitiesGen1_PlaceRecord, b []byte) {
	vAssert(p != nil, "ActivitiesGen1.PlaceRecord present")
	vAssert(rTime(p.GetEntryTime(), b[18:22]), "ActivitiesGen1.PlaceRecord.entry_time")
	vAssert(int32(p.GetEntryType()) == int32(eEntryTypeDailyWorkPeriod[b[22]]), "ActivitiesGen1.PlaceRecord.entry_type")
	vAssert(int32(p.GetCountry()) == int32(eNationNumeric[b[23]]), "ActivitiesGen1.PlaceRecord.country")
	vAssert(vEq(p.GetRegion(), b[24:25]), "ActivitiesGen1.PlaceRecord.region")
	vAssert(uint32(p.GetOdometerKm()) == rU24(b[25:28]), "ActivitiesGen1.PlaceRecord.odometer")
}

// vActivities is a day of activities with the given counts of insertions,
// activity changes, places and specific conditions. Of more than three records only
// the first, one in the middle and the last are symbolic.
func vActivities(n [4]int) []byte {
	b := append([]byte{}, vBytes("f", 7)...)
	for k, size := range []int{129, 2, 28, 5} {
		if k != 2 {
			b = append(b, byte(n[k]>>8))
		}
		b = append(b, byte(n[k]))
		for i := 0; i < n[k]; i++ {
			if n[k] <= 3 || i == 0 || i == n[k]/2 || i == n[k]-1 {
				id := string(rune('p'+k)) + string(rune('0'+i%10)) + string(rune('0'+i/10%10)) + string(rune('0'+i/100%10)) + string(rune('0'+i/1000))
				r := vBytes(id, size)
				switch k {
				case 0:
					vAssume(dIW(r))
				case 2:
					vAssume(dVuPlace(r))
				}
				b = append(b, r...)
				continue
			}
			r := make([]byte, size)
			for j := range r {
				r[j] = byte("0123456789"[i/[3]int{1, 10, 100}[j%3]%10])
			}
			switch k {
			case 0:
				r[0], r[36], r[72], r[73], r[101], r[109], r[110], r[128] = 1, 2, 1, 3, byte(i&1), 4, 5, byte(i>>1&1)
				r[90], r[91], r[92], r[93] = 0x20, byte(i%10), 1, byte(i/10%10)
			case 2:
				r[22], r[23] = byte(i%6), byte(1+i%40)
			}
			b = append(b, r...)
		}
	}
	return append(b, vBytes("sig", 128)...)
}

func refActivities(a *vuv1.ActivitiesGen1, b []byte, n [4]int) {
	vAssert(a != nil, "ActivitiesGen1 present")
	vAssert(rTime(a.GetDateOfDay(), b[0:4]), "ActivitiesGen1.date_of_day")
	vAssert(uint32(a.GetOdometerMidnightKm()) == rU24(b[4:7]), "ActivitiesGen1.odometer_midnight_km")
	p := 9
	vAssert(len(a.GetCardIwData()) == n[0], "ActivitiesGen1.card_iw_data count")
	for _, r := range a.GetCardIwData() {
		refIW(r, b[p:p+129])
		p += 129
	}
	p += 2
	vAssert(len(a.GetActivityChanges()) == n[1], "ActivitiesGen1.activity_changes count")
	for _, r := range a.GetActivityChanges() {
		refActivity(r, b[p:p+2])
		p += 2
	}
	p++
	vAssert(len(a.GetPlaces()) == n[2], "ActivitiesGen1.places count")
	for _, r := range a.GetPlaces() {
		refVuPlace(r, b[p:p+28])
		p += 28
	}
	p += 2
	vAssert(len(a.GetSpecificConditions()) == n[3], "ActivitiesGen1.specific_conditions count")
	for _, r := range a.GetSpecificConditions() {
		refSpecific(r, b[p:p+5])
		p += 5
	}
	vAssert(vEq(a.GetSignature(), b[p:p+128]), "ActivitiesGen1.signature")
}

func vActivitiesCounts() [4]int {
	return [][4]int{{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {2, 3, 2, 2}, {1, 2, 1, 3}}[vPick("counts", 7)]
}

//v:bounds activities of first-generation vehicle units with 0 to 3 records of each kind, every byte symbolic (card types, slots, flags, nations, entry types, code pages and BCD digits defined)
func vh_C05_activities() {
	n := vActivitiesCounts()
	b := vActivities(n)
	a, err := unmarshalActivitiesGen1(b)
	vAssert(err == nil, "ActivitiesGen1 accepted")
	refActivities(a, b, n)
	vReach("end", uint64(n[0]))
}

//v:bounds activities with 0 to 3 records of each kind, every byte symbolic (defined codes); whole, cut by one byte and with one byte more
func vh_C09_activities() {
	n := vActivitiesCounts()
	b := vActivities(n)
	switch vPick("size", 3) {
	case 1:
		a, err := unmarshalActivitiesGen1(b[:len(b)-1])
		vAssert(a == nil && err != nil, "ActivitiesGen1 with a missing byte refused")
		vReach("cut")
		return
	case 2:
		a, err := unmarshalActivitiesGen1(append(b, vU8("extra")))
		vAssert(a == nil && err != nil, "ActivitiesGen1 with an extra byte refused")
		vReach("longer")
		return
	}
	a, err := unmarshalActivitiesGen1(b)
	vAssert(err == nil, "ActivitiesGen1 accepted")
	vAssert(len(a.GetCardIwData()) == n[0] && len(a.GetActivityChanges()) == n[1] && len(a.GetPlaces()) == n[2] && len(a.GetSpecificConditions()) == n[3], "ActivitiesGen1 one entry per record")
	vAssert(vEq(a.GetSignature(), b[len(b)-128:]), "ActivitiesGen1 signature is the trailing section")
	vAssert(vEq(a.GetRawData(), b), "ActivitiesGen1 keeps its bytes")
	out, err := appendActivitiesGen1(nil, a)
	vAssert(err == nil && vEq(out, b), "ActivitiesGen1 round trip")
	vReach("whole", uint64(n[0]))
}

//v:bounds activities with 300 insertions, 1441 activity changes, 255 places or 400 specific conditions (and one of the others each): first, middle and last record of each kind symbolic (defined codes), the others of distinct fixed contents
//v:cost 20
//v:budget 200
func vh_C20_activities() {
	n := [][4]int{{300, 1, 1, 1}, {1, 1441, 1, 1}, {1, 1, 255, 1}, {1, 1, 1, 400}}[vPick("n", 4)]
	b := vActivities(n)
	a, err := unmarshalActivitiesGen1(b)
	vAssert(err == nil, "ActivitiesGen1 with many records accepted")
	refActivities(a, b, n)
	vReach("end", uint64(n[0]))
}

// --- every transfer type, as a file ---

// vDecoded returns the only decoded transfer of type t of a file: its message,
// stored bytes, signature (nil when the type has none) and encoding.
func (t vTag) vDecoded(f *vuv1.VehicleUnitFile) (m proto.Message, raw, sig, out []byte, err error) {
	g1, a, c := f.GetGen1(), f.GetGen2V1(), f.GetGen2V2()
	switch t.typ {
	case vuv1.TransferType_OVERVIEW_GEN1:
		x := g1.GetOverview()
		out, err = appendOverviewGen1(nil, x)
		return x, x.GetRawData(), x.GetSignature(), out, err
	case vuv1.TransferType_ACTIVITIES_GEN1:
		vAssert(len(g1.GetActivities()) == 1, "C09 one entry")
		x := g1.GetActivities()[0]
		out, err = appendActivitiesGen1(nil, x)
		return x, x.GetRawData(), x.GetSignature(), out, err
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN1:
		vAssert(len(g1.GetEventsAndFaults()) == 1, "C09 one entry")
		x := g1.GetEventsAndFaults()[0]
		out, err = appendEventsAndFaultsGen1(nil, x)
		return x, x.GetRawData(), x.GetSignature(), out, err
	case vuv1.TransferType_DETAILED_SPEED_GEN1:
		vAssert(len(g1.GetDetailedSpeed()) == 1, "C09 one entry")
		x := g1.GetDetailedSpeed()[0]
		out, err = appendDetailedSpeedGen1(nil, x)
		return x, x.GetRawData(), x.GetSignature(), out, err
	case vuv1.TransferType_TECHNICAL_DATA_GEN1:
		vAssert(len(g1.GetTechnicalData()) == 1, "C09 one entry")
		x := g1.GetTechnicalData()[0]
		out, err = appendTechnicalDataGen1(nil, x)
		return x, x.GetRawData(), x.GetSignature(), out, err
	case vuv1.TransferType_OVERVIEW_GEN2_V1:
		x := a.GetOverview()
		out, err = appendOverviewGen2V1(nil, x)
		return x, x.GetRawData(), nil, out, err
	case vuv1.TransferType_ACTIVITIES_GEN2_V1:
		vAssert(len(a.GetActivities()) == 1, "C09 one entry")
		x := a.GetActivities()[0]
		out, err = appendActivitiesGen2V1(nil, x)
		return x, x.GetRawData(), nil, out, err
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V1:
		vAssert(len(a.GetEventsAndFaults()) == 1, "C09 one entry")
		x := a.GetEventsAndFaults()[0]
		out, err = appendEventsAndFaultsGen2V1(nil, x)
		return x, x.GetRawData(), nil, out, err
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V1:
		vAssert(len(a.GetTechnicalData()) == 1, "C09 one entry")
		x := a.GetTechnicalData()[0]
		out, err = appendTechnicalDataGen2V1(nil, x)
		return x, x.GetRawData(), nil, out, err
	case vuv1.TransferType_OVERVIEW_GEN2_V2:
		x := c.GetOverview()
		out, err = appendOverviewGen2V2(nil, x)
		return x, x.GetRawData(), nil, out, err
	case vuv1.TransferType_ACTIVITIES_GEN2_V2:
		vAssert(len(c.GetActivities()) == 1, "C09 one entry")
		x := c.GetActivities()[0]
		out, err = appendActivitiesGen2V2(nil, x)
		return x, x.GetRawData(), nil, out, err
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2:
		vAssert(len(c.GetEventsAndFaults()) == 1, "C09 one entry")
		x := c.GetEventsAndFaults()[0]
		out, err = appendEventsAndFaultsGen2V2(nil, x)
		return x, x.GetRawData(), nil, out, err
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V2:
		vAssert(len(c.GetTechnicalData()) == 1, "C09 one entry")
		x := c.GetTechnicalData()[0]
		out, err = appendTechnicalDataGen2V2(nil, x)
		return x, x.GetRawData(), nil, out, err
	}
	// detailed speed of the second generation is in files of both versions
	xs := a.GetDetailedSpeed()
	if c != nil {
		xs = c.GetDetailedSpeed()
	}
	vAssert(len(xs) == 1, "C09 one entry")
	out, err = appendDetailedSpeedGen2(nil, xs[0])
	return xs[0], xs[0].GetRawData(), nil, out, err
}

func (t vTag) vKind(f *vuv1.VehicleUnitFile, v2 bool) {
	vAssert(f.GetGeneration() == t.gen, "C09 generation of the file")
	if t.gen == ddv1.Generation_GENERATION_1 {
		vAssert(f.GetGen1() != nil && f.GetGen2V1() == nil && f.GetGen2V2() == nil, "C09 first generation file")
	} else if v2 {
		vAssert(f.GetGen1() == nil && f.GetGen2V1() == nil && f.GetGen2V2() != nil, "C09 second generation version 2 file")
		vAssert(f.GetVersion() == ddv1.Version_VERSION_2, "C09 version of the file")
	} else {
		vAssert(f.GetGen1() == nil && f.GetGen2V1() != nil && f.GetGen2V2() == nil, "C09 second generation version 1 file")
		vAssert(f.GetVersion() == ddv1.Version_VERSION_1, "C09 version of the file")
	}
}

func (t vTag) vOnly(d []byte, lead []byte) {
	f, err := UnmarshalVehicleUnitFile(append(append(append([]byte{}, lead...), 0x76, t.code), d...))
	vAssert(err == nil && f != nil, "C09 well-formed transfer accepted")
	t.vKind(f, t.code>>4 == 3 || len(lead) > 0)
	_, raw, sig, out, err := t.vDecoded(f)
	vAssert(vEq(raw, d), "C09 transfer keeps its bytes")
	vAssert(err == nil && vEq(out, d), "C09 transfer encodes to its bytes")
	if t.gen == ddv1.Generation_GENERATION_1 {
		vAssert(vEq(sig, d[len(d)-128:]), "C09 signature is the trailing section")
	}
}

//v:bounds one transfer of first-generation events and faults, detailed speed or technical data: 0 to 255 records in every counted section, all contents
//v:ropes 1
func vh_C09_gen1() {
	t := vTags[2+vPick("t", 3)]
	t.vOnly(t.vSections("", 255), nil)
	vReach("end")
}

//v:bounds one transfer of any second-generation type, alone or after an interface version: 0 to 255 records of one small size in every array, all contents
//v:ropes 1
func vh_C09_gen2() {
	t := vTags[5+vPick("t", 9)]
	var lead []byte
	if bOr(t.code>>4 == 3, t.code == 0x24) && vPick("lead", 2) == 1 {
		lead = append([]byte{0x76, 0x00}, vBytes("version", 2)...)
	}
	t.vOnly(vArrays("", t.arrays), lead)
	vReach("end")
}

//v:bounds one transfer of any second-generation type with its last 1 to 6 bytes missing or one byte more, decoded by its own decoder: 0 to 255 records of one small size in every array but the last, which has one record of 4 bytes
//v:ropes 1
func vh_C09_gen2_size() {
	t := vTags[5+vPick("t", 9)]
	d := append(vArrays("", t.arrays-1), 8, 0, 4, 0, 1, 1, 2, 3, 4)
	if k := vPick("cut", 7); k == 0 {
		d = append(d, vU8("extra"))
	} else {
		d = d[:len(d)-k]
	}
	var err error
	switch t.typ {
	case vuv1.TransferType_OVERVIEW_GEN2_V1:
		_, err = unmarshalOverviewGen2V1(d)
	case vuv1.TransferType_ACTIVITIES_GEN2_V1:
		_, err = unmarshalActivitiesGen2V1(d)
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V1:
		_, err = unmarshalEventsAndFaultsGen2V1(d)
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V1:
		_, err = unmarshalTechnicalDataGen2V1(d)
	case vuv1.TransferType_OVERVIEW_GEN2_V2:
		_, err = unmarshalOverviewGen2V2(d)
	case vuv1.TransferType_ACTIVITIES_GEN2_V2:
		_, err = unmarshalActivitiesGen2V2(d)
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2:
		_, err = unmarshalEventsAndFaultsGen2V2(d)
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V2:
		_, err = unmarshalTechnicalDataGen2V2(d)
	default:
		_, err = unmarshalDetailedSpeedGen2(d)
	}
	vAssert(err != nil, "C09 second generation transfer with missing or extra bytes refused")
	vReach("end")
}

// vSmallDefined is a small value that its own decoder accepts, with one arbitrary byte.
func (t vTag) vSmallDefined(name string) []byte { return t.vDefined(t.vSmall(name)) }

func (t vTag) vDefined(d []byte) []byte {
	switch t.typ {
	case vuv1.TransferType_OVERVIEW_GEN1:
		d[405], d[406], d[437], d[438], d[455] = 1, 1, 4, 1, 1
		l := d[492:]
		l[8], l[44], l[80], l[81] = 1, 1, 4, 1
		c := d[492+98+1:]
		c[5], c[6] = 3, 1
	case vuv1.TransferType_ACTIVITIES_GEN1:
		r := d[9:]
		r[0], r[36], r[72], r[73], r[109], r[110] = 1, 1, 1, 1, 1, 1
		p := d[9+129+4+1:]
		p[22], p[23] = 1, 1
	}
	return d
}

//v:bounds files of two transfers of any two types, with or without a third detailed speed of either generation; small contents with one symbolic byte each
//v:exactcm 1
func vh_C09_file() {
	var b []byte
	var ts []vTag
	var ds [][]byte
	add := func(t vTag, name string) {
		d := t.vSmallDefined(name)
		b = append(append(b, 0x76, t.code), d...)
		ts, ds = append(ts, t), append(ds, d)
	}
	add(vTags[vPick("i", len(vTags))], "mi")
	add(vTags[vPick("j", len(vTags))], "mj")
	switch vPick("third", 3) {
	case 1:
		add(vTags[3], "mk")
	case 2:
		add(vTags[8], "mk")
	}
	first := ts[0]
	v2, mixed := false, false
	for _, t := range ts {
		v2 = bOr(v2, bOr(t.code>>4 == 3, t.code == 0))
	}
	for _, t := range ts {
		if t.gen != first.gen {
			mixed = true
		} else if t.gen == ddv1.Generation_GENERATION_2 && v2 && t.code>>4 == 2 && t.code != 0x24 {
			mixed = true
		}
	}
	f, err := UnmarshalVehicleUnitFile(b)
	if mixed {
		vAssert(f == nil && err != nil, "C09 file with transfers of another generation or version refused")
		vReach("mixed")
		return
	}
	vAssert(err == nil && f != nil, "C09 file of well-formed transfers accepted")
	first.vKind(f, v2)
	// one entry per transfer, in order; the last overview is kept
	var want [5][][]byte
	for i, t := range ts {
		if t.code&15 > 0 {
			want[t.code&15-1] = append(want[t.code&15-1], ds[i])
		}
	}
	got := vEntries(f)
	if n := len(want[0]); n > 1 {
		want[0] = want[0][n-1:]
	}
	for k := range want {
		vAssert(len(got[k]) == len(want[k]), "C09 one entry per transfer")
		for i := range want[k] {
			vAssert(vEq(got[k][i], want[k][i]), "C09 entries in the order of the transfers")
		}
	}
	vReach("whole")
}

//v:bounds vehicle unit files: nil, empty and of any kind are refused by the encoder, which is not implemented
func vh_C09_marshal() {
	var f *vuv1.VehicleUnitFile
	if vBool("present") {
		f = &vuv1.VehicleUnitFile{}
		f.SetGeneration(ddv1.Generation(vU8("g")))
		f.SetGen1(&vuv1.VehicleUnitFileGen1{})
	}
	out, err := MarshalVehicleUnitFile(f)
	vAssert(out == nil && err != nil, "C09 encoding vehicle unit files reports that it is not implemented")
	vReach("end")
}

// --- C06: editing an overview ---

//v:bounds one field of an overview with two locks and two controls changed to any value (text and card numbers by whole items), all other bytes symbolic (defined codes)
func vh_C06_overview() { editOverview(false) }

//v:bounds encoding after a change; one field of an overview with two locks and two controls changed to any value (text and card numbers by whole items), all other bytes symbolic (defined codes)
func vh_C19_overview_edited() { editOverview(true) }

func editOverview(inputs bool) {
	b := vOverview(2, 2)
	o, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 accepted")
	n := vBytes("new", 98)
	ts := func(b []byte) *timestamppb.Timestamp {
		if rU32(b) == 0 {
			return nil
		}
		return &timestamppb.Timestamp{Seconds: int64(rU32(b))}
	}
	other, _ := unmarshalOverviewGen1(func() []byte {
		d := append([]byte{}, b...)
		copy(d[388:405], n)
		d[405] = 1 + n[0]&15
		copy(d[407:420], n[1:14])
		copy(d[457:491], n[2:36])
		d[437] = 4
		copy(d[439:455], n[40:56])
		d[492+80] = 2
		copy(d[492+10:492+44], n[5:39])
		copy(d[492+46:492+80], n[7:41])
		copy(d[492+82:492+98], n[50:66])
		return d
	}())
	vAssert(other != nil, "OverviewGen1 accepted")
	want := append([]byte{}, b...)
	set := func(at int, d ...byte) { copy(want[at:], d) }
	const lock, ctl = 492, 492 + 2*98 + 1
	k := vPick("field", 19)
	switch k {
	case 0:
		c := vBytes("cert", 194)
		o.SetMemberStateCertificate(c)
		set(0, c...)
	case 1:
		c := vBytes("cert", 194)
		o.SetVuCertificate(c)
		set(194, c...)
	case 2:
		o.SetVehicleIdentificationNumber(other.GetVehicleIdentificationNumber())
		set(388, n[:17]...)
	case 3:
		o.SetVehicleRegistrationWithNation(other.GetVehicleRegistrationWithNation())
		set(405, 1+n[0]&15)
		set(407, n[1:14]...)
	case 4:
		o.SetCurrentDateTime(ts(n))
		set(420, n[:4]...)
	case 5:
		p := &ddv1.DownloadablePeriod{}
		p.SetMinTime(ts(n))
		p.SetMaxTime(ts(n[4:]))
		o.SetDownloadablePeriod(p)
		set(424, n[:8]...)
	case 6, 7:
		code := n[0] & 15
		vAssume(eSlotCardType[code] >= 0)
		if k == 6 {
			o.SetDriverSlotCard(ddv1.SlotCardType(eSlotCardType[code]))
			set(432, b[432]&0xF0|code)
		} else {
			o.SetCoDriverSlotCard(ddv1.SlotCardType(eSlotCardType[code]))
			set(432, b[432]&0x0F|code<<4)
		}
	case 8:
		o.GetDownloadActivities()[0].SetDownloadingTime(ts(n))
		set(433, n[:4]...)
	case 9:
		o.GetDownloadActivities()[0].SetFullCardNumber(other.GetDownloadActivities()[0].GetFullCardNumber())
		set(437, 4)
		set(439, n[40:56]...)
	case 10:
		o.GetDownloadActivities()[0].SetCompanyOrWorkshopName(other.GetDownloadActivities()[0].GetCompanyOrWorkshopName())
		set(457, n[2:36]...)
	case 11:
		o.GetCompanyLocks()[1].SetLockInTime(ts(n))
		set(lock+98, n[:4]...)
	case 12:
		o.GetCompanyLocks()[0].SetLockOutTime(ts(n))
		set(lock+4, n[:4]...)
	case 13:
		o.GetCompanyLocks()[0].SetCompanyName(other.GetCompanyLocks()[0].GetCompanyName())
		set(lock+10, n[5:39]...)
	case 14:
		o.GetCompanyLocks()[0].SetCompanyAddress(other.GetCompanyLocks()[0].GetCompanyAddress())
		set(lock+46, n[7:41]...)
	case 15:
		o.GetCompanyLocks()[0].SetCompanyCardNumber(other.GetCompanyLocks()[0].GetCompanyCardNumber())
		set(lock+80, 2)
		set(lock+82, n[50:66]...)
	case 16:
		o.GetControlActivities()[1].SetControlTime(ts(n))
		o.GetControlActivities()[0].SetDownloadPeriodBeginTime(ts(n[4:]))
		o.GetControlActivities()[1].SetDownloadPeriodEndTime(ts(n[8:]))
		set(ctl+31+1, n[:4]...)
		set(ctl+23, n[4:8]...)
		set(ctl+31+27, n[8:12]...)
	case 17:
		c := o.GetControlActivities()[1].GetControlType()
		c.SetPrinting(vBool("flag"))
		set(ctl+31, b[ctl+31]&^0x20|map[bool]byte{true: 0x20}[vBool("flag")])
	case 18:
		s := vBytes("sig2", 128)
		o.SetSignature(s)
		set(len(b)-128, s...)
	}
	before := proto.Clone(o)
	out, err := appendOverviewGen1(nil, o)
	vAssert(err == nil, "OverviewGen1 with a changed field encodes")
	if inputs {
		vAssert(vSame(o, before), "OverviewGen1 encoding after a field change leaves the message alone")
		vReach("end", uint64(k))
		return
	}
	vAssert(vEq(out, want), "OverviewGen1 with a changed field: exactly its bytes change")
	vReach("end", uint64(k))
}

//v:bounds overviews of 0, 1, 255, 256 and 300 locks or controls, with zero records added after decoding
func vh_C06_overview_counts() {
	n := []int{0, 1, 255, 256, 300}[vPick("n", 5)]
	o := &vuv1.OverviewGen1{}
	locks := vPick("kind", 2) == 0
	fcn := &ddv1.FullCardNumber{}
	fcn.SetCardType(ddv1.EquipmentType_COMPANY_CARD)
	fcn.SetCardIssuingMemberState(ddv1.NationNumeric_AUSTRIA)
	text := &ddv1.StringValue{}
	text.SetLength(35)
	text.SetEncoding(ddv1.Encoding_ISO_8859_1)
	l := &vuv1.OverviewGen1_CompanyLock{}
	l.SetCompanyName(text)
	l.SetCompanyAddress(text)
	l.SetCompanyCardNumber(fcn)
	c := &vuv1.OverviewGen1_ControlActivity{}
	c.SetControlType(&ddv1.ControlType{})
	c.SetControlCardNumber(fcn)
	var ls []*vuv1.OverviewGen1_CompanyLock
	var cs []*vuv1.OverviewGen1_ControlActivity
	for i := 0; i < n; i++ {
		if locks {
			ls = append(ls, l)
		} else {
			cs = append(cs, c)
		}
	}
	o.SetCompanyLocks(ls)
	o.SetControlActivities(cs)
	out, err := appendOverviewGen1(nil, o)
	if n > 255 {
		vAssert(err != nil, "OverviewGen1 with more records than its count byte can tell refused")
		vReach("refused")
		return
	}
	vAssert(err == nil, "OverviewGen1 with added records encodes")
	at, size := 491, 98
	if !locks {
		at, size = 492, 31
	}
	vAssert(len(out) == 493+128+n*size && int(out[at]) == n, "OverviewGen1 count byte")
	vReach("end", uint64(n))
}

// --- C19: inputs left alone ---

//v:bounds an overview with one lock and one control and activities with one record of each kind, every byte symbolic (defined codes); a buffer of 0 to 3 bytes to append to
func vh_C19_transfers() {
	pre := vBytes("pre", 3)[:vPick("pre len", 4)]
	dst := append(make([]byte, 0, 2000), pre...)
	if vPick("which", 2) == 0 {
		b := vOverview(1, 1)
		keep := vCopy(b)
		o, err := unmarshalOverviewGen1(b)
		vAssert(err == nil && vEq(b, keep), "OverviewGen1 decoding leaves the input alone")
		before := proto.Clone(o)
		o1, err1 := appendOverviewGen1(nil, o)
		o2, err2 := appendOverviewGen1(dst, o)
		vAssert(err1 == nil && err2 == nil, "OverviewGen1 encodes")
		vAssert(vEq(o2, append(vCopy(pre), o1...)), "OverviewGen1 encoding appends the same bytes to any buffer")
		vAssert(vSame(o, before), "OverviewGen1 encoding leaves the message alone")
		vAssert(vEq(b, keep), "OverviewGen1 encoding leaves the input alone")
	} else {
		b := vActivities([4]int{1, 1, 1, 1})
		keep := vCopy(b)
		a, err := unmarshalActivitiesGen1(b)
		vAssert(err == nil && vEq(b, keep), "ActivitiesGen1 decoding leaves the input alone")
		before := proto.Clone(a)
		o1, err1 := appendActivitiesGen1(nil, a)
		o2, err2 := appendActivitiesGen1(dst, a)
		vAssert(err1 == nil && err2 == nil, "ActivitiesGen1 encodes")
		vAssert(vEq(o2, append(vCopy(pre), o1...)), "ActivitiesGen1 encoding appends the same bytes to any buffer")
		vAssert(vSame(a, before), "ActivitiesGen1 encoding leaves the message alone")
		vAssert(vEq(b, keep), "ActivitiesGen1 encoding leaves the input alone")
	}
	vReach("end")
}

// --- C07: card slots ---

//v:bounds all 256 card slot bytes of an overview
func vh_C07_slots() {
	t := vTags[0]
	d := t.vSmallDefined("m")
	s := vU8("slots")
	d[432] = s
	o, err := unmarshalOverviewGen1(d)
	vAssert(err == nil, "OverviewGen1 accepted")
	vAssert(okSlot(o.GetDriverSlotCard(), s&15), "driver slot card is the one of its code, or unrecognised")
	vAssert(okSlot(o.GetCoDriverSlotCard(), s>>4), "co-driver slot card is the one of its code, or unrecognised")
	out, err := appendOverviewGen1(nil, o)
	vAssert(err == nil && out[432] == s, "card slot codes survive")
	vReach("end")
}

func okSlot(v ddv1.SlotCardType, code byte) bool {
	if n := eSlotCardType[code]; n >= 0 {
		return int32(v) == int32(n)
	}
	return v == ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
}

// --- C22: an overview without its stored bytes ---

//v:bounds overviews with 0 to 3 locks and controls, every byte symbolic (defined codes) except texts, one of four each
func vh_C22_overview() {
	nl, nc := vOverviewCounts()
	v := vPick("text", 4)
	b := vOverview(nl, nc)
	vAssume(bAnd(eSlotCardType[b[432]&15] >= 0, eSlotCardType[b[432]>>4] >= 0))
	vIa5In(b[388:405], v)
	vTextIn(b[406:420], v)
	vIa5In(b[439:455], v)
	vTextIn(b[455:491], (v+1)%4)
	for i := 0; i < nl; i++ {
		l := b[492+98*i : 492+98*i+98]
		vTextIn(l[8:44], (v+i)%4)
		vTextIn(l[44:80], (v+i+1)%4)
		vIa5In(l[82:98], (v+i+2)%4)
	}
	for i := 0; i < nc; i++ {
		c := 493 + 98*nl + 31*i
		vIa5In(b[c+7:c+23], (v+i)%4)
	}
	o, err := unmarshalOverviewGen1(b)
	vAssert(err == nil, "OverviewGen1 accepted")
	o = vStrip(o).(*vuv1.OverviewGen1)
	out, err := appendOverviewGen1(nil, o)
	vAssert(err == nil, "OverviewGen1 without stored bytes encodes")
	vAssert(len(out) == len(b), "OverviewGen1 without stored bytes encodes to its size")
	p, err := unmarshalOverviewGen1(out)
	vAssert(err == nil, "OverviewGen1 without stored bytes decodes")
	vAssert(vSame(vStrip(p), o), "OverviewGen1 without stored bytes decodes to the same fields")
	vReach("end", uint64(nl), uint64(nc))
}

// vEntries is the stored bytes of each decoded transfer, by kind.
func vEntries(f *vuv1.VehicleUnitFile) [5][][]byte {
	var got [5][][]byte
	if g := f.GetGen1(); g != nil {
		if x := g.GetOverview(); x != nil {
			got[0] = append(got[0], x.GetRawData())
		}
		for _, x := range g.GetActivities() {
			got[1] = append(got[1], x.GetRawData())
		}
		for _, x := range g.GetEventsAndFaults() {
			got[2] = append(got[2], x.GetRawData())
		}
		for _, x := range g.GetDetailedSpeed() {
			got[3] = append(got[3], x.GetRawData())
		}
		for _, x := range g.GetTechnicalData() {
			got[4] = append(got[4], x.GetRawData())
		}
	}
	if g := f.GetGen2V1(); g != nil {
		if x := g.GetOverview(); x != nil {
			got[0] = append(got[0], x.GetRawData())
		}
		for _, x := range g.GetActivities() {
			got[1] = append(got[1], x.GetRawData())
		}
		for _, x := range g.GetEventsAndFaults() {
			got[2] = append(got[2], x.GetRawData())
		}
		for _, x := range g.GetDetailedSpeed() {
			got[3] = append(got[3], x.GetRawData())
		}
		for _, x := range g.GetTechnicalData() {
			got[4] = append(got[4], x.GetRawData())
		}
	}
	if g := f.GetGen2V2(); g != nil {
		if x := g.GetOverview(); x != nil {
			got[0] = append(got[0], x.GetRawData())
		}
		for _, x := range g.GetActivities() {
			got[1] = append(got[1], x.GetRawData())
		}
		for _, x := range g.GetEventsAndFaults() {
			got[2] = append(got[2], x.GetRawData())
		}
		for _, x := range g.GetDetailedSpeed() {
			got[3] = append(got[3], x.GetRawData())
		}
		for _, x := range g.GetTechnicalData() {
			got[4] = append(got[4], x.GetRawData())
		}
	}
	return got
}

//v:bounds files of 40, 130, 257 or 400 transfers of one generation and version whose types go round (an overview or interface version first), every value of another fixed content and the last one with a symbolic byte
//v:cost 5
func vh_C09_many() {
	kinds := [][]int{{0, 1, 2, 3, 4}, {5, 6, 7, 8, 9}, {14, 10, 11, 12, 8, 13}}[vPick("kind", 3)]
	N := []int{40, 130, 257, 400}[vPick("n", 4)]
	var b []byte
	var want [5][][]byte
	for i := 0; i < N; i++ {
		t := vTags[kinds[i%len(kinds)]]
		var d []byte
		if i == N-1 {
			d = t.vDefined(t.vSmall("m"))
		} else {
			d = t.vDefined(t.vMany(i))
		}
		b = append(append(b, 0x76, t.code), d...)
		if k := int(t.code & 15); k > 0 {
			want[k-1] = append(want[k-1], d)
		}
	}
	f, err := UnmarshalVehicleUnitFile(b)
	vAssert(err == nil && f != nil, "C09 file of many well-formed transfers accepted")
	vTags[kinds[1]].vKind(f, kinds[0] == 14)
	want[0] = want[0][len(want[0])-1:]
	got := vEntries(f)
	for k := range want {
		vAssert(len(got[k]) == len(want[k]), "C09 one entry per transfer of many")
		for i := range want[k] {
			vAssert(vEq(got[k][i], want[k][i]), "C09 entries in the order of the many transfers")
		}
	}
	vReach("whole", uint64(N))
}
